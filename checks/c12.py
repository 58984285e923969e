""" C12: a failed connection stays failed and silent. """
import os

from siotls import TLSError

from checks.c08 import STRAYS, stray
from lib import judge, mutate, pki, ref13, scen
from lib.link import Link, Ref, Sio
from lib.monitor import KeyLog, records
from lib.ref13 import ALERT, APPDATA, HANDSHAKE, HEARTBEAT

PID, LEVEL = 'C12', 'exploration'
RULE = ('distinct (role, cause of the failure, place, what was tried afterwards) histories of connections which '
        'failed, observed after every operation')
ASSUMPTIONS = ['an alert is fatal whatever its level, but close_notify and user_canceled (RFC 8446 6.2)',
               'an alert whose level does not exist is an error of its own: it may be answered',
               'a failed connection may ignore its input or refuse it with a TLS error']
MINIMUM = {'failures': 3000, 'own failures': 1200, 'peer alerts': 1500, 'operations after a failure': 30000,
           'sends refused after a failure': 5000, 'bytes ignored': 1000000, 'distinct alert codes': 1000,
           'silent failures of a closed direction': 50}

S_PLACES = ('SH', 'EE', 'CERT', 'CV', 'FIN', 'after')
C_PLACES = ('CH', 'FIN', 'after')
KINDS = ('corrupt', 'mac', 'overflow', 'type', 'empty-hs', 'app', 'alert-short', 'alert-long', 'alert-empty', 'stray', 'truncate',
         'no-content', 'span', 'heartbeat-cut', 'replayed')


def cases(tier, seed):
    k = 2 if tier == 'quick' else 25
    out = []
    for role, places in (('client', S_PLACES), ('server', C_PLACES)):
        for n in range(k):
            for code in range(256):
                if code not in (0, 90):
                    for level in (1, 2):
                        out.append({'what': 'alert', 'role': role, 'code': code, 'level': level, 'at': 'after', 'n': n})
                    out.append({'what': 'alert', 'role': role, 'code': code, 'level': 1 + (code + n) % 2,
                                'at': places[(code + n) % (len(places) - 1)], 'n': n})
            for at in places:
                for kind in KINDS:
                    for m in range(6):
                        out.append({'what': 'own', 'role': role, 'kind': kind, 'at': at, 'n': n * 6 + m})
        for n in range(40 * k):
            out.append({'what': 'half', 'role': role, 'n': n})
    out += [{'what': 'pair', 'n': n} for n in range(150 * k)]
    out += [{'what': 'config', 'n': n} for n in range(60 * k)]
    return out


def run_case(spec, ctx):
    with KeyLog() as kl:
        globals()['run_' + spec['what']](spec, ctx, kl)


def provoke(rng, kind, peer, msg=None):
    """ Items which make the other side fail, then nothing or what it expected. """
    raw = lambda t, b: ('raw', bytes([t]) + b'\x03\x03' + len(b).to_bytes(2, 'big') + b)
    keep = [msg] if msg is not None else []
    if kind == 'corrupt' and msg is not None:
        b = bytearray(msg)
        b[rng.randrange(4, len(b))] ^= 1 << rng.randrange(8)
        return [bytes(b)]
    if kind == 'truncate' and msg is not None:
        n = rng.randint(4, len(msg) - 1)
        return [('wire', msg[:1] + (n - 4).to_bytes(3, 'big') + msg[4:n], msg)]
    if kind in ('mac', 'corrupt', 'truncate'):
        return [raw(APPDATA, os.urandom(rng.choice((17, 40, 300))))] + keep
    if kind == 'overflow':
        return [raw(rng.choice((APPDATA, HANDSHAKE)), os.urandom(rng.choice((16641, 20000, 65535))))] + keep
    if kind == 'type':
        return [('record', rng.choice((0, 19, 25, 100, 255)), b'what')] + keep
    if kind == 'empty-hs':
        return [('record', HANDSHAKE, b'')] + keep
    if kind == 'app':
        if peer.write is None or msg is not None:
            return [('record', APPDATA, b'too soon')] + keep
        return [raw(APPDATA, b'too short')]
    if kind == 'alert-short':
        return [('record', ALERT, b'\x02')] + keep
    if kind == 'alert-empty':
        return [('record', ALERT, b'')] + keep
    if kind == 'alert-long':
        return [('record', ALERT, b'\x02\x28\x00')] + keep
    if kind == 'stray':
        names = [s for s in STRAYS if not (s == 'NST' and msg is None)]
        return [('wire', stray(rng, rng.choice(names), peer), b'')] + keep
    if kind == 'no-content':
        if peer.write is None:
            return [('record', 0, b'')] + keep
        return [('raw', peer.write.seal_inner(bytes(rng.choice((1, 30)))))] + keep
    if kind == 'span':
        if msg is None:
            return [('record', HANDSHAKE, b'\x04\x00\x10'), ('record', APPDATA, b'within')]
        return [('record', HANDSHAKE, msg[:2]), ('record', ALERT, b'\x01\x5a'), ('record', HANDSHAKE, msg[2:])]
    if kind == 'heartbeat-cut':
        return [('record', HEARTBEAT, b'\x01\xff\xffx' + bytes(20))] + keep
    if kind == 'replayed':
        # the same protected record twice
        if peer.write is None:
            return [('record', HANDSHAKE, msg), ('record', HANDSHAKE, msg)]
        rec = peer.write.seal(APPDATA if msg is None else HANDSHAKE, msg or b'once')
        return [('raw', rec), ('raw', rec)]
    raise AssertionError(kind)


def play(peer, items):
    """ Script items outside of a flight. """
    for it in items:
        if isinstance(it, bytes):
            peer.put(HANDSHAKE, it)
        elif it[0] == 'wire':
            peer.put(HANDSHAKE, it[1])
        elif it[0] == 'record':
            peer.put(*it[1:])
        else:
            peer.outbuf += it[1]


def endpoints(ctx, role, sc, script=None):
    lay = ref13.Layout(ctx.rng, ctx.rng.choice(('single', 'single', 'coalesce', 'random')))
    if role == 'client':
        ref = Ref(scen.ref_server(sc, layout=lay, script=script, lenient=True, tickets=ctx.rng.choice((0, 1))))
        sio = Sio(scen.client_config(sc, log_keys=True), server_hostname=sc['host'])
        return sio, ref, Link(sio, ref, *scen.segmenters(ctx.rng))
    ref = Ref(scen.ref_client(sc, layout=lay, script=script, lenient=True, shares=[scen.expected(sc)['group']]))
    sio = Sio(scen.server_config(sc, log_keys=True))
    return sio, ref, Link(ref, sio, *scen.segmenters(ctx.rng))


class Dead:
    """ Watches a siotls endpoint from before its failure on. """
    def __init__(self, ctx, sio, why):
        self.ctx, self.sio, self.why = ctx, sio, why
        self.read = bytearray(sio.take())
        self.frozen = None
        self.ops = []

    def observe(self):
        """ The moment of the failure. """
        self.read += self.sio.take()
        self.sio.out()
        self.frozen = len(self.sio.tx)
        self.ctx.count('failures')
        self.judge('the failure')

    def judge(self, op):
        ctx, sio = self.ctx, self.sio
        self.ops = (self.ops + [op])[-5:]
        why = lambda: f'{self.why} then {self.ops}: {sio.error!r}'
        ctx.check(not sio.connected, 'connected after a failure', why)
        ctx.check(sio.post_handshake, 'the handshake of a failed connection goes on', why)
        ctx.check(not sio.take(), 'a failed connection delivers data', why)
        b = sio.out()
        ctx.check(not b, 'a failed connection speaks', lambda: f'{why()} {b[:40].hex()}')

    def input(self, op, data):
        """ More input: ignored, or refused. """
        if not data:
            return
        self.ctx.count('bytes ignored', len(data))
        try:
            self.sio.conn.receive_data(bytes(data))
        except TLSError:
            pass
        except Exception as exc:
            self.ctx.violation(f'{type(exc).__name__} comes out of a failed connection', f'{self.why} {op} {exc!r}')
        self.judge(op)

    def torture(self, ref, good):
        """ good: bytes this endpoint took well, or would have. """
        ctx, sio, rng = self.ctx, self.sio, self.ctx.rng
        ops = ['rest', 'app', 'garbage', 'replay', 'hello', 'ccs', 'heartbeat', 'alert', 'close_notify', 'mutant', 'ticket',
               'send', 'send', 'send-empty', 'close', 'close', 'eof', 'start', 'rekey']
        rng.shuffle(ops)
        for op in ops[:rng.choice((6, 12, len(ops)))] + ['send']:
            ctx.count('operations after a failure')
            p = ref.peer if ref else None
            if op == 'rest' and p:
                for _ in range(3):
                    self.input(op, p.out())
            elif op in ('app', 'heartbeat', 'alert', 'close_notify', 'ticket') and p:
                p.out()
                if op == 'app':
                    p.put(APPDATA, os.urandom(rng.choice((0, 1, 3000))))
                elif op == 'heartbeat':
                    p.put(HEARTBEAT, b'\x01\x00\x04echo' + bytes(16))
                elif op == 'alert':
                    p.put(ALERT, bytes([rng.choice((1, 2)), rng.randrange(256)]))
                elif op == 'close_notify':
                    p.put(ALERT, b'\x01\x00')
                else:
                    p.put(HANDSHAKE, stray(rng, 'NST', p))
                self.input(op, p.out())
            elif op == 'garbage':
                self.input(op, os.urandom(rng.choice((1, 5, 600))))
            elif op == 'replay':
                self.input(op, good[:rng.choice((len(good), rng.randint(0, len(good)))) if good else 0])
            elif op == 'mutant':
                if good:
                    self.input(op, mutate.mutate(rng, bytes(good)))
            elif op == 'hello':
                c = ref13.RefClient()
                c.start()
                self.input(op, c.out())
            elif op == 'ccs':
                self.input(op, b'\x14\x03\x03\x00\x01\x01' * rng.randint(1, 3))
            elif op in ('send', 'send-empty'):
                try:
                    sio.write(os.urandom(rng.choice((1, 40, 40000))) if op == 'send' else b'')
                except TLSError:
                    ctx.count('sends refused after a failure')
                except Exception as exc:
                    ctx.violation('sending on a failed connection does not raise a TLS error', f'{self.why} {exc!r}')
                else:
                    ctx.violation('data can be sent on a failed connection', f'{self.why} {self.ops}')
            elif op == 'close':
                sio.close()
            elif op == 'eof':
                sio.conn.close_receiving_end()
            elif op == 'start':
                try:
                    sio.start()
                except Exception:
                    ctx.count('restarts refused')
            elif op == 'rekey':
                try:
                    sio.conn.rekey()
                except (TLSError, NotImplementedError):
                    pass
            self.judge(op)


def reach(ctx, sio, ref, link, place, items, why):
    """ Runs up to the failure, watching. items(peer) for the place 'after'. """
    dead = Dead(ctx, sio, why)
    other = ref
    link.start()
    given = bytearray()

    def carry():
        moved = False
        for _ in range(60):
            a = sio.out()
            if a:
                other.feed(a)
            b = other.out()
            if not a and not b:
                return moved
            moved = True
            for piece in link.seg_s.cut(b):
                # what is sent early is refused or lawful, as C08 has it
                sio.feed(piece)
                given.extend(piece)
                dead.read += sio.take()
                if sio.error is not None or (sio.post_handshake and not sio.connected):
                    dead.rest = b[b.find(piece) + len(piece):] if len(piece) > 8 else b''
                    return True
        return moved

    carry()
    if place == 'after':
        if not sio.connected:
            ctx.require(False, 'compatible handshake does not complete', repr(sio.error))
        if ctx.rng.random() < .5:
            sio.write(b'before')
            ref.peer.send_app(b'before too')
            carry()
        play(ref.peer, items(ref.peer))
        ref.peer.send_app(b'after the error')
        carry()
    if sio.error is None and sio.connected:
        return None, given
    if sio.error is None:
        return None, given
    dead.observe()
    return dead, given


def run_alert(spec, ctx, kl):
    rng, code, level, at = ctx.rng, spec['code'], spec['level'], spec['at']
    sc = scen.SIMPLE if rng.random() < .6 else scen.rand(rng, compatible=True)
    item = ('record', ALERT, bytes([level, code]))
    script = None
    if at != 'after':
        keep = rng.random() < .7
        script = {at: lambda p, m: [item, m] if keep else [item, ('wire', b'', m)]}
    sio, ref, link = endpoints(ctx, spec['role'], sc, script)
    why = f"{spec['role']} alert {code} level {level} at {at}"
    dead, given = reach(ctx, sio, ref, link, at, lambda p: [item], why)
    ctx.count('peer alerts')
    ctx.count('distinct alert codes')
    if dead is None:
        ctx.violation('an alert of the peer is not terminal', f'{why}: connected={sio.connected} {sio.error!r}')
        return
    ctx.check(isinstance(sio.error, TLSError), f'{type(sio.error).__name__} tells the alert of the peer', why)
    tap, side = judge.own_tap(sio, kl, asked=sc['mfl'], peer=ref.peer)
    fatal = [a for a in side.alerts if a[1] != 'close_notify']
    ctx.check(not fatal, 'an alert is answered', f'{why}: {fatal}')
    ctx.check(not ref.peer.alerts_in, 'an alert is answered', f'{why}: {ref.peer.alerts_in}')
    if sio.tx:
        # nor by anything which cannot be read
        ctx.check(not (side.records and side.records[-1].get('opaque') and at != 'after' and spec['role'] == 'client'),
                  'an alert is answered', f'{why}: {side.records[-1]}')
    ctx.check(len(sio.errors) == 1, 'receiving raises more than once', f'{why}: {sio.errors}')
    ctx.check(bytes(dead.read) in (b'', b'before too'), 'data which follows an alert is delivered', f'{why} {bytes(dead.read)!r}')
    dead.torture(ref, bytes(given))
    ctx.eval()
    ctx.seen('alert', spec['role'], code, level, at)


def run_own(spec, ctx, kl):
    rng, kind, at = ctx.rng, spec['kind'], spec['at']
    sc = scen.SIMPLE if rng.random() < .6 else scen.rand(rng, compatible=True)
    script = None if at == 'after' else {at: lambda p, m: provoke(rng, kind, p, m)}
    sio, ref, link = endpoints(ctx, spec['role'], sc, script)
    why = f"{spec['role']} {kind} at {at}"
    dead, given = reach(ctx, sio, ref, link, at, lambda p: provoke(rng, kind, p), why)
    if dead is None:
        ctx.count('no failure')          # judged by C07 and C08
        return
    ctx.count('own failures')
    tap, side = judge.own_tap(sio, kl, asked=sc['mfl'], peer=ref.peer)
    judge.outcome(ctx, sio, side, why, alerted=ref.error is not None)
    ctx.check(b'after the error' not in dead.read and b'too soon' not in dead.read, 'data which follows an error is delivered', why)
    dead.torture(ref, bytes(given))
    tap, side = judge.own_tap(sio, kl, asked=sc['mfl'], peer=ref.peer)
    judge.outcome(ctx, sio, side, why, alerted=ref.error is not None)
    ctx.eval()
    ctx.seen('own', spec['role'], kind, at, judge.alert_name(sio.error))
    ctx.sample({'role': spec['role'], 'failure': kind, 'at': at, 'raised': repr(sio.error)[:80], 'then': dead.ops})


def run_half(spec, ctx, kl):
    """ A failure while the sending direction is closed: nothing can be told. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    sio, ref, link = endpoints(ctx, spec['role'], sc)
    link.handshake()
    ctx.require(sio.connected, 'compatible handshake does not complete', repr(sio.error))
    sio.close()
    ref.feed(sio.out())
    kind = rng.choice(('mac', 'alert', 'overflow', 'type', 'stray', 'empty-hs'))
    if kind == 'alert':
        play(ref.peer, [('record', ALERT, bytes([rng.choice((1, 2)), rng.choice((10, 20, 80, 47, 200))]))])
    else:
        play(ref.peer, provoke(rng, kind, ref.peer))
    good = ref.out()
    dead = Dead(ctx, sio, f'half closed, {kind}')
    sio.feed(good)
    if sio.error is None:
        ctx.count('no failure')
        return
    b = sio.out()
    ctx.check(not b, 'something follows the close_notify', f'{kind} {b.hex()}')
    ctx.check(isinstance(sio.error, TLSError), f'{type(sio.error).__name__} comes out of receive_data', repr(sio.error))
    ctx.count('silent failures of a closed direction')
    dead.observe()
    dead.torture(ref, good)
    ctx.eval()
    ctx.seen('half', spec['role'], kind)


def run_pair(spec, ctx, kl):
    """ A tampered exchange between two siotls endpoints: both die, once, and quietly. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    hits = []
    when = rng.randrange(1, 6)

    def intercept(d, data):
        hits.append(d)
        if len(hits) == when:
            b = bytearray(data)
            b[rng.randrange(5, len(b))] ^= 1 << rng.randrange(8)
            return bytes(b)
        return data
    c, s = scen.pair(sc, {'log_keys': True}, {'log_keys': True})
    link = Link(c, s, *scen.segmenters(rng), intercept=intercept)
    link.start()
    link.run()
    for e in (c, s):
        if e.connected:
            e.write(os.urandom(50))
    link.run()
    if not (c.error or s.error):
        ctx.count('no failure')
        return
    first, second = (c, s) if c.error else (s, c)
    for e in (first, second):
        if e.error is None:
            continue        # told in keys or in a state where it goes unnoticed
        d = Dead(ctx, e, f'tampered pair {e.side}')
        d.observe()
        d.torture(None, bytes(e.rx))
        ctx.check(len(e.errors) == 1, 'receiving raises more than once', str(e.errors))
    # never more than one fatal alert each
    for e in (c, s):
        recs, rest = records(e.tx)
        ctx.check(not rest, 'incomplete record emitted', '')
    ctx.eval()
    ctx.seen('pair', when, c.error is not None, s.error is not None)


def run_config(spec, ctx, kl):
    """ Negotiations which fail, with everything sent in one go or byte by byte. """
    rng = ctx.rng
    x = rng.choice(('incompatible', 'untrusted', 'auth'))
    if x == 'incompatible':
        sc = scen.rand(rng, compatible=False)
        c, s = scen.pair(sc)
    elif x == 'untrusted':
        c, s = scen.pair(scen.simple(kind=rng.choice(('p256', 'rsa'))), {'trust_store': pki.store(pki.root(7))})
    else:
        # client certificates are not supported: whatever happens the server does not let it in unauthenticated
        c, s = scen.pair(scen.SIMPLE, {}, {'trust_store': pki.store()})
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    failed = [e for e in (c, s) if e.error is not None]
    if x != 'auth':
        ctx.require(failed, 'an impossible handshake fails nowhere', x)
        ctx.check(not s.connected, 'connected although the handshake is impossible', f'{x} {s.side}')
        ctx.check(not c.connected, 'connected although the handshake is impossible', f'{x} {c.side}')
    for e in failed:
        d = Dead(ctx, e, f'{x} {e.side}')
        d.observe()
        d.torture(None, bytes(e.rx))
        other = c if e is s else s
        ctx.check(len(e.errors) == 1, 'receiving raises more than once', str(e.errors))
    ctx.count('own failures', len(failed))
    ctx.eval()
    ctx.seen('config', x, len(failed))
