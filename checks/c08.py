""" C08: messages are only accepted in protocol order. """
import os

from siotls import TLSError

from lib import judge, pki, ref13, scen
from lib.link import Link, Ref, Sio, alert_name
from lib.monitor import KeyLog
from lib.ref13 import CCS

PID, LEVEL = 'C08', 'exploration'
RULE = ('distinct (role, mutation of the order, message concerned, place, type of certificate) sequences judged, '
        'the receiver being observed after each message')
ASSUMPTIONS = ['change_cipher_spec records are ignored by siotls wherever they come: not judged here',
               'KeyUpdate is not supported: refusing it is accepted',
               'heartbeats during the handshake are the matter of C19']
MINIMUM = {'illegal sequences refused': 1000, 'legal sequences accepted': 100, 'messages observed': 4000,
           'premature writes refused': 500}

R = ref13
SERVER_ORDER = ('SH', 'EE', 'CR', 'CERT', 'CV', 'FIN')
CLIENT_STEPS = {'wait_sh': {'SH': 'wait_ee'}, 'wait_ee': {'EE': 'wait_cert_cr'},
                'wait_cert_cr': {'CR': 'wait_cert', 'CERT': 'wait_cv'}, 'wait_cert': {'CERT': 'wait_cv'},
                'wait_cv': {'CV': 'wait_fin'}, 'wait_fin': {'FIN': 'connected'},
                'connected': {'NST': 'connected', 'APP': 'connected'}}
SERVER_STEPS = {'wait_ch': {'CH': 'wait_fin'}, 'wait_fin': {'FIN': 'connected'}, 'connected': {'APP': 'connected'}}
STRAYS = ('CH', 'SH', 'HRR', 'EE', 'CR', 'CERT', 'CERT-empty', 'CV', 'FIN', 'NST', 'EOED', 'HELLO-REQUEST', 'HVR', 'DONE',
          'CKE', 'STATUS', 'MSGHASH', 'UNKNOWN')
INTERLEAVED = ('app', 'heartbeat', 'alert', 'close', 'empty-app')


def cases(tier, seed):
    k = 8 if tier == 'quick' else 80
    out = []
    for n in range(3 * k):
        for cr in (False, True):
            order = [m for m in SERVER_ORDER if cr or m != 'CR']
            for m in order:
                if m not in ('SH', 'CR'):
                    out.append({'what': 'client', 'op': 'omit', 'at': m, 'cr': cr, 'n': n})
                out.append({'what': 'client', 'op': 'repeat', 'at': m, 'cr': cr, 'n': n})
            for a in order[1:]:
                for b in order[order.index(a) + 1:]:
                    out.append({'what': 'client', 'op': 'swap', 'at': a, 'with': b, 'cr': cr, 'n': n})
        for m in (*SERVER_ORDER, 'after'):
            for stray in STRAYS:
                out.append({'what': 'client', 'op': 'stray', 'at': m, 'stray': stray, 'cr': m == 'CR' or n % 2 == 0,
                            'n': n})
            if m != 'after':
                for x in INTERLEAVED:
                    out.append({'what': 'client', 'op': 'interleave', 'at': m, 'stray': x, 'cr': m == 'CR' or n % 2 == 0, 'n': n})
                out.append({'what': 'client', 'op': 'app', 'at': m, 'cr': m == 'CR' or n % 2 == 0, 'n': n})
                out.append({'what': 'client', 'op': 'empty-record', 'at': m, 'cr': m == 'CR' or n % 2 == 0, 'n': n})
        for x in ('EE', 'NST', 'byte', 'half'):
            out.append({'what': 'client', 'op': 'span', 'at': 'SH' if x == 'EE' else 'FIN' if x == 'NST' else
                        ('SH', 'FIN')[n % 2], 'stray': x, 'cr': n % 4 > 1, 'n': n})
        for m in SERVER_ORDER[1:]:
            out.append({'what': 'client', 'op': 'clear', 'at': m, 'cr': m == 'CR' or n % 2 == 0, 'n': n})
    out += [{'what': 'client', 'op': 'none', 'at': 'after', 'cr': n % 3 == 0, 'n': n} for n in range(60 * k)]
    for n in range(3 * k):
        for m in ('CH', 'CH2', 'FIN', 'after'):
            for stray in STRAYS:
                out.append({'what': 'server', 'op': 'stray', 'at': m, 'stray': stray, 'n': n})
            if m != 'after':
                for x in INTERLEAVED:
                    out.append({'what': 'server', 'op': 'interleave', 'at': m, 'stray': x, 'n': n})
                out.append({'what': 'server', 'op': 'app', 'at': m, 'n': n})
                out.append({'what': 'server', 'op': 'repeat', 'at': m, 'n': n})
                out.append({'what': 'server', 'op': 'empty-record', 'at': m, 'n': n})
                for x in ('byte', 'half', 'FIN'):
                    out.append({'what': 'server', 'op': 'span', 'at': m, 'stray': x, 'n': n})
        for x in ('app-keys', 'empty-cert', 'empty-cert-cv', 'eoed'):
            out.append({'what': 'server', 'op': 'instead-fin', 'at': 'FIN', 'stray': x, 'n': n})
        out.append({'what': 'server', 'op': 'clear', 'at': 'FIN', 'n': n})
    out += [{'what': 'server', 'op': 'none', 'at': 'after', 'n': n, 'hrr': n % 2 == 0} for n in range(60 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)


def stray(rng, name, peer, ch=None):
    """ A stray message, as authentic as possible. """
    client = peer.side == 'client'
    mk = {
        'CH': lambda: ch or ref13.RefClient().client_hello(),
        'SH': lambda: R.hs(R.SH, b'\x03\x03' + os.urandom(32) + b'\0' + R.u16(0x1303) + b'\0' + R.v16(
            R.ext(43, b'\x03\x04') + R.ext(51, R.u16(0x1d) + R.v16(os.urandom(32))))),
        'HRR': lambda: R.hs(R.SH, b'\x03\x03' + R.HRR_RANDOM + b'\0' + R.u16(0x1303) + b'\0' + R.v16(
            R.ext(43, b'\x03\x04') + R.ext(51, R.u16(0x17)))),
        'EE': lambda: R.hs(R.EE, R.v16(b'')),
        'CR': lambda: R.hs(R.CR, R.v8(rng.choice((b'', b'ctx'))) + R.v16(R.ext(R.X_SIGALGS, R.list16([0x0403, 0x0804])))),
        'CERT': lambda: R.hs(R.CERT, R.v8(b'') + R.v24(R.v24(pki.leaf('p256').der) + R.v16(b''))),
        'CERT-empty': lambda: R.hs(R.CERT, R.v8(b'') + R.v24(b'')),
        'CV': lambda: R.hs(R.CV, R.u16(0x0403) + R.v16(R.sign(
            pki.key('p256', 'leaf0'), 0x0403, (R.CV_CLIENT if client else R.CV_SERVER)
            + (peer.th() if peer.suite else b'')))),
        'FIN': lambda: R.hs(R.FIN, peer.sched.finished(peer.sched.c_hs if client else peer.sched.s_hs, peer.th())
                            if peer.sched else os.urandom(32)),
        'NST': lambda: R.hs(R.NST, R.u32(60) + os.urandom(4) + R.v8(b'\0') + R.v16(os.urandom(30)) + R.v16(b'')),
        'EOED': lambda: R.hs(R.EOED, b''),
        'HELLO-REQUEST': lambda: R.hs(0, b''),
        'HVR': lambda: R.hs(3, b'\x03\x03' + R.v8(b'cookie')),
        'DONE': lambda: R.hs(14, b''),
        'CKE': lambda: R.hs(16, R.v8(os.urandom(32))),
        'STATUS': lambda: R.hs(22, b'\x01' + R.v24(b'x')),
        'MSGHASH': lambda: R.hs(254, os.urandom(32)),
        'UNKNOWN': lambda: R.hs(rng.choice((7, 9, 99, 200)), os.urandom(rng.choice((0, 10)))),
    }
    return mk[name]()


def kind_of(name):
    """ How the state machine calls a stray. """
    return {'CERT-empty': 'CERT', 'HRR': 'SH'}.get(name, name)


class Watch:
    """ Feeds up to each mark, and compares with the machine. """
    def __init__(self, ctx, sio, ref, steps, start, seg, why):
        self.ctx, self.sio, self.ref, self.steps, self.state = ctx, sio, ref, steps, start
        self.seg, self.why = seg, why
        self.dead = False
        self.readable = bytearray()
        self.lawful = bytearray()

    def deliver(self):
        """ Carry what the reference peer has to say, mark by mark. """
        p = self.ref.peer
        marks, p.marks = p.marks, []
        wire = p.out()
        at = 0
        for off, label in marks:
            self.feed(wire[at:off])
            at = off
            self.reached(label)
        self.feed(wire[at:])
        return bool(wire)

    def feed(self, data):
        for piece in self.seg.cut(data):
            self.write_early()
            self.sio.feed(piece)
        self.readable += self.sio.take()

    def write_early(self):
        """ Whatever came so far, no data can be sent but when the protocol allows it. """
        s = self.sio
        if s.connected or self.ctx.rng.random() > .15:
            return
        if s.side == 'server' and self.state != 'wait_ch':
            return          # a server may write after its own Finished
        try:
            s.conn.send_data(b'early')
        except TLSError:
            self.ctx.count('premature writes refused')
        except Exception as exc:
            self.ctx.violation('send_data does not raise a TLS error before the connection is established', repr(exc))
        else:
            self.ctx.violation('application data can be sent too early', f'{self.why} in {self.state}')

    def reached(self, label):
        ctx = self.ctx
        name, payload = label if isinstance(label, tuple) else (label, b'')
        ctx.count('messages observed')
        if self.dead:
            return
        authentic = not name.startswith('STRAY:')
        name = name.removeprefix('STRAY:')
        nxt = self.steps[self.state].get(name)
        if nxt is not None and not authentic and name != 'NST':
            # in its place, but what it says need not be acceptable
            self.dead, self.state = True, nxt
            ctx.count('strays in a lawful place')
            return
        if nxt is None:
            self.dead = True
            ctx.check(isinstance(self.sio.error, TLSError), f'{name} is accepted in {self.state}',
                      lambda: f'{self.why}: error={self.sio.error!r} connected={self.sio.connected}')
            ctx.check(not self.sio.connected, f'still connected after {name} in {self.state}', self.why)
            return
        ctx.check(self.sio.error is None, f'{name} is refused in {self.state}', lambda: f'{self.why}: {self.sio.error!r}')
        self.state = nxt
        if name == 'APP':
            self.lawful += payload
        if self.sio.error is None and nxt == 'connected':
            ctx.check(self.sio.connected, 'not connected once everything was received', self.why)
        if nxt != 'connected':
            ctx.check(not self.sio.connected, f'connected in {nxt}', self.why)
        if self.sio.side == 'client' and nxt != 'connected' or self.sio.side == 'server' and nxt == 'wait_ch':
            ctx.check(not self.readable, 'application data is readable before the handshake is over', self.why)


def interleaved(rng, x):
    return {'app': (R.APPDATA, b'now'), 'empty-app': (R.APPDATA, b''),
            'heartbeat': (R.HEARTBEAT, b'\x01\x00\x01x' + bytes(16)),
            'alert': (R.ALERT, b'\x01\x5a'), 'close': (R.ALERT, b'\x01\x00')}[x]


def halves(rng, m):
    i = rng.randint(1, len(m) - 1)
    return m[:i], m[i:]


def mutated(spec, rng, name, peer, m, saved):
    """ The items sent in place of message `name`. """
    op, at = spec['op'], spec['at']
    M = lambda label: ('mark', label)
    if op == 'swap':
        # the message does not depend on the place: only its order is wrong
        if name == at:
            saved['swapped'] = True
            other = saved['make'](spec['with'], peer)
            return [other, M(spec['with'])]
        if name == spec['with']:
            other = saved['make'](at, peer)
            return [other, M(at)]
    if name != at:
        return [m, M(name)]
    if op == 'omit':
        return []
    if op == 'repeat':
        again = [m, M(name)] * rng.choice((2, 2, 3))
        return again
    if op == 'stray':
        s = stray(rng, spec['stray'], peer, saved.get('ch'))
        return [s, M('STRAY:' + kind_of(spec['stray'])), m, M(name)]
    if op == 'interleave':
        a, b = halves(rng, m)
        t, body = interleaved(rng, spec['stray'])
        # ends with something nothing allows
        return [('wire', a, m), ('flush',), ('record', t, body), M('INTERLEAVED'), ('wire', b, b'')]
    if op == 'app':
        return [('record', R.APPDATA, rng.choice((b'premature', b'', b'x' * 500))), M('APP'), m, M(name)]
    if op == 'empty-record':
        return [('record', R.HANDSHAKE, b''), M('EMPTY'), m, M(name)]
    if op == 'span':
        junk = {'EE': stray(rng, 'EE', peer), 'NST': stray(rng, 'NST', peer), 'FIN': stray(rng, 'FIN', peer),
                'byte': rng.choice((b'\x08', b'\x14', b'\x01')), 'half': b'\x08\x00\x00\x02'}[spec['stray']]
        return [('record', R.HANDSHAKE, m + junk), M('SPANNED'), ('wire', b'', m)]
    if op == 'clear':
        return [('raw', b'\x16\x03\x03' + R.v16(m)), M('CLEAR'), ('wire', b'', m)]
    return [m, M(name)]


def run_client(spec, ctx):
    rng, op, at = ctx.rng, spec['op'], spec['at']
    sc = scen.rand(rng, compatible=True)
    while sc['trust'] == ['none'] and rng.random() < .6:
        sc = scen.rand(rng, compatible=True)
    saved = {}
    make = {
        'EE': lambda p: R.hs(R.EE, R.v16(b'')), 'CR': lambda p: stray(rng, 'CR', p),
        'CERT': lambda p: p.certificate_message(p.chs[-1]),
        'CV': lambda p: R.hs(R.CV, R.u16(p.scheme) + R.v16(R.sign(p.key, p.scheme, R.CV_SERVER + p.th()))),
        'FIN': lambda p: stray(rng, 'FIN', p),
    }
    saved['make'] = lambda name, p: make[name](p)
    script = {m: (lambda m: lambda p, msg: mutated(spec, rng, m, p, msg, saved))(m) for m in SERVER_ORDER}
    lay = ref13.Layout(rng, rng.choice(('single', 'random', 'tiny')), rng.choice(('none', 'random')))
    kw = {}
    if op == 'swap' and 'EE' in (at, spec['with']) or op == 'omit' and at == 'EE':
        # without EncryptedExtensions nothing else than the order is wrong
        sc.update(trust=['none'] if sc['kind'] == 'rsapss' else sc['trust'], alpn_c=[], alpn_s=[])
        if 'keys' in sc['trust'] or sc['trust'] == ['none']:
            sc.update(scen.simple())
    if rng.random() < .3 and len(sc['groups_c']) > 1:
        kw = dict(hrr_group=rng.choice(sc['groups_c'][1:]), groups=sc['groups_c'])
    ref = Ref(scen.ref_server(sc, script=script, layout=lay, lenient=True, cert_request=spec['cr'], **kw))
    ref.peer.accept_mfl = op not in ('swap', 'omit')
    why = f"client {op} {at} {spec.get('stray') or spec.get('with') or ''} cr={spec['cr']}"
    with KeyLog() as kl:
        sio = Sio(scen.client_config(sc, log_keys=True), server_hostname=sc['host'])
        seg_c, seg_s = scen.segmenters(rng)
        w = Watch(ctx, sio, ref, CLIENT_STEPS, 'wait_sh', seg_s, why)
        sio.start()
        w.write_early()
        for _ in range(8):
            for piece in seg_c.cut(sio.out()):
                ref.feed(piece)
            if not w.deliver():
                break
        after(spec, ctx, rng, w, ref, sio, saved)
        tap, side = judge.own_tap(sio, kl, asked=sc['mfl'], peer=ref.peer)
    conclude(spec, ctx, w, sio, side, ref, why)


def run_server(spec, ctx):
    rng, op, at = ctx.rng, spec['op'], spec['at']
    sc = scen.rand(rng, compatible=True)
    hrr = spec.get('hrr') or at == 'CH2'
    want = scen.expected(sc)['group']
    shares = [want]
    if hrr:
        others = [g for g in sc['groups_c'] if g != want]
        if not others:
            others = [g for g in scen.FAST_GROUPS + scen.SLOW_GROUPS if g != want][:1]
            if others[0] in sc['groups_s'] and sc['groups_s'].index(others[0]) < sc['groups_s'].index(want):
                sc['groups_s'].remove(others[0])
            sc['groups_c'] = sc['groups_c'] + others
        shares = others[:1]
    saved = {}
    state = {'n': 0}

    def items(name):
        def fn(p, m):
            label = 'CH' if name == 'CH2' else name
            if name == 'CH' and hrr and at != 'CH':
                return [m]       # judged when the retried hello comes
            if op == 'instead-fin' and name == 'FIN':
                x = spec['stray']
                if x == 'app-keys':
                    def switch(peer):
                        peer.set_write(peer.sched.c_ap, 'app')
                    return [('do', switch), ('record', R.APPDATA, b'hello'), ('mark', 'APP')]
                if x == 'eoed':
                    return [stray(rng, 'EOED', p), ('mark', 'EOED'), stray(rng, 'FIN', p), ('mark', 'FIN')]
                out = [stray(rng, rng.choice(('CERT', 'CERT-empty')) if x == 'empty-cert' else 'CERT', p),
                       ('mark', 'CERT')]
                if x == 'empty-cert-cv':
                    out += [stray(rng, 'CV', p), ('mark', 'CV')]
                return out + [stray(rng, 'FIN', p), ('mark', 'FIN')]
            got = mutated({**spec, 'at': name if at == name else '-'}, rng, name, p, m, saved)
            return [('mark', label) if it == ('mark', name) else it for it in got]
        return fn

    script = {n: items(n) for n in ('CH', 'CH2', 'FIN')}
    lay = ref13.Layout(rng, rng.choice(('single', 'random', 'tiny')), rng.choice(('none', 'random')))
    ref = Ref(scen.ref_client(sc, shares=shares, script=script, layout=lay, lenient=True))
    why = f"server {op} {at} {spec.get('stray') or ''}"
    with KeyLog() as kl:
        sio = Sio(scen.server_config(sc, log_keys=True))
        seg_c, seg_s = scen.segmenters(rng)
        w = Watch(ctx, sio, ref, SERVER_STEPS, 'wait_ch', seg_c, why)
        sio.start()
        w.write_early()
        ref.start()
        saved['ch'] = None
        for _ in range(8):
            moved = w.deliver()
            out = sio.out()
            for piece in seg_s.cut(out):
                ref.feed(piece)
            if not moved and not out:
                break
        after(spec, ctx, rng, w, ref, sio, saved)
        tap, side = judge.own_tap(sio, kl, peer=ref.peer)
    conclude(spec, ctx, w, sio, side, ref, why)


def after(spec, ctx, rng, w, ref, sio, saved):
    """ Goes on once connected. """
    p = ref.peer
    if w.dead or not sio.connected or not p.connected:
        return
    p.script = {'x': lambda p, m: m}
    if spec['op'] == 'none':
        for _ in range(rng.randint(1, 6)):
            what = rng.choice(('APP', 'NST')) if p.side == 'server' else 'APP'
            if what == 'APP':
                data = os.urandom(rng.choice((0, 1, 300)))
                p.emit([('x', [('record', R.APPDATA, data), ('mark', ('APP', data))])])
            else:
                p.emit([('x', [stray(rng, 'NST', p), ('mark', 'NST')])])
            w.deliver()
    elif spec['op'] == 'stray' and spec['at'] == 'after':
        s = stray(rng, spec['stray'], p, saved.get('ch'))
        k = 'STRAY:' + kind_of(spec['stray'])
        p.emit([('x', [s, ('mark', k)])])
        p.emit([('x', [('record', R.APPDATA, b'more'), ('mark', ('APP', b'more'))])])
        w.deliver()


def conclude(spec, ctx, w, sio, side, ref, why):
    ctx.eval()
    w.readable += sio.take()
    ctx.check(bytes(w.readable) == bytes(w.lawful), 'what is delivered is not what the protocol allowed',
              f'{why}: {bytes(w.readable)[:80]} instead of {bytes(w.lawful)[:80]}')
    alerted = ref.error is not None
    judge.outcome(ctx, sio, side, why, alerted=alerted)
    if spec['op'] == 'none':
        ctx.check(sio.connected and sio.error is None, 'a legal sequence is not accepted', f'{why} {sio.error!r} {ref.error!r}')
        ctx.count('legal sequences accepted')
    elif w.dead:
        ctx.count('illegal sequences refused')
    elif spec['op'] in ('omit',) and spec['at'] == 'FIN':
        ctx.check(not sio.connected, 'connected without Finished', why)
        ctx.count('illegal sequences refused')
    else:
        legal_nst = spec.get('stray') == 'NST' and spec['at'] == 'after' and sio.side == 'client'
        ctx.check(legal_nst or ref.error is not None, 'the workload never reached its illegal message', f'{why} {sio.error!r} {ref.error!r}')
        if not legal_nst:
            ctx.count('not reached')
    ctx.seen(sio.side, spec['op'], spec['at'], spec.get('stray') or spec.get('with'), spec.get('cr'), alert_name(sio.error))
    ctx.sample({'sequence': why, 'outcome': repr(sio.error)[:160]})
