""" C11: closing is orderly in each direction. """
import os

from siotls import TLSError

from lib import ref13, scen
from lib.link import Link, Ref, Sio
from lib.ref13 import ALERT, APPDATA, HANDSHAKE, HEARTBEAT

PID, LEVEL = 'C11', 'exploration'
RULE = ('distinct (role, last operations before a close, kind of close, what was pending in either direction) '
        'histories, the wire and the readable data being compared with a model after every operation')
ASSUMPTIONS = ['is_connected() is the documented predicate: connected or half closed while receiving is possible',
               'what comes after a close_notify is ignored or refused with a TLS error: both leave the other '
               'direction untouched',
               'a close before the handshake completes may be told by a close_notify or not told at all']
MINIMUM = {'operations': 20000, 'sends refused after a close': 1500, 'close_notify seen': 1000,
           'bytes read after a close': 100000, 'bytes sent after the peer closed': 100000, 'early closes': 1000,
           'repeated closes': 1500, 'late input': 600}


def cases(tier, seed):
    k = 16 if tier == 'quick' else 160
    out = [{'what': 'dialog', 'role': r, 'n': n} for r in ('client', 'server') for n in range(60 * k)]
    out += [{'what': 'pair', 'n': n} for n in range(40 * k)]
    out += [{'what': 'early', 'role': r, 'how': h, 'n': n} for r in ('client', 'server') for n in range(12 * k)
            for h in ('send', 'receive', 'peer', 'both', 'peer-clear', 'all')]
    out += [{'what': 'unstarted', 'role': r, 'how': h, 'started': s} for r in ('client', 'server')
            for h in ('send', 'receive', 'both') for s in (False, True)]
    out += [{'what': 'early-pair', 'n': n} for n in range(25 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what'].replace('-', '_')](spec, ctx)


def established(ctx, role, sc, **kw):
    if role == 'client':
        ref = Ref(scen.ref_server(sc, layout=scen.layout(ctx.rng), **kw))
        sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
        link = Link(sio, ref)
    else:
        ref = Ref(scen.ref_client(sc, shares=[scen.expected(sc)['group']], layout=scen.layout(ctx.rng), **kw))
        sio = Sio(scen.server_config(sc))
        link = Link(ref, sio)
    link.handshake()
    ctx.require(sio.connected and ref.connected, 'compatible handshake does not complete', f'{sio.error!r} {ref.error!r}')
    return sio, ref


def refuse_send(ctx, sio, why):
    """ A send which must fail, without any effect. """
    try:
        sio.write(b'never' * ctx.rng.randint(0, 5))
    except TLSError:
        ctx.count('sends refused after a close')
    except Exception as exc:
        ctx.violation('sending after a close does not raise a TLS error', f'{why}: {exc!r}')
    else:
        ctx.violation('data can be sent after a close', why)


class Model:
    """ A siotls endpoint facing a reference peer, and what is expected of it. """
    def __init__(self, ctx, sio, ref):
        self.ctx, self.sio, self.ref, self.p = ctx, sio, ref, ref.peer
        self.wire = bytearray()          # towards siotls, not delivered
        self.plan = []                   # (end offset, kind, data) of the records in the wire
        self.at = 0                      # offset of what was delivered
        self.total = 0
        self.expected = bytearray()      # readable now
        self.readable = bytearray()      # read
        self.written = bytearray()       # accepted by send_data
        self.sent_close = self.ended = False
        self.base = len(self.p.rx)
        self.echoes = 0
        self.history = []
        self.late = 0

    def note(self, op):
        self.history = (self.history + [op])[-4:]
        self.ctx.count('operations')

    # ---- the peer speaks
    def speak(self, ctype, data, pad=0):
        self.p.put(ctype, data, pad)
        b = self.p.out()
        self.wire += b
        self.total += len(b)
        self.plan.append((self.total, ctype, bytes(data)))

    def deliver(self, n):
        piece, self.wire = self.wire[:n], self.wire[n:]
        if not piece:
            return
        ended = self.ended
        self.at += len(piece)
        while self.plan and self.plan[0][0] <= self.at:
            _, ctype, data = self.plan.pop(0)
            if self.ended:
                self.ctx.count('late input')
                self.late += 1
            elif ctype == APPDATA:
                self.expected += data
                if self.sent_close:
                    self.ctx.count('bytes read after a close', len(data))
            elif ctype == ALERT and data[1] == 0:
                self.ended = True
            elif ctype == HEARTBEAT and data[0] == 1 and not self.sent_close and self.sio.conn.nconfig.can_echo_heartbeat:
                self.echoes += 1
        try:
            self.sio.conn.receive_data(bytes(piece))
        except TLSError as exc:
            self.ctx.check(ended, 'lawful input is refused', lambda: f'{self.history} {exc!r}')
        else:
            pass
        self.judge()

    def cut(self):
        """ End of stream: what is under way is lost. """
        self.wire.clear()
        self.plan.clear()
        self.at = self.total
        self.ended = True
        self.sio.conn.close_receiving_end()
        self.judge()

    # ---- siotls speaks
    def write(self, data):
        if self.sent_close:
            refuse_send(self.ctx, self.sio, self.history)
        else:
            try:
                self.sio.write(data)
            except Exception as exc:
                self.ctx.violation('data cannot be sent although the direction is open', f'{self.history} {exc!r}')
                return
            self.written += data
            if self.ended:
                self.ctx.count('bytes sent after the peer closed', len(data))
        self.judge()

    def close(self):
        if self.sent_close:
            self.ctx.count('repeated closes')
        self.sio.close()
        self.sent_close = True
        self.judge()

    def flush(self):
        self.ref.feed(self.sio.out())
        self.judge(True)

    def judge(self, flushed=False):
        ctx, sio, p, why = self.ctx, self.sio, self.p, self.history
        got = sio.take()
        self.readable += got
        ctx.check(self.readable == self.expected, 'what is readable is not what was received before the end',
                  lambda: f'{why}: {len(self.readable)} bytes read, {len(self.expected)} expected')
        ctx.check(sio.connected == (not self.ended), 'is_connected() does not tell whether receiving is possible',
                  lambda: f'{why}: connected={sio.connected} ended={self.ended} sent_close={self.sent_close}')
        ctx.check(sio.post_handshake, 'no longer past the handshake', str(why))
        if flushed:
            ctx.check(self.ref.error is None, 'the peer refuses what a closing endpoint emits',
                      lambda: f'{why}: {self.ref.error!r}')
            ctx.check(p.app_in == self.written, 'written data is lost or altered by a close',
                      lambda: f'{why}: {len(p.app_in)} received, {len(self.written)} written')
            closes = [a for a in p.alerts_in if a[1] == 'close_notify']
            others = [a for a in p.alerts_in if a[1] != 'close_notify']
            ctx.check(not others, 'an alert other than close_notify is sent', f'{why}: {others}')
            ctx.check(len(closes) == int(self.sent_close), 'not exactly one close_notify for a close',
                      lambda: f'{why}: {len(closes)}')
            if closes:
                ctx.check(p.rx[-1].get('inner') == ALERT, 'something follows the close_notify',
                          lambda: f'{why}: {p.rx[-1]}')
                ctx.check(closes[0][0] == 1 and closes[0][2] == 'app', 'malformed close_notify', str(closes))
            ctx.check(len(p.heartbeats) == self.echoes, 'heartbeats are not answered as long as sending is possible',
                      lambda: f'{why}: {len(p.heartbeats)} for {self.echoes}')


def run_dialog(spec, ctx):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    sio, ref = established(ctx, spec['role'], sc)
    m = Model(ctx, sio, ref)
    limit = ref.peer.mfl
    peer_closed = False
    n = rng.choice((6, 15, 40))
    # closes come in the middle rather than at once
    w_close, w_pclose, w_eof = (rng.choice((.02, .08, .3)) for _ in range(3))
    for i in range(n):
        r = rng.random()
        if i > n // 4 and rng.random() < w_close:
            m.note('close')
            m.close()
            while rng.random() < .5:
                m.close()
        elif i > n // 4 and rng.random() < w_pclose:
            m.note('peer close')
            m.speak(ALERT, bytes([rng.choice((1, 1, 1, 2)), 0]), rng.choice((0, 0, 30)))
            peer_closed = True
        elif i > n // 2 and rng.random() < w_eof:
            m.note('eof')
            if rng.random() < .7:
                m.deliver(rng.randint(0, len(m.wire)))
            m.cut()
            while rng.random() < .5:
                m.sio.conn.close_receiving_end()
                ctx.count('repeated closes')
                m.judge()
        elif r < .25:
            m.note('write')
            m.write(os.urandom(rng.choice((0, 1, 50, 700, limit, limit + 1, 3 * limit))))
        elif r < .5:
            m.note('peer write')
            data = os.urandom(rng.choice((0, 1, 50, limit, limit // 2)))
            m.speak(APPDATA, data, min(rng.choice((0, 0, 1, 100)), limit - len(data)))
        elif r < .6:
            x = rng.choice(('heartbeat', 'canceled', 'nst', 'response'))
            m.note(x)
            if x == 'heartbeat':
                m.speak(HEARTBEAT, b'\x01\x00\x04echo' + os.urandom(16))
            elif x == 'response':
                m.speak(HEARTBEAT, b'\x02\x00\x04echo' + os.urandom(16))
            elif x == 'canceled':
                m.speak(ALERT, b'\x01\x5a')
            elif spec['role'] == 'client':
                m.speak(HANDSHAKE, ref13.hs(ref13.NST, ref13.u32(60) + os.urandom(4) + ref13.v8(b'\0')
                                            + ref13.v16(os.urandom(9)) + ref13.v16(b'')))
        elif r < .85:
            m.note('deliver')
            m.deliver(rng.choice((1, 5, 40, 1000, 1 << 20, 1 << 20)))
        else:
            m.note('flush')
            m.flush()
    # the end: everything is delivered, then the other direction still works
    m.note('drain')
    m.deliver(1 << 24)
    m.flush()
    if rng.random() < .7:
        m.note('last words')
        m.write(b'last words')
        m.speak(APPDATA, b'and mine')
        m.deliver(1 << 20)
        m.flush()
    for op in rng.sample(('close', 'eof', 'close', 'eof'), 4):
        m.note(op)
        if op == 'close':
            m.close()
        else:
            m.cut()
        m.flush()
    m.note('after everything')
    refuse_send(ctx, sio, 'everything is closed')
    m.speak(APPDATA, b'too late')
    m.deliver(1 << 20)
    m.flush()
    before = bytes(sio.out())
    ctx.check(not before, 'a closed connection still emits', before.hex())
    ctx.count('close_notify seen')
    ctx.eval()
    ctx.seen('dialog', spec['role'], *m.history[:3], peer_closed, m.late > 0)
    ctx.sample({'role': spec['role'], 'operations': n, 'written': len(m.written), 'read': len(m.readable),
                'late records': m.late})


def run_pair(spec, ctx):
    """ Two siotls endpoints, interleaved at will, each judged by what the other one gets. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    link = scen.connected_pair(sc)
    ctx.require(link.c.connected and link.s.connected, 'compatible handshake does not complete', repr(link.c.error))
    ends = {'c': link.c, 's': link.s}
    other = {'c': 's', 's': 'c'}
    wire = {'c': bytearray(), 's': bytearray()}      # emitted by
    written = {'c': b'', 's': b''}
    read = {'c': b'', 's': b''}
    closed = {'c': False, 's': False}
    eof = {'c': False, 's': False}                    # what it emits is cut
    hist = []
    for i in range(rng.choice((8, 25, 60))):
        x = rng.choice('cs')
        e, o = ends[x], ends[other[x]]
        op = rng.choices(('write', 'out', 'deliver', 'close', 'eof'), (4, 2, 5, .4, .1 if i > 5 else 0))[0]
        hist = (hist + [op])[-4:]
        ctx.count('operations')
        if op == 'write':
            data = os.urandom(rng.choice((0, 1, 100, 1000, 20000)))
            if closed[x]:
                refuse_send(ctx, e, hist)
            else:
                e.write(data)
                written[x] += data
                if closed[other[x]]:
                    ctx.count('bytes sent after the peer closed', len(data))
        elif op == 'out':
            wire[x] += e.out()
        elif op == 'deliver' and wire[x] and not eof[x]:
            n = rng.choice((1, 7, 300, 5000, 1 << 20, 1 << 20))
            piece, wire[x] = wire[x][:n], wire[x][n:]
            o.feed(bytes(piece))
        elif op == 'close':
            ctx.count('repeated closes', int(closed[x]))
            e.close()
            closed[x] = True
        elif op == 'eof' and not eof[x]:
            eof[x] = True
            o.conn.close_receiving_end()
        got = o.take()
        if closed[other[x]]:
            ctx.count('bytes read after a close', len(got))
        read[other[x]] += got
        ctx.check(written[x].startswith(read[other[x]]), 'what is read is not what was written', str(hist))
    for x in rng.sample('cs', 2):
        if not closed[x]:
            ends[x].close()
            closed[x] = True
    for x in 'cs':
        e, o = ends[x], ends[other[x]]
        wire[x] += e.out()
        ctx.check(not e.out(), 'a closed connection still emits', str(hist))
        if not eof[x]:
            o.feed(bytes(wire[x]))
            read[other[x]] += o.take()
            ctx.check(read[other[x]] == written[x], 'data written before a close is lost',
                      f'{hist} {len(read[other[x]])} of {len(written[x])}')
        ctx.check(not o.connected, 'still connected although the peer closed', str(hist))
        ctx.check(e.error is None, 'lawful input is refused', f'{hist} {e.error!r}')
        refuse_send(ctx, e, hist)
        ctx.count('close_notify seen')
    ctx.eval()
    ctx.seen('pair', *hist[-3:], eof['c'], eof['s'])


def stop_points(rng, link, sio, stop):
    """ Carries a handshake byte by byte, up to `stop` bytes delivered to sio. """
    peer = link.s if link.c is sio else link.c
    link.start()
    left, rest = stop, b''
    for _ in range(60):
        a = sio.out()
        if a:
            peer.feed(a)
        b = peer.out()
        if not a and not b:
            break
        if len(b) > left:
            if left:
                sio.feed(b[:left])
            return b[left:]
        sio.feed(b)
        left -= len(b)
    return rest


_sizes = {}


def handshake_size(role):
    """ How many bytes an endpoint receives before it is connected. """
    if role not in _sizes:
        sc = scen.SIMPLE
        if role == 'client':
            sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
            link = Link(sio, Ref(scen.ref_server(sc)))
        else:
            sio = Sio(scen.server_config(sc))
            link = Link(Ref(scen.ref_client(sc, shares=[0x1d])), sio)
        link.handshake()
        assert sio.connected
        _sizes[role] = len(sio.rx)
    return _sizes[role]


def run_early(spec, ctx):
    """ A close before the handshake completes, at any byte of it. """
    rng = ctx.rng
    sc = scen.SIMPLE if rng.random() < .6 else scen.rand(rng, compatible=True)
    lay = ref13.Layout(rng, rng.choice(('single', 'random', 'coalesce')))
    if spec['role'] == 'client':
        ref = Ref(scen.ref_server(sc, layout=lay, lenient=True))
        sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
        link = Link(sio, ref)
    else:
        ref = Ref(scen.ref_client(sc, layout=lay, shares=[rng.choice(sc['groups_c'])], lenient=True))
        sio = Sio(scen.server_config(sc))
        link = Link(ref, sio)
    how = spec['how']
    rest = stop_points(rng, link, sio, rng.randrange(handshake_size(spec['role'])))
    if sio.post_handshake:
        ctx.count('closes which came too late')
        ctx.check(sio.connected, 'compatible handshake does not complete', repr(sio.error))
        return
    ctx.count('early closes')
    ref.feed(sio.out())
    before = len(sio.tx)
    n_err = len(sio.errors)
    ops = {'send': ['send'], 'receive': ['receive'], 'peer': ['peer'], 'both': rng.sample(['send', 'receive'], 2),
           'peer-clear': ['peer-clear'], 'all': rng.sample(['send', 'receive', 'send', 'receive', 'peer'], 5)}[how]
    if rng.random() < .4 and how != 'peer-clear':
        ops = ops + [rng.choice(('send', 'receive'))]
    why = f"{spec['role']} {ops}"
    told = ops[0] == 'send'
    for op in ops:
        if op == 'send':
            sio.close()
        elif op == 'receive':
            sio.conn.close_receiving_end()
        elif op == 'peer':
            # in the middle of a record the alert is not one
            rest += ref.out()
            if rest and rng.random() < .8:
                sio.feed(rest)
                rest = b''
                if op == ops[0] and sio.connected:
                    ctx.count('closes which came too late')
                    return
            ref.peer.send_alert('close_notify', rng.choice((1, 1, 2)))
            sio.feed(ref.peer.out())
            if how == 'peer' and sio.side == 'client' and rest:
                sio.feed(rest)
                rest = b''
        else:
            sio.feed(b'\x15\x03\x03\x00\x02\x01\x00')
        ctx.check(not sio.connected, 'connected after a close during the handshake', why)
        refuse = op not in ('peer', 'peer-clear') or sio.post_handshake
        if refuse:
            refuse_send(ctx, sio, why)
    sio.out()
    closing = bytes(sio.tx[before:])
    ref.feed(closing)
    # whatever comes next, it stays closed
    for _ in range(4):
        if rest:
            sio.feed(rest)
            rest = b''
        a = bytes(sio.out())
        closing += a
        if a:
            ref.feed(a)
        rest = ref.out()
    ctx.check(not sio.connected, 'connected after a close during the handshake', why)
    ctx.check(not sio.take(), 'data is readable although the handshake never completed', why)
    if not told and how in ('receive',):
        ctx.check(not closing, 'something is emitted once the stream ended', f'{why} {closing.hex()}')
    if told:
        ctx.check(len(closing) > 0, 'a close during the handshake is not told', why)
        ctx.check(len([1 for _ in split(closing)]) == 1, 'not exactly one close_notify for a close', f'{why} {closing.hex()}')
        names = [a[1] for a in ref.peer.alerts_in]
        if ref.error is None:
            ctx.check(names == ['close_notify'], 'not exactly one close_notify for a close', f'{why} {names}')
            ctx.count('close_notify seen')
    try:
        sio.start()
        sio.out()
    except Exception:
        pass
    ctx.check(not sio.connected, 'connected after a close during the handshake', why)
    for exc in sio.errors[n_err:]:
        ctx.check(isinstance(exc, TLSError), f'{type(exc).__name__} comes out of receive_data', f'{why} {exc!r}')
    ctx.eval()
    ctx.seen('early', spec['role'], how, len(sio.rx) // 20)


def split(wire):
    p = 0
    while p + 5 <= len(wire):
        n = int.from_bytes(wire[p + 3:p + 5], 'big')
        yield wire[p:p + 5 + n]
        p += 5 + n
    if p != len(wire):
        yield wire[p:]


def run_unstarted(spec, ctx):
    sc = scen.SIMPLE
    for n in range(2):
        c, s = scen.pair(sc)
        sio, other = (c, s) if spec['role'] == 'client' else (s, c)
        if spec['started']:
            sio.start()
        for op in {'send': ['send'], 'receive': ['receive'], 'both': ['send', 'receive', 'send']}[spec['how']]:
            sio.close() if op == 'send' else sio.conn.close_receiving_end()
        ctx.count('early closes')
        ctx.check(not sio.connected, 'connected after a close during the handshake', str(spec))
        refuse_send(ctx, sio, str(spec))
        try:
            sio.start()
        except Exception:
            pass
        link = Link(c, s)
        other.start()
        link.run()
        ctx.check(not sio.connected and not other.connected, 'connected after a close during the handshake', str(spec))
        ctx.eval()


def run_early_pair(spec, ctx):
    """ Both ends are siotls; either closes in the middle. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    c, s = scen.pair(sc)
    link = Link(c, s, *scen.segmenters(rng))
    x, o = (c, s) if rng.random() < .5 else (s, c)
    link.start()
    for _ in range(rng.randrange(0, 3)):
        # one direction at a time
        for src, dst in ((c, s), (s, c)):
            if rng.random() < .8:
                dst.feed(src.out())
    if x.post_handshake:
        ctx.count('closes which came too late')
        return
    ctx.count('early closes')
    # what was already under way may still complete the other one
    op = rng.choice(('send', 'receive'))
    x.close() if op == 'send' else x.conn.close_receiving_end()
    link.run()
    if rng.random() < .5:
        x.close()
        x.conn.close_receiving_end()
        link.run()
    ctx.check(not x.connected, 'connected after a close during the handshake', op)
    refuse_send(ctx, x, op)
    if op == 'send':
        ctx.check(not o.connected, 'still connected although the peer closed', '')
    ctx.eval()
    ctx.seen('early-pair', x.side, op)
