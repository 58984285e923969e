""" C26: calls that cannot be honoured are refused and change nothing. """
import array
import os

from lib import pki, ref13, scen
from lib.link import Link, Ref, Sio
from lib.monitor import KeyLog

PID, LEVEL = 'C26', 'exploration'
RULE = 'distinct (role, state, misuse, exception) calls judged, and (role, state, kind of buffer) writes and deliveries'
ASSUMPTIONS = [
    'a misuse is: data of a type that is not bytes-like, nothing to receive, starting twice, rekeying (not supported), sending '
    'when the protocol does not permit it',
    'a failed connection may ignore what it is given instead of refusing it',
]
MINIMUM = {'misuses judged': 3000, 'misuses before the handshake is over': 1000, 'misuses once established': 800,
           'misuses once closed or failed': 400, 'histories carried on': 300, 'buffers sent': 300, 'buffers received': 300}


def cases(tier, seed):
    k = 1 if tier == 'quick' else 16
    out = [{'what': 'pair', 'n': n} for n in range(350 * k)]
    out += [{'what': 'foreign', 'role': r, 'n': n} for r in ('client', 'server') for n in range(120 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


class Thing:
    def __len__(self):
        return 3

    def __getitem__(self, i):
        return 65


def not_bytes(rng):
    return rng.choice((
        'text', 'é' * 5000, 5, 3.5, True, [1, 2], (b'x', b'y'), [b'x'], ['a'], {1: 2}, {b'x'}, Thing(), iter(b'abc'), range(4), object(),
        bytes, b'x'.hex, 10 ** 9, -1))


def snapshot(e):
    c = e.conn
    n = c.nconfig
    return (c.is_connected(), c.is_post_handshake(), c.max_fragment_length, c.config,
            None if n is None else {k: v for k, v in vars(n).items() if not k.startswith('_')})


def misuses(e):
    """ {name: call} of those which nothing permits now. """
    c = e.conn
    out = {
        'send not bytes': lambda rng: c.send_data(not_bytes(rng)),
        'send none': lambda rng: c.send_data(None),
        'rekey': lambda rng: c.rekey(),
        'receive nothing': lambda rng: c.receive_data(rng.choice((b'', bytearray(), memoryview(b'')))),
        'receive none': lambda rng: c.receive_data(None),
    }
    if not e.failed:
        out['receive not bytes'] = lambda rng: c.receive_data(not_bytes(rng))
    if e.started:
        out['start again'] = lambda rng: c.initiate_connection()
    # (a server may send as soon as it has sent its own Finished)
    early = not c.is_post_handshake() and (e.side == 'client' or not e.received)
    if early or e.failed or e.sent_close:
        out['send too early or too late'] = lambda rng: c.send_data(rng.choice((b'data', b'', bytearray(9000), memoryview(b'z'))))
    return out


class End(Sio):
    """ Driven with misuses in between. """
    started = received = sent_close = failed = False

    def start(self):
        super().start()
        self.started = True


def misuse(ctx, e, how_many=None):
    rng = ctx.rng
    for _ in range(rng.choice((1, 1, 2, 4)) if how_many is None else how_many):
        name, call = rng.choice(list(misuses(e).items()))
        pending = bytes(e.conn.data_to_send())
        unread = bytes(e.conn.data_to_read())
        before = snapshot(e)
        error = None
        try:
            call(rng)
        except Exception as exc:
            error = exc
        why = f'{e.side} {name} {type(e.conn._state).__name__} {error!r}'[:300]
        ctx.check(error is not None, f'a misuse is not refused: {name}', why)
        out, data = bytes(e.conn.data_to_send()), bytes(e.conn.data_to_read())
        ctx.check(not out, f'a misuse makes an endpoint send: {name}', f'{len(out)} bytes {why}')
        ctx.check(not data, f'a misuse delivers data: {name}', f'{len(data)} bytes {why}')
        ctx.check(snapshot(e) == before, f'a misuse changes what an endpoint reports: {name}', f'{before} {snapshot(e)} {why}')
        e.kept_out += pending
        e.kept_in += unread
        phase = 'once closed or failed' if e.failed or e.sent_close or not e.conn.is_connected() and e.conn.is_post_handshake() \
            else 'once established' if e.conn.is_post_handshake() else 'before the handshake is over'
        ctx.count('misuses judged')
        ctx.count(f'misuses {phase}')
        ctx.seen(e.side, phase, name, type(error).__name__)


def flush(e):
    out = e.kept_out + bytes(e.conn.data_to_send())
    e.kept_out = b''
    return out


def read(e):
    out = e.kept_in + bytes(e.conn.data_to_read())
    e.kept_in = b''
    return out


def a_buffer(rng):
    """ Bytes-like objects, and what they hold. """
    n = rng.choice((0, 1, 3, 100, 5000, 16383, 16384, 20000, 70000))
    raw = os.urandom(n)
    how = rng.choice(('bytes', 'bytearray', 'view', 'slice', 'strided', 'items', 'items view', 'array', 'two dimensions', 'readonly'))
    if how == 'bytearray':
        return how, bytearray(raw)
    if how == 'view':
        return how, memoryview(bytearray(raw))
    if how == 'slice':
        return how, memoryview(raw)[n // 3:n - n // 5]
    if how == 'strided':
        return how, memoryview(raw)[::rng.choice((2, 3, -1))]
    if how == 'items':
        a = array.array(rng.choice('HIQd'))
        a.frombytes(raw[:n // 8 * 8])
        return how, a
    if how == 'items view':
        return how, memoryview(raw[:n // 8 * 8]).cast(rng.choice('HIQ')) if n >= 8 else memoryview(raw)
    if how == 'array':
        return how, array.array('B', raw)
    if how == 'two dimensions':
        return how, memoryview(raw[:n // 4 * 4]).cast('B', (n // 4, 4)) if n >= 4 else memoryview(raw)
    if how == 'readonly':
        return how, memoryview(raw).toreadonly()
    return how, raw


def endpoint(config, **kw):
    e = End(config, **kw)
    e.kept_out = e.kept_in = b''
    return e


def carry(ctx, a, b, chance):
    """ Deliver until nothing moves, with misuses in between. """
    rng = ctx.rng
    quiet = 0
    while quiet < 2:
        moved = False
        for x, y in ((a, b), (b, a)):
            data = flush(x)
            if not data:
                continue
            moved = True
            cut = rng.randrange(len(data)) if rng.random() < .3 else 0
            for part in (data[:cut], data[cut:]):
                if not part:
                    continue
                if rng.random() < chance:
                    misuse(ctx, y)
                y.received = True
                try:
                    y.conn.receive_data(part)
                except Exception as exc:
                    y.error = y.error or exc
                    y.failed = True
                if rng.random() < chance:
                    misuse(ctx, rng.choice((x, y)))
        quiet = 0 if moved else quiet + 1


def run_pair(spec, ctx):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    chance = rng.choice((.1, .5, .9))
    with KeyLog():
        c = endpoint(scen.client_config(sc, log_keys=rng.random() < .5), server_hostname=sc['host'])
        s = endpoint(scen.server_config(sc, log_keys=rng.random() < .5))
        for e in rng.sample((c, s), 2):
            if rng.random() < chance:
                misuse(ctx, e)
            e.start()
            if rng.random() < chance:
                misuse(ctx, e)
        carry(ctx, c, s, chance)
        ctx.require(c.conn.is_connected() and s.conn.is_connected(), 'misuses prevent the handshake', f'{c.error!r} {s.error!r} {sc}')
        sent = {c: b'', s: b''}
        for _ in range(rng.choice((1, 3, 6))):
            x, y = rng.sample((c, s), 2)
            how, buf = a_buffer(rng)
            want = memoryview(buf).tobytes()
            try:
                x.conn.send_data(buf)
            except Exception as exc:
                ctx.check(False, f'a bytes-like object is refused: {how}', repr(exc))
                continue
            sent[x] += want
            ctx.count('buffers sent')
            ctx.seen(x.side, 'buffer', how, len(want))
            if rng.random() < chance:
                misuse(ctx, x)
            if rng.random() < .6:
                carry(ctx, c, s, chance)
        carry(ctx, c, s, chance)
        for x, y in ((c, s), (s, c)):
            got = read(y)
            ctx.check(got == sent[x], 'misuses or odd buffers alter the data', f'{len(got)} instead of {len(sent[x])} bytes {y.error!r}')
        ctx.require(c.error is None and s.error is None, 'misuses or odd buffers make a connection fail', f'{c.error!r} {s.error!r}')
        # closed one way, then both, or failed
        if rng.random() < .7:
            x, y = rng.sample((c, s), 2)
            x.conn.close_sending_end()
            x.sent_close = True
            misuse(ctx, x)
            carry(ctx, c, s, chance)
            misuse(ctx, y)
            tail = os.urandom(rng.choice((1, 500)))
            y.conn.send_data(tail)
            carry(ctx, c, s, chance)
            ctx.check(read(x) == tail, 'misuses alter the data of a half-closed connection', '')
            y.conn.close_sending_end()
            y.sent_close = True
            carry(ctx, c, s, chance)
        else:
            try:
                c.conn.receive_data(b'\x17\x03\x03\x00\x20' + os.urandom(32))
            except Exception:
                c.failed = True
            ctx.require(c.failed, 'garbage is accepted', '')
            flush(c)
        misuse(ctx, c)
        misuse(ctx, s)
    ctx.check(not flush(c), 'something is sent once all is over', '')
    ctx.count('histories carried on')
    ctx.sample({'suites': sc['suites_c'], 'chance of a misuse': chance, 'data': [len(x) for x in sent.values()]})


def run_foreign(spec, ctx):
    """ Against an independent peer, which is given buffers of all kinds. """
    rng, role = ctx.rng, spec['role']
    sc = scen.rand(rng, compatible=True)
    if role == 'client':
        e = endpoint(scen.client_config(sc), server_hostname=sc['host'])
        ref = Ref(scen.ref_server(sc, layout=scen.layout(rng)))
    else:
        e = endpoint(scen.server_config(sc))
        ref = Ref(scen.ref_client(sc, layout=scen.layout(rng), shares=[scen.expected(sc)['group']]))
    ref.start()
    e.start()

    def deliver():
        for _ in range(20):
            data = flush(e)
            if data:
                ref.feed(data)
            back = ref.out()
            if not back and not data:
                return
            while back:
                n = rng.choice((len(back), 1, 8, 80))
                part, back = back[:n], back[n:]
                buf = rng.choice((bytes, bytearray, memoryview, lambda b: memoryview(bytearray(b)), lambda b: array.array('B', b),
                                  lambda b: memoryview(bytes(2 * len(b)) + b)[2 * len(b):]))(part)
                if len(part) % 8 == 0 and rng.random() < .5:
                    buf = rng.choice((memoryview(part).cast('H'), memoryview(part).cast('Q'), memoryview(part).cast('B', (len(part) // 4, 4))))
                e.received = True
                e.conn.receive_data(buf)
                ctx.count('buffers received')
                ctx.seen(role, 'received', type(buf).__name__, getattr(buf, 'format', ''))
                if rng.random() < .1:
                    misuse(ctx, e, 1)
    try:
        deliver()
        ctx.require(e.conn.is_connected() and ref.connected, 'the kind of buffer prevents the handshake', f'{ref.error!r} {sc}')
        data = os.urandom(rng.choice((1, 4000, 40000)))
        ref.write(data)
        how, buf = a_buffer(rng)
        e.conn.send_data(buf)
        ctx.count('buffers sent')
        deliver()
    except Exception as exc:
        ctx.check(False, 'the kind of buffer makes a connection fail', f'{exc!r} {ref.error!r} {sc}')
        return
    ctx.check(read(e) == data, 'the kind of buffer alters what is received', len(data))
    ctx.check(ref.error is None and bytes(ref.take()) == memoryview(buf).tobytes(), 'the kind of buffer alters what is sent',
              f'{how} {ref.error!r}')
    ctx.count('histories carried on')
