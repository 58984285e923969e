""" C04: tampered, replayed, reordered or dropped records are never accepted. """
import os

from siotls import TLSError

from lib import ref13, scen
from lib.link import Link, Ref, Segmenter, Sio, alert_name
from lib.monitor import records

PID, LEVEL = 'C04', 'fault_enumeration'
RULE = ('distinct (phase, receiver, suite, tampering, position class, segmentation) faults '
        'injected into a live connection and judged')
ASSUMPTIONS = ['change_cipher_spec records and the headers of clear records are not authenticated by TLS 1.3',
               'a fault is judged once at least two full records followed it']
MINIMUM = {'faults judged': 800, 'faults in the handshake': 200, 'truncations judged': 40,
           'untampered controls': 40}

APP = ('flip-header', 'flip-body', 'flip-tag', 'drop', 'duplicate', 'swap', 'replay-old', 'reflect',
       'other-connection', 'other-epoch', 'insert-garbage', 'shorten', 'extend', 'split', 'merge', 'zero',
       'clear', 'cut-middle', 'type-change')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 30
    out = [{'what': 'app', 'how': h, 'n': n} for h in APP for n in range(40 * k)]
    out += [{'what': 'hs-flip', 'n': n} for n in range(350 * k)]
    out += [{'what': 'hs-record', 'how': h, 'n': n} for n in range(20 * k)
            for h in ('drop', 'duplicate', 'swap', 'reflect', 'other-connection', 'garbage', 'clear', 'clear')]
    out += [{'what': 'cut', 'n': n} for n in range(60 * k)]
    out += [{'what': 'control', 'n': n} for n in range(60 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what'].replace('-', '_')](spec, ctx)


def split(stream):
    recs, rest = records(stream)
    assert not rest
    out, p = [], 0
    for t, v, b in recs:
        out.append(bytes(stream[p:p + 5 + len(b)]))
        p += 5 + len(b)
    return out


def rnd_scenario(rng):
    sc = scen.simple(mfl=rng.choice(scen.MFLS), suites_s=[rng.choice(scen.SUITES)], kind=rng.choice(('p256', 'rsa')),
                     groups_s=[rng.choice((0x1d, 0x17))])
    sc['suites_c'] = scen.SUITES
    return sc


def setup(ctx, sc, who, sender):
    """ A connected link whose `who` is the siotls receiver; sender: sio or ref. """
    rng = ctx.rng
    if sender == 'sio':
        link = scen.connected_pair(sc)
    elif who == 'client':
        link = Link(Sio(scen.client_config(sc), server_hostname=sc['host']),
                    Ref(scen.ref_server(sc, layout=scen.layout(rng)))).handshake()
    else:
        link = Link(Ref(scen.ref_client(sc, layout=scen.layout(rng))), Sio(scen.server_config(sc))).handshake()
    rx, tx = (link.c, link.s) if who == 'client' else (link.s, link.c)
    ctx.require(rx.connected and tx.connected, 'compatible handshake does not complete',
                f'{rx.error!r} {tx.error!r}')
    return link, rx, tx


def send_records(rng, tx, n, small=False):
    """ Writes one by one: [(record bytes, data carried up to and including it)] """
    out, total = [], b''
    for _ in range(n):
        data = os.urandom(rng.choice((1, 5, 100, 400) if small else (0, 1, 5, 100, 300, 480)))
        # one record per write, the limit is at least 512
        if isinstance(tx, Ref):
            tx.peer.put(ref13.APPDATA, data[:480], rng.choice((0, 0, 3, 20)))
        else:
            tx.write(data[:480])
        total += data[:480]
        recs = split(tx.out())
        assert recs
        for r in recs[:-1]:
            out.append((r, None))
        out.append((recs[-1], total))
    return out


def flip(rng, b, lo, hi):
    b = bytearray(b)
    b[rng.randrange(lo, hi)] ^= 1 << rng.randrange(8)
    return bytes(b)


def forged(rng):
    """ A record in clear, of someone who has no key. """
    typ = rng.choice((21, 21, 21, 22, 22, 23, 24))
    body = {21: rng.choice((b'\1\0', b'\2\0', b'\1\0', b'\2\0', b'\1\x5a', b'\1\x29', bytes([1, rng.randrange(256)]))),
            22: rng.choice((b'\x18\0\0\1' + bytes([rng.randrange(2)]), b'\x14\0\0\x20' + rng.randbytes(32), b'\4\0\0\x0f' + bytes(15),
                            b'\0\0\0\0', b'\x04\0\0\x12' + b'\0\0\1\0' * 2 + b'\2ab' + b'\0\3abc\0\0')),
            23: rng.choice((b'forged in clear', b'x', b'forged\x17', b'\1\0\x15')),
            24: b'\1\0\4' + b'ping' + bytes(16)}[typ]
    return bytes([typ, 3, 3]) + len(body).to_bytes(2, 'big') + body


def run_app(spec, ctx):
    rng, how = ctx.rng, spec['how']
    sc = rnd_scenario(rng)
    who, sender = rng.choice(('client', 'server')), rng.choice(('sio', 'ref'))
    link, rx, tx = setup(ctx, sc, who, sender)
    recs = send_records(rng, tx, rng.randint(3, 8), small=True)
    i = rng.randrange(1, len(recs) - 1)
    while recs[i][1] is None:
        i -= 1
    wire = [r for r, _ in recs]
    r = wire[i]
    hit = i                  # index of the first record which must not be accepted
    tag = 8 if sc['suites_s'][0] == 0x1305 else 16
    if how == 'flip-header':
        wire[i] = flip(rng, r, 0, 5)
    elif how == 'flip-body':
        wire[i] = flip(rng, r, 5, len(r) - tag)
    elif how == 'flip-tag':
        wire[i] = flip(rng, r, len(r) - tag, len(r))
    elif how == 'drop':
        del wire[i]
    elif how == 'duplicate':
        wire.insert(i, r)
        hit = i + 1
    elif how == 'swap':
        wire[i], wire[i + 1] = wire[i + 1], wire[i]
    elif how == 'replay-old':
        wire.insert(i, wire[rng.randrange(i)])
    elif how == 'reflect':
        if isinstance(rx, Sio):
            rx.conn.send_data(b'reflected')
        wire.insert(i, split(rx.out())[0])
    elif how == 'other-connection':
        _, rx2, tx2 = setup(ctx, sc, who, 'sio')
        other = split_writes(rng, tx2, i + 1)
        wire[i] = other[i]
    elif how == 'other-epoch':
        # a protected record of the handshake of this very connection
        stream = link.s2c if who == 'client' else link.c2s
        old = [x for x in split(stream) if x[0] == 23]
        wire.insert(i, rng.choice(old))
    elif how == 'insert-garbage':
        n = rng.choice((17, 18, 64, 300))
        wire.insert(i, b'\x17\x03\x03' + n.to_bytes(2, 'big') + os.urandom(n))
    elif how == 'shorten':
        k = rng.randint(1, min(20, len(r) - 6))
        wire[i] = r[:3] + (len(r) - 5 - k).to_bytes(2, 'big') + r[5:-k]
    elif how == 'extend':
        k = rng.randint(1, 20)
        wire[i] = r[:3] + (len(r) - 5 + k).to_bytes(2, 'big') + r[5:] + (bytes(k) if rng.random() < .5 else os.urandom(k))
    elif how == 'split':
        k = rng.randint(1, len(r) - 6)
        a, b = r[5:5 + k], r[5 + k:]
        wire[i:i + 1] = [r[:3] + len(a).to_bytes(2, 'big') + a, r[:3] + len(b).to_bytes(2, 'big') + b]
    elif how == 'merge':
        b = r[5:] + wire[i + 1][5:]
        wire[i:i + 2] = [r[:3] + len(b).to_bytes(2, 'big') + b]
    elif how == 'zero':
        wire[i] = r[:5] + bytes(len(r) - 5)
    elif how == 'clear':
        wire.insert(i, forged(rng))
    elif how == 'cut-middle':
        k = rng.randrange(1, len(r))
        m = rng.randrange(k, len(r) + 1)
        m += m == k
        wire[i] = r[:k] + r[m:]
    elif how == 'type-change':
        wire[i] = bytes([rng.choice((21, 22, 24, 20, 0, 255))]) + r[1:]
    # more than enough honest bytes behind it to complete any announced length
    behind = send_records(rng, tx, 2)
    while sum(map(len, wire[hit:])) + sum(len(r) for r, _ in behind) < 2 * 17000 + 66000:
        if isinstance(tx, Ref):
            tx.peer.put(ref13.APPDATA, b'z' * 400)
        else:
            tx.write(b'z' * 16000)
        behind += [(x, None) for x in split(tx.out())]
    stream = b''.join(wire) + b''.join(r for r, _ in behind)
    seg = Segmenter(rng, rng.choice(('whole', 'big', 'mixed')))
    got = b''
    for piece in seg.cut(stream):
        rx.feed(piece)
        got += rx.take()
        if rx.error:
            break
    allowed = b''
    for j in range(min(hit, len(recs))):
        if recs[j][1] is not None:
            allowed = recs[j][1]
    judge(ctx, rx, how, 'app', got, allowed, sc)
    ctx.seen('app', who, sender, sc['suites_s'][0], how, seg.mode, alert_name(rx.error))


def split_writes(rng, tx, n):
    out = []
    for _ in range(n):
        tx.write(os.urandom(rng.randint(1, 400)))
        out += split(tx.out())
    return out


def judge(ctx, rx, how, phase, got, allowed, sc):
    ctx.eval()
    ctx.count('faults judged')
    ctx.check(rx.error is not None, f'{phase}: tampering ({how}) is accepted', f'{sc}')
    ctx.check(allowed.startswith(got) if len(got) <= len(allowed) else False,
              f'{phase}: data delivered at or after tampering ({how})', f'{len(got)} bytes, {len(allowed)} authentic')
    ctx.check(got == allowed, f'{phase}: authentic data before the tampering ({how}) is lost',
              f'{len(got)} bytes, {len(allowed)} authentic')
    if rx.error is not None:
        ctx.check(isinstance(rx.error, TLSError) and alert_name(rx.error) not in (None, 'close_notify'),
                  f'{phase}: tampering ({how}) does not raise a fatal TLS error', repr(rx.error))
        ctx.check(not rx.connected, f'{phase}: still connected after tampering ({how})', repr(rx.error))
        before = len(rx.errors)
        rx.feed(b'\x17\x03\x03\x00\x20' + os.urandom(32))
        ctx.check(not rx.take(), f'{phase}: data delivered after failing', '')
        del rx.errors[before:]


def run_hs_flip(spec, ctx):
    """ One bit of the handshake flips in transit. """
    rng = ctx.rng
    sc = rnd_scenario(rng)
    d = rng.choice(('s2c', 's2c', 'c2s'))
    # pilot run with the same configuration, to know the lengths
    pilot = scen.connected_pair(sc)
    recs = split(getattr(pilot, d))
    spots = []
    for i, r in enumerate(recs):
        if r[0] == 20:
            continue
        spots.append((i, r[0], len(r)))
    i, typ, n = rng.choice(spots)
    lo = 0 if typ == 23 else 5
    pos, bit = rng.randrange(lo, n), rng.randrange(8)
    state = {'buf': bytearray(), 'idx': 0, 'done': False, 'what': ''}

    def intercept(direction, data):
        if direction != d or state['done']:
            return data
        out = []
        for r in split(data):
            if state['idx'] == i:
                r = bytearray(r)
                p = pos % len(r)
                if r[0] != 23 and p < 5:
                    p = 5
                r[p] ^= 1 << bit
                state['done'], state['what'] = True, f'type {r[0]} byte {p}'
                state['protected'] = r[0] == 23 or recs[i][0] == 23
                state['length'] = p in (3, 4) and recs[i][0] == 23
                r = bytes(r)
            out.append(r)
            state['idx'] += 1
        return b''.join(out)

    c, s = scen.pair(sc)
    link = Link(c, s, Segmenter(rng, rng.choice(Segmenter.MODES[:1] + ('mixed', 'big'))),
                Segmenter(rng, rng.choice(('whole', 'mixed', 'big'))), intercept=intercept)
    link.handshake()
    if not state['done']:
        return
    rx = c if d == 's2c' else s
    if state['length'] and rx.error is None:
        # it waits for the rest of a longer record: give it plenty
        for _ in range(70):
            rx.feed(b'\x17\x03\x03\x03\xe8' + os.urandom(1000))
            if rx.error:
                break
    ctx.eval()
    ctx.count('faults judged')
    ctx.count('faults in the handshake')
    ctx.check(not (c.connected and s.connected), 'handshake completes although a bit of it changed',
              f'{d} record {i} {state["what"]} bit {bit} {sc}')
    if state['protected']:
        ctx.check(rx.error is not None and not rx.connected,
                  'receiver accepts a modified protected handshake record',
                  f'{d} record {i} {state["what"]} bit {bit} {rx.error!r} {sc}')
        ctx.check(not rx.take(), 'data delivered from a tampered handshake')
    elif d == 's2c':
        # a modified clear hello: the client must never authenticate it
        ctx.check(not c.connected, 'client connects after a modified hello', f'{state["what"]} bit {bit}')
    else:
        ctx.check(not s.connected, 'server connects after a modified hello', f'{state["what"]} bit {bit}')
    for e in (c, s):
        if e.error is not None:
            ctx.check(isinstance(e.error, TLSError), 'tampering raises something else than a TLS error', repr(e.error))
    ctx.seen('hs', d, i, typ, min(pos, 8) if typ == 23 else pos // 8, link.seg_s.mode)


def run_hs_record(spec, ctx):
    """ A whole protected record of the handshake is tampered with. """
    rng, how = ctx.rng, spec['how']
    sc = rnd_scenario(rng)
    d = rng.choice(('s2c', 's2c', 'c2s'))
    other = scen.connected_pair(sc)
    foreign = [r for r in split(getattr(other, d)) if r[0] == 23]
    state = {'done': False}
    pick = rng.randrange(4)

    def intercept(direction, data):
        if direction != d or state['done']:
            return data
        recs = split(data)
        prot = [k for k, r in enumerate(recs) if r[0] == 23]
        if not prot:
            return data
        state['done'] = True
        k = prot[pick % len(prot)]
        if how == 'drop':
            del recs[k]
        elif how == 'duplicate':
            recs.insert(k, recs[k])
        elif how == 'swap':
            if len(prot) < 2:
                recs.insert(k, foreign[0])
            else:
                j = prot[(pick + 1) % len(prot)]
                recs[k], recs[j] = recs[j], recs[k]
        elif how == 'reflect':
            mine = [r for r in split(link.c2s if d == 's2c' else link.s2c) if r[0] == 23]
            recs.insert(k, rng.choice(mine) if mine else foreign[0])
        elif how == 'other-connection':
            recs[k] = foreign[prot.index(k) % len(foreign)]
        elif how == 'clear':
            recs.insert(k + rng.randint(0, 1), forged(rng))
        else:
            n = rng.choice((17, 40, 4096))
            recs.insert(k, b'\x17\x03\x03' + n.to_bytes(2, 'big') + os.urandom(n))
        return b''.join(recs)

    c, s = scen.pair(sc)
    link = Link(c, s, intercept=intercept)
    link.handshake()
    rx = c if d == 's2c' else s
    tx = s if rx is c else c
    if rx.error is None:
        # a dropped or repeated record is only noticed with the next one
        try:
            tx.write(b'next')
        except Exception:
            pass
        link.run()
    if not state['done']:
        return
    ctx.eval()
    ctx.count('faults judged')
    ctx.count('faults in the handshake')
    lost_last = how == 'drop' and rx.error is None and not rx.connected
    ctx.check((rx.error is not None and not rx.connected) or lost_last,
              f'tampering ({how}) with a protected handshake record is accepted', f'{d} {rx.error!r} {sc}')
    ctx.check(not rx.take(), 'data delivered from a tampered handshake', how)
    ctx.seen('hs-record', d, how, alert_name(rx.error))


def run_cut(spec, ctx):
    """ The stream stops: the receiver has a prefix, and no clean close. """
    rng = ctx.rng
    sc = rnd_scenario(rng)
    who, sender = rng.choice(('client', 'server')), rng.choice(('sio', 'ref'))
    link, rx, tx = setup(ctx, sc, who, sender)
    recs = send_records(rng, tx, rng.randint(1, 6))
    tx.close()
    recs += [(r, recs[-1][1]) for r in split(tx.out())]
    stream = b''.join(r for r, _ in recs)
    full = rng.random() < .15
    k = len(stream) if full else rng.randrange(len(stream))
    for piece in Segmenter(rng, rng.choice(('whole', 'mixed', 'small'))).cut(stream[:k]):
        rx.feed(piece)
    got, p, allowed = rx.take(), 0, b''
    for r, data in recs:
        p += len(r)
        if p > k:
            break
        if data is not None:
            allowed = data
    ctx.eval()
    ctx.count('truncations judged')
    ctx.check(got == allowed, 'truncated stream: not the complete records before the cut', f'{len(got)} {len(allowed)}')
    ctx.check(rx.error is None, 'truncated stream: error before anything is wrong', repr(rx.error))
    if full:
        ctx.check(not rx.connected, 'close_notify not reported', '')
    else:
        ctx.check(rx.connected, 'a cut stream is reported as closed by the peer', f'{k}/{len(stream)}')
        rx.conn.close_receiving_end()
        ctx.check(not rx.connected and not rx.take(), 'still connected after the end of stream', '')
    ctx.seen('cut', who, sender, 'full' if full else 'cut', len(recs))


def run_control(spec, ctx):
    """ Without tampering nothing fails. """
    rng = ctx.rng
    sc = rnd_scenario(rng)
    who, sender = rng.choice(('client', 'server')), rng.choice(('sio', 'ref'))
    link, rx, tx = setup(ctx, sc, who, sender)
    recs = send_records(rng, tx, 8)
    for piece in Segmenter(rng, rng.choice(Segmenter.MODES)).cut(b''.join(r for r, _ in recs)):
        rx.feed(piece)
    ctx.check(rx.error is None and rx.take() == recs[-1][1], 'honest records are refused or altered', repr(rx.error))
    ctx.count('untampered controls')
    ctx.eval()
