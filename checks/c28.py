""" C28: how the transport cuts the bytes changes nothing. """
import random

from lib import mutate, ref13, scen
from lib.link import Ref, Sio, alert_name
from lib.monitor import records
from lib.ref13 import ALERT, APPDATA, HANDSHAKE, HEARTBEAT

PID, LEVEL = 'C28', 'exploration'
RULE = 'distinct (role, what the peer does, how it ends) histories whose every segmentation ended alike'
ASSUMPTIONS = [
    'the same scenario is acted out several times with fresh secrets: a difference counts only if both ways of cutting the bytes are '
    'each consistent with themselves over several repetitions',
    'what a closed connection does of what it still receives is not compared, nor is the wording of the errors',
]
MINIMUM = {'histories': 800, 'segmentations compared': 4000, 'ended connected': 100, 'ended failed': 300, 'with data': 150}

S_MSGS = ('SH', 'EE', 'CERT', 'CV', 'FIN')
C_MSGS = ('CH', 'FIN')
MODES = ('byte', 'small', 'split5', 'records', 'last', 'but-last', 'headers', 'halves', 'mixed')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 25
    return [{'what': w, 'role': r, 'n': n} for r in ('client', 'server')
            for w, m in (('message', 160), ('bytes', 130), ('after', 130), ('sound', 60)) for n in range(m * k)]


def cut(rng, mode, data):
    """ Pieces of what came at once. """
    n = len(data)
    ends = []
    p = 0
    while p + 5 <= n:
        p += 5 + int.from_bytes(data[p + 3:p + 5], 'big')
        if p <= n:
            ends.append(p)
    if mode == 'byte':
        at = range(1, n) if n < 3000 else sorted({*range(1, 600), *(x for e in ends for x in range(e - 20, e + 8)), n - 1})
    elif mode == 'small':
        at, p = [], 0
        while p < n:
            p += rng.randint(1, 12) if n < 4000 else rng.randint(1, 200)
            at.append(p)
    elif mode == 'split5':
        at = [x for e in (0, *ends) for x in (e, e + 1, e + 4, e + 5, e + 6)]
    elif mode == 'records':
        at = ends
    elif mode == 'last':
        at = [e - 1 for e in ends]
    elif mode == 'but-last':
        at = [n - 1]
    elif mode == 'headers':
        at = [e + 5 for e in (0, *ends)]
    elif mode == 'halves':
        at = [n // 2]
    elif mode == 'mixed':
        at = [rng.randrange(n + 1) for _ in range(rng.randint(1, 10))]
    else:
        at = []
    at = sorted({x for x in at if 0 < x < n})
    for a, b in zip([0, *at], [*at, n]):
        yield data[a:b]


def scenario(rng):
    return scen.simple(
        kind=rng.choice(('ed25519', 'ed448')), server_certs=['x509'], via=rng.choice(('root', 'inter')),
        suites_c=[rng.choice((0x1303, 0x1302, 0x1301))], groups_c=[0x1d], groups_s=[0x1d],
        mfl=rng.choice((16384, 16384, 512, 4096)), alpn_c=rng.choice(([], ['h2', 'http/1.1'])), alpn_s=['http/1.1'])


def raw_record(t, body):
    return bytes([t]) + b'\x03\x03' + len(body).to_bytes(2, 'big') + body


def after(rng):
    """ What the peer does once connected. """
    out = []
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(('data', 'data', 'data', 'empty', 'heartbeat', 'ticket', 'alert', 'close', 'stray', 'mac', 'padding', 'ccs', 'odd-hs', 'cut-hs',
                        'no-type', 'long', 'plain', 'split-ticket',
                        *(('bulk',) if rng.random() < .1 else ())))
        out.append((k, rng.getrandbits(60)))
    return out


def act(peer, kind, seed):
    rng = random.Random(seed)
    R = ref13
    if kind == 'data':
        peer.send_app(rng.randbytes(rng.choice((1, 100, 3000, 17000))))
    elif kind == 'bulk':
        peer.send_app(rng.randbytes(rng.choice((70000, 200000, 400000))))
    elif kind == 'empty':
        peer.put(APPDATA, b'')
    elif kind == 'heartbeat':
        n = rng.choice((0, 16, 200))
        peer.put(HEARTBEAT, b'\x01' + R.u16(n) + bytes(n + 16))
    elif kind == 'ticket':
        peer.put(HANDSHAKE, R.hs(R.NST, bytes(8) + R.v8(b'n') + R.v16(bytes(rng.choice((1, 500)))) + R.v16(b'')))
    elif kind == 'split-ticket':
        m = R.hs(R.NST, bytes(8) + R.v8(b'n') + R.v16(bytes(50)) + R.v16(b''))
        n = rng.randrange(1, len(m))
        peer.put(HANDSHAKE, m[:n])
        if rng.random() < .3:
            peer.put(APPDATA, b'in between')
        peer.put(HANDSHAKE, m[n:])
    elif kind == 'alert':
        peer.put(ALERT, bytes((rng.choice((1, 2)), rng.choice((0, 10, 20, 50, 80, 90)))))
    elif kind == 'close':
        peer.put(ALERT, b'\x01\x00')
    elif kind == 'stray':
        peer.put(HANDSHAKE, R.hs(rng.choice((1, 2, 8, 11, 15, 20, 24)), bytes(rng.choice((1, 32)))))
    elif kind == 'mac':
        raw(peer, raw_record(APPDATA, rng.randbytes(rng.choice((5, 17, 300)))))
    elif kind == 'padding':
        peer.put(APPDATA, b'padded', pad=300)
    elif kind == 'ccs':
        raw(peer, raw_record(20, b'\x01'))
    elif kind == 'odd-hs':
        peer.put(HANDSHAKE, rng.randbytes(rng.choice((4, 9, 40))))
    elif kind == 'cut-hs':
        peer.put(HANDSHAKE, b'\x04\x00\x01')
    elif kind == 'no-type':
        peer.put(0, b'')
    elif kind == 'long':
        raw(peer, raw_record(APPDATA, b'')[:3] + rng.choice((b'\x41\x01', b'\xff\xff', b'\x00\x00')) + bytes(20))
    elif kind == 'plain':
        raw(peer, raw_record(rng.choice((21, 22, 23)), rng.choice((b'\x02\x28', b'\x01\x00', bytes(30)))))


def raw(peer, data):
    peer.outbuf += data


def play(spec, seed, mode, polls, salt):
    """ Act the scenario out, and tell how it ended. """
    rng, cuts = random.Random(seed), random.Random(salt)
    role, what = spec['role'], spec['what']
    sc = scenario(rng)
    script, notes = {}, []
    if what == 'message':
        name = rng.choice(S_MSGS if role == 'client' else C_MSGS)
        how, mseed = rng.choice(('mutate', 'extensions', 'double', 'drop', 'swap')), rng.getrandbits(60)

        def change(p, m):
            r = random.Random(mseed)
            if how == 'mutate':
                return [mutate.mutate(r, m)]
            if how == 'extensions' and name not in ('CV', 'FIN'):
                return [mutate.extensions(r, m)]
            if how == 'double':
                return [m, m]
            if how == 'drop':
                return []
            return [mutate.handshake(r), m]
        script[name] = change
        notes = [name, how]
    layout = ref13.Layout(random.Random(rng.getrandbits(60)), rng.choice(ref13.Layout.MODES), rng.choice(('none', 'none', 'random')))
    kw = dict(layout=layout, lenient=True, script=script)
    if role == 'client':
        e = Sio(scen.client_config(sc), server_hostname=sc['host'])
        ref = Ref(scen.ref_server(sc, tickets=rng.choice((0, 1, 2)), cert_request=rng.random() < .2, early_app=rng.choice((b'', b'early')),
                                  hrr_group=None, **kw))
    else:
        e = Sio(scen.server_config(sc))
        ref = Ref(scen.ref_client(sc, shares=rng.choice(([0x1d], [0x1d], [])), send_ccs=rng.random() < .5, **kw))
    damage = None
    if what == 'bytes':
        damage = rng.choice(('flip', 'flip', 'cut', 'insert', 'ccs', 'double', 'swap')), rng.random(), rng.getrandbits(60)
        notes = [damage[0]]
    acts = after(rng) if what == 'after' else [('data', rng.getrandbits(60))] * 2 if what == 'sound' else [('data', 1)]
    alongside = what != 'message' and rng.random() < .5      # in the same delivery as the end of the handshake
    ref.start()
    e.start()
    data, seen = b'', 0
    done = False

    def hurt(b):
        how, where, dseed = damage
        r = random.Random(dseed)
        recs, rest = records(b)
        i = int(where * len(b))
        if how == 'flip':
            return b[:i] + bytes([b[i] ^ 1 << r.randrange(8)]) + b[i + 1:]
        if how == 'cut':
            return b[:i] + b[i + r.randint(1, 30):]
        if how == 'insert':
            return b[:i] + r.randbytes(r.choice((1, 5, 6))) + b[i:]
        parts = [raw_record(t, x) for t, _, x in recs]
        if not parts:
            return b
        i = int(where * len(parts))
        if how == 'ccs':
            parts.insert(i, raw_record(20, r.choice((b'\x01', b'\x01', b'\x01', b'\x00', b'', b'\x01\x01'))))
        elif how == 'double':
            parts.insert(i, parts[i])
        else:
            j = r.randrange(len(parts))
            parts[i], parts[j] = parts[j], parts[i]
        return b''.join(parts) + rest

    flights = 0
    for _ in range(30):
        out = e.out()
        if out:
            ref.feed(out)
        if ref.peer.connected and not done and (alongside or not ref.peer.outbuf):
            done = True
            for kind, s in acts:
                act(ref.peer, kind, s)
        back = ref.out()
        if not out and not back:
            break
        if back:
            if damage and flights == (role == 'client' and 0 or damage[2] % 2):
                back = hurt(back)
            flights += 1
            for part in cut(cuts, mode, back):
                e.feed(part)
                if cuts.random() < polls:
                    data += e.take()
                    more = e.out()
                    if more:
                        ref.feed(more)
    data += e.take()
    c = e.conn
    n = c.nconfig
    shape = [(t, len(x)) for t, _, x in records(e.tx)[0]]
    return {
        'connected': c.is_connected(), 'over': c.is_post_handshake(), 'error': type(e.error).__name__, 'alert': alert_name(e.error),
        'data': (len(data), data if what != 'message' else None), 'sent': shape,
        'negotiated': None if n is None else (n.cipher_suite and int(n.cipher_suite), n.alpn, n.max_fragment_length),
        'peer connected': ref.connected, 'peer got': [ref.peer.alerts_in, len(ref.peer.heartbeats), len(ref.peer.app_in)],
    }, notes, [k for k, _ in acts] if what == 'after' else []


def run_case(spec, ctx):
    rng = ctx.rng
    seed = rng.getrandbits(64)
    first, notes, acts = play(spec, seed, 'whole', 0, 0)
    again = play(spec, seed, 'whole', 0, 0)[0]
    ctx.eval()
    if first != again:
        ctx.count('not the same twice')
        return
    ctx.count('histories')
    ctx.count('ended connected' if first['connected'] else 'ended failed' if first['error'] != 'NoneType' else 'ended otherwise')
    if first['data'][0]:
        ctx.count('with data')
    for mode in rng.sample(MODES, 5):
        polls = rng.choice((0, .2, 1))
        salt = rng.getrandbits(60)
        other = play(spec, seed, mode, polls, salt)[0]
        ctx.count('segmentations compared')
        if other != first:
            steady = all(play(spec, seed, 'whole', 0, 0)[0] == first for _ in range(4)) and \
                all(play(spec, seed, mode, polls, salt)[0] == other for _ in range(4))
            if not steady:
                ctx.count('not the same twice')
                break
            diff = {k: (str(first[k])[:150], str(other[k])[:150]) for k in first if first[k] != other[k]}
            ctx.check(False, f'how the bytes are cut changes what happens: {", ".join(diff)}', f'{mode} {polls} {notes} {acts} {diff}')
            break
    ctx.seen(spec['role'], spec['what'], *notes, *acts, first['error'], first['alert'], first['connected'], first['data'][0])
    ctx.sample({'role': spec['role'], 'peer': [spec['what'], *notes, *acts], 'error': first['error'], 'alert': first['alert'],
                'data': first['data'][0], 'sent': len(first['sent'])})
