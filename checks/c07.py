""" C07: hostile input never crashes, hangs or blows up an endpoint. """
import gc
import os
import struct
import sys
import time
import tracemalloc

from siotls import TLSConfiguration, TLSError

from lib import judge, mutate, pki, ref13, scen
from lib.link import Link, Ref, Segmenter, Sio, alert_name
from lib.monitor import KeyLog
from lib.work import Work, retained

PID, LEVEL = 'C07', 'exploration'
RULE = ('distinct (role, point of the handshake, kind of hostile input, alert) outcomes judged')
ASSUMPTIONS = ['work is counted as function entries and loop iterations inside of the library: '
               'native code is only bounded by the CPU allowance of a case',
               'memory is what the connection keeps referenced']
MINIMUM = {'hostile inputs judged': 1500, 'fatal outcomes': 900, 'work measured': 1200,
           'segmentations compared': 100, 'lasting connections measured': 20,
           'leftovers measured': 4, 'bytes once over': 1500000}
WORK_BASE, WORK_BYTE = 60000, 60

R = ref13
CLIENT_POINTS = ('HRR', 'SH', 'EE', 'CR', 'CERT', 'CV', 'FIN', 'connected', 'half-closed')
SERVER_POINTS = ('CH', 'CH2', 'FIN', 'connected', 'half-closed')
HOW = ('mutate', 'mutate', 'mutate', 'extensions', 'extensions', 'handshake', 'record', 'header', 'raw', 'alert', 'empties', 'announce',
       'heartbeat', 'unprotected', 'bad-protection', 'no-type', 'oversized', 'repeat')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 40
    out = []
    for n in range(8 * k):
        for how in HOW:
            out += [{'what': 'at', 'role': 'client', 'point': p, 'how': how, 'n': f'{n}'} for p in CLIENT_POINTS]
            out += [{'what': 'at', 'role': 'server', 'point': p, 'how': how, 'n': f'{n}'} for p in SERVER_POINTS]
    # the same number again for the richest mutations
    out += [{'what': 'at', 'role': 'client', 'point': p, 'how': 'mutate', 'n': f'm{n}'}
            for p in ('HRR', 'SH', 'EE', 'CR', 'CERT', 'CV') for n in range(30 * k)]
    out += [{'what': 'at', 'role': 'server', 'point': p, 'how': 'mutate', 'n': f'm{n}'}
            for p in ('CH', 'CH2') for n in range(60 * k)]
    out += [{'what': 'at', 'role': 'client', 'point': p, 'how': 'extensions', 'n': f'x{n}'}
            for p in ('HRR', 'SH', 'EE', 'CR', 'CERT') for n in range(30 * k)]
    out += [{'what': 'at', 'role': 'client', 'point': 'EE', 'how': 'extensions', 'n': f'y{n}'} for n in range(80 * k)]
    out += [{'what': 'at', 'role': 'server', 'point': p, 'how': 'extensions', 'n': f'x{n}'}
            for p in ('CH', 'CH2') for n in range(60 * k)]
    out += [{'what': 'clear', 'role': r, 'n': n} for r in ('client', 'server') for n in range(100 * k)]
    out += [{'what': 'certs', 'how': h, 'n': n} for h in CERTS for n in range((48 if h in ('alien', 'odd-ext') else 12) * k)]
    out += [{'what': 'shares', 'role': r, 'n': n} for r in ('client', 'server') for n in range(40 * k)]
    out += [{'what': 'bulk', 'how': h, 'n': n} for h in BULK for n in range(2 * k)]
    out += [{'what': 'lasting', 'role': r, 'how': h, 'n': n} for r in ('client', 'server')
            for h in LASTING for n in range(1 if tier == 'quick' else 6)]
    out += [{'what': 'over', 'role': r, 'how': h, 'n': n} for r in ('client', 'server') for h in OVER
            for n in range(1 if tier == 'quick' else 6)]
    out += [{'what': 'leftovers', 'role': r, 'n': n} for r in ('client', 'server')
            for n in range(2 if tier == 'quick' else 12)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)


class Watched(Sio):
    """ Every delivery is measured. """
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.work = Work()
        self.total_work = 0
        self.alerted = False

    def feed(self, data):
        if not data:
            return
        with self.work:
            super().feed(data)
        self.total_work += self.work.count


def measure(ctx, sio, base, why):
    n = len(sio.rx)
    ctx.check(sio.total_work <= WORK_BASE + WORK_BYTE * n, 'the work is not bounded by the bytes received',
              f'{sio.total_work} steps for {n} bytes: {why}')
    ctx.count('work measured')
    ctx.count('work steps', sio.total_work)
    if base is not None:
        kept = retained(vars(sio.conn)) - base
        ctx.check(kept <= 6 * n + 400000, 'the memory kept is not bounded by the bytes received',
                  f'{kept} bytes kept for {n} received: {why}')
        ctx.count('memory measured')


# ------------------------------------------------- hostile at any point

def hostile(rng, how, peer, msg, sio):
    """ Items for Peer.emit, instead of msg. """
    if how == 'mutate':
        return [mutate.mutate(rng, msg)]
    if how == 'extensions':
        return [mutate.extensions(rng, msg)]
    if how == 'handshake':
        return [mutate.handshake(rng)] + ([msg] if rng.random() < .5 else [])
    if how == 'record':
        t = rng.choice((20, 21, 22, 23, 24, rng.randrange(256)))
        if t == 21:
            sio.alerted = True
        return [('record', t, mutate.blob(rng)), msg]
    if how == 'header':
        n = rng.choice((0, 1, 5, 255, 256, 16384, 16385, 16640, 16641, 0xffff, rng.randrange(65536)))
        body = os.urandom(min(n, rng.choice((n, n, 3))))
        return [('raw', struct.pack('!BHH', rng.choice((0, 20, 21, 22, 23, 24, 25, 128, 255)),
                                    rng.choice((0x0303, 0x0301, 0, 0x0200, 0xffff)), n) + body), msg]
    if how == 'raw':
        return [('raw', mutate.blob(rng, 2000) + os.urandom(rng.randrange(40)))] + [msg] * rng.randrange(2)
    if how == 'alert':
        sio.alerted = True
        body = bytes([rng.choice((0, 1, 2, 3, 255)), rng.randrange(256)])
        return [('record', R.ALERT, rng.choice((body, body, body, b'', body[:1], body + b'\0', body * 2))), msg]
    if how == 'empties':
        t = rng.choice((R.APPDATA, R.HANDSHAKE, R.ALERT, R.HEARTBEAT, R.CCS))
        if t == R.ALERT:
            sio.alerted = True
        return [('record', t, b'', rng.choice((0, 10)) if peer.write else 0)] * rng.choice((1, 3, 200)) + [msg]
    if how == 'announce':
        n = rng.choice((0xffffff, 0x800000, 70000, 65536, len(msg)))
        t = rng.choice((msg[0], msg[0], rng.randrange(256)))
        head = bytes([t]) + R.u24(n)
        return [('wire', head + os.urandom(rng.choice((0, 10, 3000))), msg)]
    if how == 'heartbeat':
        p = rng.choice((0, 1, 16, 65535, rng.randrange(300)))
        body = bytes([rng.choice((1, 2, 0, 3))]) + R.u16(p) + os.urandom(rng.randrange(60))
        return [('record', R.HEARTBEAT, body[:rng.choice((0, 1, 2, 3, 99))]), msg]
    if how == 'unprotected':
        t = rng.choice((R.HANDSHAKE, R.ALERT, R.APPDATA, R.CCS, R.HEARTBEAT))
        body = rng.choice((msg, os.urandom(20), b'\x02\x28', b'\x01\x00', b'\x01', b''))
        sio.alerted = True
        return [('raw', struct.pack('!BHH', t, 0x0303, len(body[:16000])) + body[:16000]), msg]
    if how == 'bad-protection':
        n = rng.choice((0, 1, 15, 16, 17, 40, 16640))
        return [('raw', struct.pack('!BHH', R.APPDATA, 0x0303, n) + os.urandom(n)), msg]
    if how == 'no-type':
        if peer.write:
            n = rng.choice((0, 1, 100, 16384))
            return [('raw', peer.write.seal_inner(bytes(n))), msg]
        return [('record', 0, bytes(rng.randrange(40))), msg]
    if how == 'oversized':
        n = rng.choice((16385, 16384, 16400, 16639, 16640, 16641, 17000, 65535))
        if peer.write:
            n = min(n, 65000)
            return [('raw', peer.write.seal(rng.choice((22, 23)), os.urandom(n))), msg]
        return [('raw', struct.pack('!BHH', 22, 0x0303, n) + os.urandom(n)), msg]
    if how == 'repeat':
        return [msg] * rng.choice((2, 3, 30))
    raise AssertionError(how)


def run_at(spec, ctx):
    rng, role, point, how = ctx.rng, spec['role'], spec['point'], spec['how']
    sc = scen.rand(rng, compatible=True)
    hits = []

    def act(peer, msg):
        hits.append(1)
        return hostile(rng, how, peer, msg, sio)

    script = {point: act}
    lay = scen.layout(rng)
    after = point in ('connected', 'half-closed')
    with KeyLog() as kl:
        if role == 'client':
            kw = {}
            if point == 'HRR':
                g = [x for x in sc['groups_c'][1:]]
                if not g:
                    sc['groups_c'] += [x for x in scen.FAST_GROUPS if x not in sc['groups_c']][:1]
                    g = sc['groups_c'][1:]
                kw = dict(hrr_group=rng.choice(g), groups=sc['groups_c'], cookie=rng.choice((None, os.urandom(20))))
            ref = Ref(scen.ref_server(sc, script=script, layout=lay, lenient=True, cert_request=point == 'CR',
                                      early_app=b'', tickets=rng.choice((0, 2)), **kw))
            sio = Watched(scen.client_config(sc, log_keys=True), server_hostname=sc['host'])
            link = Link(sio, ref, *scen.segmenters(rng))
        else:
            kw = {}
            if point == 'CH2':
                want = scen.expected(sc)['group']
                others = [g for g in sc['groups_c'] if g != want]
                if not others:
                    others = [next(g for g in scen.FAST_GROUPS if g not in sc['groups_s'])] \
                        if set(scen.FAST_GROUPS) - set(sc['groups_s']) else []
                    sc['groups_c'] = sc['groups_c'] + others
                kw = dict(shares=others[:1])
            ref = Ref(scen.ref_client(sc, script=script, layout=lay, lenient=True, **kw))
            sio = Watched(scen.server_config(sc, log_keys=True))
            link = Link(ref, sio, *scen.segmenters(rng))
        base = retained(vars(sio.conn)) if rng.random() < .15 else None
        link.handshake()
        can_send = True
        if after and sio.connected and ref.connected:
            if point == 'half-closed':
                sio.close()
                can_send = False
                link.run()
            for _ in range(rng.choice((1, 1, 3))):
                if rng.random() < .3:
                    ref.write(os.urandom(30))
                m = rng.choice((R.hs(R.NST, R.u32(1) + os.urandom(4) + R.v8(b'') + R.v16(b'x' * 20) + R.v16(b'')),
                                R.hs(R.KU, b'\0'), R.hs(R.FIN, os.urandom(32)), mutate.handshake(rng)))
                hits.append(1)
                msgs = hostile(rng, how, ref.peer, m, sio)
                ref.peer.script = {'x': lambda p, _: msgs}
                ref.peer.emit([('x', m)])
                link.run()
        if not hits:
            ctx.count('point not reached')
            return
        link.run()
        if rng.random() < .5:
            sio.feed(os.urandom(rng.choice((1, 5, 100))))     # whatever follows
        why = f'{role} {point} {how}'
        data = sio.take()
        tap, side = judge.own_tap(sio, kl, asked=sc['mfl'] if role == 'client' else None, peer=ref.peer)
    if not after:
        ctx.check(not data or sio.connected or sio.error is None or role == 'server',
                  'data is delivered by a failed handshake', why)
    judge.outcome(ctx, sio, side, why, can_send, sio.alerted or ref.error is not None)
    for who, m, d in tap.problems:
        if 'unfinished' not in m:
            ctx.violation(f'malformed output under hostile input: {m}', f'{why}: {d}')
    measure(ctx, sio, base, why)
    ctx.check(len(sio.tx) <= 60000 + 400 * len(sio.rx), 'the output is not bounded by the input',
              f'{len(sio.tx)} for {len(sio.rx)}: {why}')
    ctx.eval()
    ctx.count('hostile inputs judged')
    if sio.error is not None:
        ctx.count('fatal outcomes')
    ctx.seen(role, point, how, alert_name(sio.error), sio.connected)
    ctx.sample({'role': role, 'point': point, 'input': how, 'outcome': repr(sio.error)[:120]})


# ------------------- what comes in clear: the segmentation is irrelevant

def clear_hostile(rng, role):
    if role == 'server':
        cl = ref13.RefClient(sni=b'x.test', alpn=[b'h2'], mfl=rng.choice((None, 1)), heartbeat=1,
                             server_cert_types=rng.choice((None, [0, 2])))
        cl.start()
        good = cl.out()[5:]
    else:
        good = R.hs(R.SH, b'\x03\x03' + rng.choice((os.urandom(32), R.HRR_RANDOM)) + R.v8(b'')
                    + R.u16(0x1303) + b'\0' + R.v16(R.ext(43, b'\x03\x04') + R.ext(51, R.u16(0x17))))
    msgs = rng.choice(([mutate.mutate(rng, good)], [mutate.handshake(rng), good], [good, mutate.handshake(rng)],
                       [mutate.mutate(rng, good), mutate.mutate(rng, good)]))
    p = ref13.Peer(layout=ref13.Layout(rng, rng.choice(('single', 'coalesce', 'random', 'tiny'))))
    items = []
    for m in msgs:
        items += hostile(rng, rng.choice(('mutate', 'extensions', 'raw', 'header', 'record', 'alert', 'empties', 'announce',
                                          'repeat')), p, m, type('o', (), {})())
    p.script = {'x': lambda *a: items}
    p.emit([('x', good)])
    return p.out()


def run_clear(spec, ctx):
    rng, role = ctx.rng, spec['role']
    sc = scen.simple()
    wire = clear_hostile(rng, role)
    seen = []
    for mode in ('whole', 'byte', rng.choice(('small', 'mixed', 'split5'))):
        s = Watched(scen.server_config(sc)) if role == 'server' else \
            Watched(scen.client_config(sc), server_hostname=sc['host'])
        s.start()
        s.out()
        for piece in Segmenter(rng, mode).cut(wire):
            s.feed(piece)
        measure(ctx, s, None, f'clear {role} {mode}')
        s.out()
        ctx.eval()
        for e in s.errors:
            ctx.check(alert_name(e) is not None or type(e).__module__.startswith('siotls'),
                      f'{type(e).__name__} comes out of receive_data', lambda: f'{role}: {e!r} {judge.trace(e)}')
        seen.append((type(s.error).__name__, alert_name(s.error), s.connected, s.post_handshake, len(s.tx)))
    ctx.check(len(set(seen)) == 1, 'the outcome depends on the segmentation', f'{role} {seen} {wire[:300].hex()}')
    ctx.count('segmentations compared')
    ctx.count('hostile inputs judged')
    ctx.seen('clear', role, *seen[0][:3])


# ------------------------------------------------ hostile certificates

CERTS = ('der-flip', 'der-trunc', 'spki-flip', 'spki-kind', 'spki-alien', 'x509-kind', 'alien', 'many', 'dups', 'huge', 'exts',
         'ocsp-flip', 'sans', 'nested', 'odd-ext')


def odd_keys(rng):
    from cryptography.hazmat.primitives.asymmetric import dsa, ec, rsa, x25519, x448
    return rng.choice((
        lambda: x25519.X25519PrivateKey.generate(), lambda: x448.X448PrivateKey.generate(),
        lambda: ec.generate_private_key(ec.SECP256K1()), lambda: ec.generate_private_key(ec.SECP224R1()),
        lambda: ec.generate_private_key(ec.BrainpoolP256R1()), lambda: rsa.generate_private_key(3, 1024),
        lambda: dsa.generate_private_key(1024)))()


class Silent:
    """ A status service no one answers to. """
    def request(self, url, req):
        raise TimeoutError(url)

    def cache(self, until, req, res):
        pass

    def uncache(self, req):
        pass


def der(tag, *contents):
    content = b''.join(contents)
    n = len(content)
    size = bytes([n]) if n < 128 else b'\x81' + bytes([n]) if n < 256 else b'\x82' + R.u16(n)
    return bytes([tag]) + size + content


def odd_name(rng):
    """ A GeneralName, seldom a good one. """
    return rng.choice((
        lambda: der(0x82, rng.choice((b'', b'\xe9.test', 'é.test'.encode(), b'a\0.test', b'*', b'*.*', b'a b', b'.', b'x' * 300))),
        lambda: der(0x87, os.urandom(rng.choice((0, 2, 4, 5, 8, 16, 32)))),
        lambda: der(0x86, rng.choice((b'', b'http://ocsp.test/x', 'http://é.test'.encode(), b'\xff\xfe', b'http://a b', b'x' * 9000))),
        lambda: der(0x81, rng.choice((b'a@b.test', b'', b'\xff'))),
        lambda: der(0xa4, der(0x30)), lambda: der(0xa4, b'\x01'), lambda: der(0xa3, b'\x01'), lambda: der(0xa5, der(0x30)),
        lambda: der(0x88, b'\x2a\x03'), lambda: der(0xa0, b'\x06\x01\x2a', der(0xa0, b'\x05\x00')), lambda: der(0x8f, b'?')))()


def odd_extension(rng):
    """ An extension a certificate authority should not have put. """
    OCSP, ISSUER = (b'\x06\x08\x2b\x06\x01\x05\x05\x07\x30' + x for x in (b'\x01', b'\x02'))
    junk = lambda: rng.choice((b'', b'\xff', b'\x30', b'\x30\x80', der(0x30), der(4, b'x'), os.urandom(rng.randrange(1, 30))))
    oid, content = rng.choice((
        lambda: ('2.5.29.17', der(0x30, *(odd_name(rng) for _ in range(rng.choice((0, 1, 1, 2, 4)))))),
        lambda: ('2.5.29.17', junk()),
        lambda: ('1.3.6.1.5.5.7.1.1', der(0x30, *(der(0x30, rng.choice((OCSP, OCSP, ISSUER)), odd_name(rng))
                                                  for _ in range(rng.choice((0, 1, 1, 2)))))),
        lambda: ('1.3.6.1.5.5.7.1.1', junk()),
        lambda: (rng.choice(('1.3.6.1.5.5.7.1.24', '2.5.29.31', '2.5.29.32', '2.5.29.30', '2.5.29.36', '2.5.29.18', '2.5.29.9',
                             '1.3.6.1.4.1.11129.2.4.2', '1.3.6.1.5.5.7.48.1.5', '2.5.29.16')), junk())))()
    return oid, content, rng.random() < .15


def run_certs(spec, ctx):
    rng, how = ctx.rng, spec['how']
    raw = how.startswith('spki')
    kind = rng.choice(('p256', 'rsa') if not raw else ('p256', 'rsa', 'ed25519', 'p521'))
    node = pki.leaf(kind, rng.choice(('root', 'inter')))
    chain = [n.der for n in pki.chain(node)]
    exts = [b''] * len(chain)
    if raw:
        chain, exts = [node.spki], [b'']

    def flip(b):
        return mutate.mutate(rng, b, header=False)

    if how in ('der-flip', 'spki-flip'):
        i = rng.randrange(len(chain))
        chain[i] = flip(chain[i])
    elif how == 'der-trunc':
        i = rng.randrange(len(chain))
        chain[i] = chain[i][:rng.randrange(len(chain[i]))]
    elif how == 'spki-kind':
        chain = [pki.spki(odd_keys(rng).public_key())]
    elif how == 'spki-alien':
        chain = [pki.alien_spki(rng)]
    elif how == 'x509-kind':
        k = odd_keys(rng)
        try:
            chain = [pki.make('odd', k, pki.root(), sans=(pki.HOST,), eku=pki.SERVER_AUTH).der]
        except (TypeError, ValueError):
            chain = [pki.make('odd', pki.key('p256', 'x'), None, sans=()).der]
        exts = [b'']
    elif how == 'alien':
        alien = pki.alien_spki(rng)
        node = pki.leaf('p256', 'root')
        chain = rng.choice(([pki.with_spki(node, pki.root(), alien)], [pki.with_spki(node, pki.root(), alien)],
                            [pki.leaf('p256', 'inter').der, pki.with_spki(pki.inter(), pki.root(), alien)]))
        if len(chain) == 2:
            node = pki.leaf('p256', 'inter')
        exts = [b''] * len(chain)
    elif how == 'many':
        chain = chain + [pki.make(f'n{i}', pki.key('p256', 'mid'), pki.root(), ca=True).der for i in range(20)] * 6
        exts = [b''] * len(chain)
    elif how == 'dups':
        chain, exts = chain * 40, exts * 40
    elif how == 'huge':
        chain = [node.der, os.urandom(rng.choice((70000, 300000)))]
        exts = [b'', b'']
    elif how == 'exts':
        exts[0] = b''.join(R.ext(rng.choice((5, 18, 0, 10, rng.randrange(65536))), mutate.blob(rng))
                           for _ in range(rng.randrange(1, 6)))
    elif how == 'ocsp-flip':
        node = pki.leaf('p256', 'inter', ocsp_url='http://ocsp.test/x')
        chain = [n.der for n in pki.chain(node)]
        b = pki.ocsp_response(node, pki.inter())
        exts = [R.ext(5, R.u8(rng.choice((1, 1, 1, 0, 2))) + R.v24(flip(b)))] + [b''] * (len(chain) - 1)
    elif how == 'sans':
        import ipaddress  # noqa
        many = pki.make('leaf', pki.key('p256', 'leaf0'), pki.root(), eku=pki.SERVER_AUTH,
                        sans=tuple(f'h{i}.test' for i in range(3000)))
        node, chain, exts = many, [many.der], [b'']
    elif how == 'nested':
        deep = b''
        for _ in range(rng.choice((100, 5000))):
            deep = b'\x30' + (bytes([len(deep)]) if len(deep) < 128 else
                              b'\x82' + R.u16(len(deep)) if len(deep) < 65530 else b'\x83' + R.u24(len(deep))) + deep
        chain, exts = [deep], [b'']
    elif how == 'odd-ext':
        odd = [odd_extension(rng)]
        sans = () if odd[0][0] == '2.5.29.17' else (pki.HOST,)
        kw = {'ocsp_url': 'http://ocsp.test/x'} if odd[0][0] != '1.3.6.1.5.5.7.1.1' and rng.random() < .3 else {}
        if rng.random() < .6:
            node = pki.make('leaf', pki.key('p256', 'leaf0'), pki.root(), sans=sans, eku=pki.SERVER_AUTH, raw=odd, **kw)
            chain = [node.der]
        else:
            mid = pki.make('mid', pki.key('p256', 'mid'), pki.root(), ca=True, path_length=0, raw=odd, **kw)
            node = pki.make('leaf', pki.key('p256', 'leaf0'), mid, sans=(pki.HOST,), eku=pki.SERVER_AUTH)
            chain = [node.der, mid.der]
        exts = [b''] * len(chain)
    body = b''.join(R.v24(c) + R.v16(x) for c, x in zip(chain, exts))
    msg = R.hs(R.CERT, R.v8(b'') + R.v24(body))
    kw = {'trusted_public_keys': [node.key.public_key()]} if raw else \
        rng.choice(({'trust_store': pki.store()}, {'trust_store': pki.store()}, {}))
    with KeyLog() as kl:
        conn = {}
        if rng.random() < .4:  # one which answers nothing
            conn['ocsp_service'] = Silent()
        if rng.random() < .2 and 'trust_store' in kw:
            kw['revocation_list'] = pki.crl(pki.root(), [12345])
        sio = Watched(TLSConfiguration('client', log_keys=True, **kw),
                      server_hostname=rng.choice((pki.HOST, pki.HOST, None)), **conn)
        ref = Ref(ref13.RefServer([node.der], node.key, raw_public_key=node.spki if raw else None, lenient=True,
                                  layout=ref13.Layout(rng, rng.choice(('single', 'coalesce', 'full'))),
                                  script={'CERT': lambda p, m: [msg]}))
        t0 = time.process_time()
        Link(sio, ref).handshake()
        spent = time.process_time() - t0
        tap, side = judge.own_tap(sio, kl, peer=ref.peer)
    judge.outcome(ctx, sio, side, f'certificates {how}', alerted=ref.error is not None)
    measure(ctx, sio, None, f'certificates {how}')
    ctx.check(spent < 20, 'processing certificates takes very long', f'{how}: {spent:.1f} s of CPU')
    ctx.eval()
    ctx.count('hostile inputs judged')
    if sio.error is not None:
        ctx.count('fatal outcomes')
    ctx.seen('certs', how, sorted(kw), alert_name(sio.error))


# ------------------------------------------------------ hostile shares

def run_shares(spec, ctx):
    rng, role = ctx.rng, spec['role']
    g = rng.choice(scen.FAST_GROUPS)
    n = ref13.GROUPS[g].share_len()
    share = rng.choice((lambda: os.urandom(n), lambda: bytes(n), lambda: b'\xff' * n, lambda: b'\x04' + os.urandom(n - 1),
                        lambda: os.urandom(rng.choice((0, 1, n - 1, n + 1, 5000))), lambda: b'\x00',
                        lambda: b'\x04' + bytes(n - 1), lambda: (1).to_bytes(n, 'big'),
                        lambda: (1).to_bytes(n, 'little')))()
    sc = scen.simple(groups_c=[g], groups_s=[g])
    with KeyLog() as kl:
        if role == 'client':
            script = {'SH': lambda p, m: [R.sh_with(m, exts={R.X_KEYSHARE: R.u16(g) + R.v16(share)})]}
            sio = Watched(scen.client_config(sc, log_keys=True), server_hostname=sc['host'])
            ref = Ref(scen.ref_server(sc, script=script, lenient=True))
            Link(sio, ref).handshake()
        else:
            def tweak(p, exts):
                return [(t, R.v16(R.u16(g) + R.v16(share))) if t == R.X_KEYSHARE else (t, b) for t, b in exts]
            sio = Watched(scen.server_config(sc, log_keys=True))
            ref = Ref(scen.ref_client(sc, tweak_ch=tweak, lenient=True))
            Link(ref, sio).handshake()
        tap, side = judge.own_tap(sio, kl, peer=ref.peer)
    judge.outcome(ctx, sio, side, f'share {role}', alerted=ref.error is not None)
    measure(ctx, sio, None, f'share {role}')
    ctx.eval()
    ctx.count('hostile inputs judged')
    ctx.seen('share', role, g, alert_name(sio.error))


# ------------------------------------------------------------- in bulk

def fill(items, n, room=40000):
    """ n items at most, which fit in the room. """
    out, i = bytearray(), 0
    while i < n and len(out) < room:
        out += items(i)
        i += 1
    return bytes(out)


# extensions of a hello which carry a list: (type, body for n items)
LISTS = {
    'same-ext': lambda n: [(R.X_HEARTBEAT, b'\x01')] * n,
    'same-unknown': lambda n: [(2000, b'')] * n,
    'nearly-same': lambda n: [(R.X_HEARTBEAT, b'\x01')] * n + [(R.X_HEARTBEAT, b'\x02')],
    'distinct-then-same': lambda n: [(2000 + i, b'') for i in range(n)] + [(R.X_HEARTBEAT, b'\x01')] * 2,
    'same-padding': lambda n: [(R.X_PADDING, bytes(40))] * (n // 8),
    'versions': lambda n: [(R.X_VERSIONS, R.v8(bytes(254)))] * (n // 60),
    'sigalgs-cert': lambda n: [(R.X_SIGALGSCERT, R.v16(fill(lambda i: R.u16(i), n)))],
    'host-names': lambda n: [(R.X_SNI, R.v16(fill(lambda i: b'\x00' + R.v16(b'h%d' % i), n)))],
    'other-names': lambda n: [(R.X_SNI, R.v16(fill(lambda i: bytes([1 + i % 255]) + R.v16(b'h%d' % i), n)))],
    'authorities': lambda n: [(R.X_CAS, R.v16(fill(lambda i: R.v16(b'0%d' % i), n)))],
    'responders': lambda n: [(R.X_STATUS, b'\x01' + R.v16(fill(lambda i: R.v16(b'r%d' % i), n)) + R.v16(b''))],
    'cookie': lambda n: [(R.X_COOKIE, R.v16(bytes(4 * n)))],
    'profiles': lambda n: [(R.X_SRTP, R.v16(fill(lambda i: R.u16(i), n)) + R.v8(b''))],
    'tickets-offered': lambda n: [(R.X_PSKMODES, R.v8(b'\x01')), (R.X_PSK, R.v16(
        fill(lambda i: R.v16(b'id%d' % i) + R.u32(i), n)) + R.v16(fill(lambda i: R.v8(bytes(32)), n, 20000)))],
    'types': lambda n: [(R.X_SCERTT, R.v8(bytes(range(3)) * 80)), (R.X_CCT, R.v8(bytes(255)))] * (n // 100),
}
# of a server's flight, to a client
FLIGHT = {
    'ee-exts': ('EE', lambda n, m: R.ee_with(m, add=[(2000 + i, b'') for i in range(n)])),
    'ee-same': ('EE', lambda n, m: R.ee_with(m, add=[(R.X_HEARTBEAT, b'\x01')] * n)),
    'ee-groups': ('EE', lambda n, m: R.ee_with(m, add=[(R.X_GROUPS, R.v16(fill(lambda i: R.u16(i), n)))])),
    'sh-exts': ('SH', lambda n, m: R.sh_with(m, add=[(2000 + i, b'') for i in range(n)])),
    'cr-authorities': ('CR', lambda n, m: R.hs(R.CR, R.v8(b'') + R.v16(
        R.ext(R.X_SIGALGS, R.list16([0x403])) + R.ext(R.X_CAS, R.v16(fill(lambda i: R.v16(b'0%d' % i), n)))))),
    'cr-filters': ('CR', lambda n, m: R.hs(R.CR, R.v8(b'') + R.v16(
        R.ext(R.X_SIGALGS, R.list16([0x403])) + R.ext(R.X_OIDF, R.v16(fill(lambda i: R.v8(b'o%d' % i) + R.v16(b'v'), n)))))),
    'chain': ('CERT', lambda n, m: R.hs(R.CERT, R.v8(b'') + R.v24(
        fill(lambda i: R.v24(pki.leaf().der) + R.v16(b''), 1) + fill(lambda i: R.v24(pki.inter().der) + R.v16(b''), n // 10, 10**6)))),
    'entry-exts': ('CERT', lambda n, m: R.hs(R.CERT, R.v8(b'') + R.v24(
        R.v24(pki.leaf().der) + R.v16(fill(lambda i: R.ext(R.X_SCT, R.v16(R.v16(b's'))), n))))),
}
BULK = ('ccs', 'empty-app', 'tiny-handshake', 'tiny-app', 'big-hello', 'many-exts', 'many-shares', 'many-names',
        'tickets', 'heartbeats', 'padding', *LISTS, *FLIGHT)


def run_bulk(spec, ctx):
    """ The costs stay linear: twice the bytes, at most about twice the work. """
    rng, how = ctx.rng, spec['how']
    costs = []
    chunked = rng.random() < .5
    for size in (1, 2, 4):
        if how in ('ccs', 'tiny-handshake', 'big-hello', 'many-exts', 'many-shares', 'many-names') or how in LISTS:
            sio = Watched(scen.server_config(scen.SIMPLE))
            sio.start()
            if how == 'ccs':
                wire = b'\x14\x03\x03\x00\x01\x01' * (20000 * size)
            elif how == 'tiny-handshake':
                msg = b'\x01' + R.u24(60000) + os.urandom(8000 * size)
                wire = b''.join(b'\x16\x03\x03\x00\x01' + bytes([b]) for b in msg)
            else:
                cl = ref13.RefClient(sni=b'x.test', alpn=[b'h2'])
                n = 1500 * size
                if how == 'big-hello':
                    cl.suites = [0x1303] + [rng.randrange(65536) for _ in range(n)]
                elif how == 'many-exts':
                    cl.extra_exts = [(2000 + i, b'') for i in range(n)]
                elif how == 'many-shares':
                    cl.tweak_ch = lambda p, ex: [
                        (t, R.v16(b[2:] + b''.join(R.u16(0x3000 + i) + R.v16(b'x') for i in range(n))))
                        if t == R.X_KEYSHARE else
                        (t, R.v16(b[2:] + b''.join(R.u16(0x3000 + i) for i in range(n)))) if t == R.X_GROUPS
                        else (t, b) for t, b in ex]
                elif how in LISTS:
                    cl.extra_exts = LISTS[how](n)
                    own = {t for t, _ in cl.extra_exts}
                    cl.tweak_ch = lambda p, ex: [x for x in ex if x[0] not in own] + p.extra_exts
                else:
                    cl.alpn = [b'h2'] + [f'p{i}'.encode() for i in range(n)]
                cl.start()
                wire = cl.out()
        elif how in FLIGHT:
            sio = Watched(scen.client_config(scen.SIMPLE), server_hostname=pki.HOST)
            name, change = FLIGHT[how]
            ref = Ref(scen.ref_server(scen.SIMPLE, lenient=True, cert_request=name == 'CR', script={
                name: lambda p, m: [change(1500 * size, m)]}))
            sio.start()
            ref.feed(sio.out())
            wire = ref.out()
        else:
            sio = Watched(scen.server_config(scen.SIMPLE)) if how != 'tickets' else \
                Watched(scen.client_config(scen.SIMPLE), server_hostname=pki.HOST)
            if how == 'tickets':
                ref = Ref(scen.ref_server(scen.SIMPLE))
                Link(sio, ref).handshake()
            else:
                ref = Ref(scen.ref_client(scen.SIMPLE))
                Link(ref, sio).handshake()
            ctx.require(sio.connected and ref.connected, 'no connection', repr(sio.error))
            sio.rx.clear()
            sio.total_work = 0
            p = ref.peer
            if how == 'empty-app':
                for _ in range(3000 * size):
                    p.put(R.APPDATA, b'')
            elif how == 'tiny-app':
                for _ in range(3000 * size):
                    p.put(R.APPDATA, b'x')
            elif how == 'tickets':
                for i in range(600 * size):
                    p.send_ticket(bytes([i & 255]))
            elif how == 'heartbeats':
                for i in range(400 * size):
                    p.put(R.HEARTBEAT, b'\x01' + R.u16(1) + b'x' + bytes(16))
            else:
                for _ in range(10 * size):
                    p.put(R.APPDATA, b'', 16384)
            wire = p.out()
        t0 = time.process_time()
        if chunked:
            for i in range(0, len(wire), 16384):
                sio.feed(wire[i:i + 16384])
        else:
            sio.feed(wire)
        spent = time.process_time() - t0
        sio.out()
        costs.append((len(wire), sio.total_work))
        ctx.eval()
        ctx.check(spent < 30, f'receiving takes very long: {how}', f'{len(wire)} bytes, {spent:.1f} s')
    for (n1, w1), (n2, w2) in zip(costs, costs[1:]):
        ctx.check(w2 <= 3 * w1 * n2 / n1 / 1.5 + 2000, f'the work is not linear: {how}', f'{costs}')
    ctx.check(costs[-1][1] <= WORK_BASE + WORK_BYTE * costs[-1][0], 'the work is not bounded by the bytes received',
              f'{how} {costs}')
    ctx.count('hostile inputs judged')
    ctx.seen('bulk', how, chunked)


# ------------------------------------ what was processed is not kept

LASTING = ('tickets', 'app', 'app-big', 'empty-app', 'heartbeats', 'heartbeat-responses', 'ccs', 'canceled',
           'writes', 'all', 'far-half-closed', 'half-closed')
KEPT = 12000


def run_lasting(spec, ctx):
    """ An established connection keeps nothing of the traffic that it went through. """
    rng, role, how = ctx.rng, spec['role'], spec['how']
    sc = dict(scen.SIMPLE, hb_c=True, hb_s=True)
    if role == 'client':
        sio = Sio(scen.client_config(sc, log_keys=rng.random() < .5), server_hostname=sc['host'])
        ref = Ref(scen.ref_server(sc, heartbeat=1))
        link = Link(sio, ref, *scen.segmenters(rng))
    else:
        sio = Sio(scen.server_config(sc, log_keys=rng.random() < .5))
        ref = Ref(scen.ref_client(sc, heartbeat=1))
        link = Link(ref, sio, *scen.segmenters(rng))
    link.handshake()
    ctx.require(sio.connected and ref.connected, 'no connection', repr(sio.error))
    p = ref.peer
    hows = [h for h in LASTING[:9] if h != 'tickets' or role == 'client'] if how == 'all' else [how]
    if how == 'tickets' and role == 'server':
        hows = ['app']
    if how == 'half-closed':
        sio.close()
        link.run()
        hows = ['app', 'empty-app', 'ccs'] + ['tickets'] * (role == 'client')
    elif how == 'far-half-closed':
        p.close()
        link.run()
        hows = ['writes']

    def once(i):
        h = rng.choice(hows)
        if h == 'tickets':
            p.send_ticket(bytes([i & 255]))
        elif h == 'app':
            p.send_app(os.urandom(200))
        elif h == 'app-big':
            p.send_app(os.urandom(16384))
        elif h == 'empty-app':
            p.put(R.APPDATA, b'')
        elif h == 'heartbeats':
            p.put(R.HEARTBEAT, b'\x01' + R.u16(100) + os.urandom(100) + bytes(16))
        elif h == 'heartbeat-responses':
            p.put(R.HEARTBEAT, b'\x02' + R.u16(100) + os.urandom(100) + bytes(16))
        elif h == 'ccs':
            sio.feed(b'\x14\x03\x03\x00\x01\x01')
        elif h == 'canceled':
            p.put(R.ALERT, b'\x01\x5a')
        elif h == 'writes':
            sio.conn.send_data(os.urandom(300))
        sio.feed(p.out())
        sio.take()
        wire = sio.out()
        sio.rx.clear()
        sio.tx.clear()
        if wire and how != 'half-closed':
            ref.feed(wire)
            ref.take()

    big = how in ('app-big', 'all')
    for i in range(15 if big else 60):
        once(i)
    before = retained(vars(sio.conn))
    n = 60 if big else 400
    for i in range(n):
        once(i)
    kept = retained(vars(sio.conn)) - before
    ctx.check(sio.error is None, f'a lasting connection fails: {role} {how}', repr(sio.error))
    ctx.check(kept < KEPT, 'what was processed is kept', f'{kept} bytes more after {n} more: {role} {how}')
    ctx.eval()
    ctx.count('lasting connections measured')
    ctx.seen('lasting', role, how, kept // 1000)
    ctx.sample({'role': role, 'traffic': how, 'items': n, 'kept': kept})


OVER = ('hello', 'flight', 'mac', 'alert', 'closed', 'both', 'gave-up', 'before')


def run_over(spec, ctx):
    """ A connection which is over keeps nothing of what still arrives. """
    rng, role, how = ctx.rng, spec['role'], spec['how']
    sc = scen.SIMPLE
    script = {}
    if how in ('hello', 'flight'):
        name = {'client': {'hello': 'SH', 'flight': 'FIN'}, 'server': {'hello': 'CH', 'flight': 'FIN'}}[role][how]
        script[name] = lambda peer, m: [m[:1] + R.u24(3) + b'bad']
    if role == 'client':
        sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
        ref = Ref(scen.ref_server(sc, script=script, lenient=True))
        link = Link(sio, ref)
    else:
        sio = Sio(scen.server_config(sc))
        ref = Ref(scen.ref_client(sc, script=script, lenient=True))
        link = Link(ref, sio)
    if how == 'before':
        sio.start()
        sio.feed(b'\x15\x03\x03\x00\x02\x02\x28')
    else:
        link.handshake()
    if how == 'mac':
        sio.feed(b'\x17\x03\x03\x00\x20' + os.urandom(32))
    elif how == 'alert':
        ref.peer.send_alert('internal_error')
        link.run()
    elif how in ('closed', 'both'):
        ref.close()
        link.run()
        if how == 'both':
            sio.close()
    elif how == 'gave-up':
        sio.conn.close_receiving_end()
    sio.out()
    sio.take()
    ctx.require(not sio.connected or how == 'closed', 'the connection is not over', how)

    def once():
        k = rng.random()
        n = rng.choice((5, 100, 1400, 16384))
        data = os.urandom(n) if k < .4 else b'\x17\x03\x03' + R.u16(n) + os.urandom(n) if k < .8 else b'\x17\x03\x03\x40\x00'
        try:
            sio.conn.receive_data(data)
        except TLSError:
            pass
        ctx.count('bytes once over', len(data))

    for _ in range(5):
        once()
    before = retained(vars(sio.conn))
    for _ in range(40):
        once()
    kept = retained(vars(sio.conn)) - before
    ctx.check(kept < KEPT, 'what comes once the connection is over is kept', f'{kept} bytes: {role} {how}')
    ctx.check(not sio.take() and not sio.out(), 'what comes once the connection is over has an effect', f'{role} {how}')
    ctx.eval()
    ctx.seen('over', role, how, kept // 1000)


def run_leftovers(spec, ctx):
    """ Nothing remains of the connections of the past, neither of those which failed. """
    rng, role = ctx.rng, spec['role']
    sc = scen.SIMPLE
    config = scen.client_config(sc) if role == 'client' else scen.server_config(sc)

    def once(i):
        fails = rng.random() < .5
        script = {rng.choice(('SH', 'EE', 'CERT', 'FIN') if role == 'client' else ('CH', 'FIN')):
                  lambda peer, m: [mutate.mutate(rng, m)]} if fails else {}
        if role == 'client':
            sio = Sio(config, server_hostname=sc['host'])
            link = Link(sio, Ref(scen.ref_server(sc, script=script, lenient=True)))
        else:
            sio = Sio(config)
            link = Link(Ref(scen.ref_client(sc, script=script, lenient=True)), sio)
        link.handshake()
        if sio.connected:
            sio.conn.send_data(os.urandom(2000))
            sio.out()
        return sio.connected

    def mine():
        sys._clear_type_cache()      # the interpreter's: it keeps the names which were looked up
        gc.collect()
        return sum(s.size for s in tracemalloc.take_snapshot().filter_traces(
            [tracemalloc.Filter(True, '*/siotls/*')]).statistics('filename'))

    tracemalloc.start()
    try:
        for i in range(25):
            once(i)
        before = mine()
        done = sum(once(i) for i in range(50))
        kept = mine() - before
    finally:
        tracemalloc.stop()
    ctx.check(kept < 8000, 'something remains of past connections', f'{kept} bytes after 50: {role}')
    ctx.eval()
    ctx.count('leftovers measured')
    ctx.seen('leftovers', role, kept // 1000)
    ctx.sample({'role': role, 'connections': 50, 'established': done, 'kept': kept})
