""" C01: compatible peers always complete a handshake. """
import os

from cryptography.hazmat.primitives.serialization import Encoding

from lib import pki, ref13, scen
from lib.link import Link, OpenSSL, Ref, Segmenter, Sio, openssl_client, openssl_server

PID, LEVEL = 'C01', 'exploration'
RULE = ('distinct (peer, suite, group, scheme, certificate type, retry, segmentation, record layout) '
        'combinations whose handshake and data exchange were observed')
ASSUMPTIONS = ['the independent peers (ref13, OpenSSL 3.0) conform to RFC 8446',
               'x509 trust stores accept P-256/384/521 and RSA leafs only (verifier of cryptography)']
MINIMUM = {'completed': 100, 'completed sio': 20, 'completed ref server': 20,
           'completed ref client': 20, 'completed openssl': 10, 'completed with retry': 20,
           'large messages': 60}
GREASE = [0x0a0a + 0x1010 * i for i in range(16)]


def cases(tier, seed):
    out = []
    groups = scen.FAST_GROUPS + scen.SLOW_GROUPS
    for mode in ('sio', 'rs', 'rc'):
        for g in groups:
            suites = scen.SUITES if g in scen.FAST_GROUPS or tier == 'thorough' else (0x1301,)
            for s in suites:
                for retry in (False, True):
                    if retry and s != 0x1302 and tier == 'quick':
                        continue
                    out.append({'what': 'suite-group', 'mode': mode, 's': s, 'g': g, 'retry': retry})
        for sig in scen.SIGALGS:
            for typ in ('x509', 'raw'):
                out.append({'what': 'scheme', 'mode': mode, 'sig': sig, 'type': typ})
        for seg in Segmenter.MODES:
            for lay in ref13.Layout.MODES:
                out.append({'what': 'cut', 'mode': mode, 'seg': seg, 'layout': lay})
        for n in range(150 if tier == 'quick' else 2500):
            out.append({'what': 'rand', 'mode': mode, 'n': n})
    # around the largest records, and messages of many records
    for lay in ref13.Layout.MODES:
        for size in (16379, 16380, 16383, 16384, 16385, 16388, 32768, 32772, 50000, 65000):
            out.append({'what': 'size', 'mode': 'rc', 'size': size, 'layout': lay})
        for size in ((16384, 70000, 200000) if tier == 'quick' else (16380, 16384, 40000, 70000, 200000, 1000000)):
            if size <= 20000 or lay != 'tiny':
                out.append({'what': 'size', 'mode': 'rs', 'size': size, 'layout': lay})
    out += [{'what': 'size', 'mode': 'sio', 'size': size, 'layout': 'full'} for size in (16384, 70000, 200000)]
    for n in range(60 if tier == 'quick' else 800):
        out.append({'what': 'openssl', 'mode': 'oc' if n % 2 else 'os', 'n': n})
    return out


def scenario(spec, rng):
    w = spec['what']
    if w == 'suite-group':
        other = 0x17 if spec['g'] != 0x17 else 0x1d
        return scen.simple(suites_c=[spec['s']], suites_s=[spec['s']],
                           groups_c=[other, spec['g']] if spec['retry'] else [spec['g']],
                           groups_s=[spec['g']])
    if w == 'scheme':
        sig, typ = spec['sig'], spec['type']
        name = ref13.SIGS[sig][0]
        kind = ('rsapss' if 'pss_pss' in name else 'rsa' if 'pss' in name else
                {0x0403: 'p256', 0x0503: 'p384', 0x0603: 'p521', 0x0807: 'ed25519',
                 0x0808: 'ed448'}[sig])
        if kind == 'rsapss' and typ == 'raw':
            kind, sig = 'rsa', sig - 5
        return scen.simple(kind=kind, server_certs=[typ], sigs_c=[sig], sigs_s=[sig],
                           trust=['keys'] if typ == 'raw' else
                           ['store'] if kind in pki.X509_KINDS else ['none'])
    if w == 'cut':
        return scen.simple(via='inter', alpn_c=['h2'], alpn_s=['h2'], mfl=rng.choice(scen.MFLS))
    return scen.rand(rng, slow=rng.random() < .04, compatible=True)


def run_size(spec, ctx):
    rng, size, mode = ctx.rng, spec['size'], spec['mode']
    sc = scen.simple(via='inter', mfl=rng.choice(scen.MFLS) if mode != 'rc' else None)
    lay = ref13.Layout(rng, spec['layout'], rng.choice(('none', 'max')))
    if mode == 'rc':
        exts = []
        for _ in range(2):
            peer = scen.ref_client(sc, layout=ref13.Layout(), extra_exts=list(exts))
            peer.start()
            wire = peer.out()
            n = len(wire) - 5 * -(-len(wire) // 16389)    # of the whole message
            exts = exts or [(ref13.X_PADDING, bytes(max(0, size - n - 4)))]
        ctx.check(n == size, 'the sizes are wrong', f'{n} {size}')
        c, s = Ref(scen.ref_client(sc, layout=lay, extra_exts=exts)), Sio(scen.server_config(sc))
        peer = 'ref client'
    else:
        chain = pki.chain(scen.leaf_node(sc['kind'], sc['via']))
        more, n = [], sum(len(x.der) + 5 for x in chain) + 8
        while n < size:
            blob = pki.make('not needed ' + 'x' * 40, pki.key('p256', 'mid'), pki.root(), ca=True)
            blob = [blob] * max(1, min(60, (size - n) // (len(blob.der) + 5)))
            more += blob
            n += sum(len(x.der) + 5 for x in blob)
        chain = chain + more
        c = Sio(scen.client_config(sc), server_hostname=sc['host'])
        if mode == 'rs':
            s = Ref(scen.ref_server(sc, layout=lay, chain=[x.der for x in chain]))
        else:
            s = Sio(scen.server_config(sc, certificate_chain=[x.cert for x in chain]))
        peer = 'ref server' if mode == 'rs' else 'sio'
    seg_c, seg_s = scen.segmenters(rng)
    if size > 20000:
        seg_c, seg_s = (Segmenter(rng, rng.choice(('whole', 'split5', 'mixed'))) for _ in 'cs')
    link = Link(c, s, seg_c, seg_s)
    link.handshake()
    judge(ctx, link, peer, sc)
    ctx.count('large messages')
    ctx.seen('size', mode, size, spec['layout'], seg_c.mode, seg_s.mode)


def drizzle(rng, names):
    """ change_cipher_spec records around those messages: they are to be dropped, however many they are. """
    some = lambda: [('raw', b'\x14\x03\x03\x00\x01\x01' * rng.choice((0, 1, 1, 2, 3, 7)))]
    return {n: lambda p, m: some() + [m] + (some() if n != 'FIN' else []) for n in names if rng.random() < .5}


def run_case(spec, ctx):
    rng = ctx.rng
    if spec['what'] == 'size':
        return run_size(spec, ctx)
    if spec['what'] == 'openssl':
        return run_openssl(spec, ctx)
    sc = scenario(spec, rng)
    exp = scen.expected(sc)
    mode = spec['mode']
    extra = ''
    lay = scen.layout(rng)
    if spec['what'] == 'cut':
        lay = ref13.Layout(rng, spec['layout'], rng.choice(('none', 'random', 'max')))
    if mode == 'sio':
        c, s = scen.pair(sc)
    elif mode == 'rs':
        kw = {}
        free = spec['what'] == 'rand'
        # a conforming server has its own preferences
        if free:
            kw['groups'] = rng.sample(sc['groups_s'], len(sc['groups_s']))
            kw['send_ccs'] = rng.random() < .6
            kw['tickets'] = rng.choice((0, 0, 1, 3))
            kw['sni_ack'] = rng.random() < .4
            kw['cert_request'] = rng.random() < .25
            kw['early_app'] = rng.choice((b'', b'', b'early from the server'))
            extra = f"cr={kw['cert_request']},early={bool(kw['early_app'])}"
            if rng.random() < .3:
                kw['script'] = drizzle(rng, ('HRR', 'SH', 'EE', 'CERT', 'CV', 'FIN'))
                extra += ',ccs'
            others = [g for g in sc['groups_c'][1:] if g in ref13.GROUPS]
            if others and rng.random() < .3:
                kw['hrr_group'] = rng.choice(others)
                if rng.random() < .5:
                    kw['cookie'] = os.urandom(rng.choice((1, 32, 300)))
        c = Sio(scen.client_config(sc), server_hostname=sc['host'])
        s = Ref(scen.ref_server(sc, layout=lay, **kw))
    else:
        kw = {}
        if spec['what'] == 'rand':
            kw['shares'] = [g for g in sc['groups_c'] if rng.random() < .4]
            kw['session_id'] = os.urandom(rng.choice((0, 0, 32, 32, rng.randint(1, 31))))
            kw['send_ccs'] = rng.choice((False, True, 'late'))
            if rng.random() < .4:        # RFC 8701
                kw['suites'] = [rng.choice(GREASE)] + sc['suites_c']
                kw['groups'] = [rng.choice(GREASE)] + sc['groups_c']
                kw['sigalgs'] = [rng.choice(GREASE)] + sc['sigs_c']
                kw['versions'] = (rng.choice(GREASE), 0x0304, 0x0303)
                kw['extra_exts'] = [(rng.choice(GREASE), os.urandom(rng.choice((0, 1, 7)))),
                                    (ref13.X_PADDING, bytes(rng.randint(0, 300)))]
                if sc['alpn_c']:
                    names = [rng.choice(GREASE).to_bytes(2, 'big') for _ in range(rng.randint(1, 3))] + \
                        rng.choice(([], [b'x' * 255], [b'\xff\xfe', b'\x00', 'é'.encode()], [b'h2c', b'ftp']))
                    kw['alpn'] = [a.encode() for a in sc['alpn_c']]
                    for x in names:
                        kw['alpn'].insert(rng.randint(0, len(kw['alpn'])), x)
                extra = 'grease'
            kw['status'] = rng.random() < .3
            if rng.random() < .5:
                browser(rng, sc, kw)
                extra += ',browser'
            if rng.random() < .3:
                kw['script'] = drizzle(rng, ('CH2', 'FIN'))
                extra += ',ccs'
        if spec['what'] == 'suite-group' and spec['retry']:
            kw['shares'] = [sc['groups_c'][0]]
        c = Ref(scen.ref_client(sc, layout=lay, **kw))
        s = Sio(scen.server_config(sc))
    seg_c, seg_s = scen.segmenters(rng)
    if spec['what'] == 'cut':
        seg_c, seg_s = Segmenter(rng, spec['seg']), Segmenter(rng, spec['seg'])
    link = Link(c, s, seg_c, seg_s)
    link.handshake()
    peer = {'sio': 'sio', 'rs': 'ref server', 'rc': 'ref client'}[mode]
    retry = {'sio': lambda: exp['hrr'], 'rs': lambda: s.peer.sent_hrr,
             'rc': lambda: bool(c.peer.hrr)}[mode]()
    judge(ctx, link, peer, sc)
    if retry:
        ctx.count('completed with retry')
    got = (c if mode != 'rc' else s).conn.nconfig if mode != 'rc' else s.conn.nconfig
    ctx.seen(peer, hex(got.cipher_suite), got.key_exchange.name, got.signature_algorithm.name,
             got.server_certificate_type.name, 'retry' if retry else 'direct',
             seg_c.mode, seg_s.mode, lay.mode if mode != 'sio' else '-', extra)
    ctx.sample({'mode': mode, 'suite': got.cipher_suite.name, 'group': got.key_exchange.name,
                'scheme': got.signature_algorithm.name, 'retry': retry,
                'client bytes': len(link.c2s), 'server bytes': len(link.s2c)})


def browser(rng, sc, kw):
    """ The hellos of the browsers and of other libraries: many extensions, in any order. """
    u8, u16, v8, v16, list16 = ref13.u8, ref13.u16, ref13.v8, ref13.v16, ref13.list16
    name = b'0\x0f1\r0\x0b\x06\x03U\x04\x03\x0c\x04test'
    g = next((x for x in kw.get('groups', ()) if x in GREASE), None) or rng.choice(GREASE)
    pool = {
        23: b'', 22: b'', 18: b'', 49: b'', 13172: b'',
        0xff01: b'\x00', 11: rng.choice((b'\x01\x00', b'\x03\x00\x01\x02')), 35: rng.choice((b'', os.urandom(192))),
        45: rng.choice((b'\x01\x01', b'\x02\x01\x00', b'\x01\x00', bytes((2, g & 0xff, 1)))),
        27: v8(u16(2) + u16(1)), 17613: v16(v8(b'h2')), 17513: v16(v8(b'h2')), 0xfe0d: os.urandom(rng.randint(150, 300)),
        28: u16(rng.choice((0x4001, 0x4000, 64))), 34: list16([0x0403, 0x0503, 0x0203]),
        50: list16([g, 0x0403, 0x0804, 0x0401, 0x0601, 0x0904]),
        47: v16(v16(name) * rng.randint(1, 3)), 14: v16(u16(1) + u16(8)) + v8(rng.choice((b'', b'mki'))),
        17: v16(u8(2) + v16(v16(b'') + v16(b''))), 24: b'\x00\x12' + v8(b'\x02'), 55: b'', 0x5500: os.urandom(3),
    }
    if not kw['status']:
        pool[5] = u8(1) + v16(v16(b'\xa2\x02\x04\x00') * rng.randint(0, 2)) + v16(rng.choice((b'', b'0\x00')))
    have = {t for t, _ in kw.get('extra_exts', ())}
    exts = [(t, b) for t, b in pool.items() if t not in have and rng.random() < .5]
    if rng.random() < .5:
        # what a browser offers nowadays, and what others never stopped to offer
        kw['groups'] = [0x11ec] * (rng.random() < .8) + kw.get('groups', sc['groups_c']) + [0x100, 0x1a] * (rng.random() < .3)
    kw['sigalgs'] = kw.get('sigalgs', sc['sigs_c']) + rng.choice(([], [0x0401, 0x0501, 0x0601], [0x0203, 0x0201, 0x0904]))
    psk = None
    if rng.random() < .3:
        # a ticket of another server
        psk = (41, v16(v16(os.urandom(rng.choice((1, 32, 200)))) + os.urandom(4)) + v16(v8(os.urandom(rng.choice((32, 48))))))
        exts = [x for x in exts if x[0] != 45] + [(45, b'\x01\x01')]
    order = rng.random()

    def tweak(peer, xs):
        if 0x11ec in (peer.groups or ()) and not peer.hrr:
            xs = [(t, v16(u16(0x11ec) + v16(bytes(1216)) + b[2:]) if t == ref13.X_KEYSHARE else b) for t, b in xs]
        if g in (peer.groups or ()) and not peer.hrr:
            xs = [(t, v16(u16(g) + v16(b'\0') + b[2:]) if t == ref13.X_KEYSHARE else b) for t, b in xs]
        xs = xs + exts
        type(rng)(order).shuffle(xs)
        return xs + [psk] if psk else xs

    kw['tweak_ch'] = tweak


def judge(ctx, link, peer, sc):
    c, s = link.c, link.s
    ctx.eval()
    why = f'client: {c.error!r} server: {s.error!r} scenario: {sc}'
    ctx.require(c.connected and s.connected and not c.error and not s.error,
                f'compatible handshake with {peer} does not complete', why)
    for e in (c, s):
        if isinstance(e, Sio):
            ctx.check(e.conn.is_post_handshake(), 'connected but not post handshake', why)
    e2 = getattr(getattr(s, 'peer', None), 'early_app', b'')
    if e2:
        ctx.require(c.take() == e2, 'application data of the server first flight is lost', why)
    up, down = b'ping' * ctx.rng.choice((1, 300)), b'pong' * ctx.rng.choice((1, 300))
    try:
        c.write(up)
        s.write(down)
    except Exception as exc:
        ctx.require(False, f'cannot send application data after the handshake with {peer}', repr(exc))
    link.run()
    ctx.require(s.take() == up and c.take() == down,
                f'application data does not pass after the handshake with {peer}',
                f'client: {c.error!r} server: {s.error!r} {sc}')
    ctx.count('completed')
    ctx.count(f'completed {peer}')


OSSL_GROUPS = {0x17: 'prime256v1', 0x18: 'secp384r1', 0x19: 'secp521r1'}


def run_openssl(spec, ctx):
    import ssl
    rng = ctx.rng
    kind = rng.choice(('p256', 'p384', 'p521', 'rsa'))
    sc = scen.simple(kind=kind, via=rng.choice(('root', 'inter')),
                     suites_c=scen.some(rng, scen.SUITES), suites_s=scen.some(rng, scen.SUITES),
                     alpn_c=scen.some(rng, scen.ALPNS, 1) if rng.random() < .5 else [],
                     hb_c=rng.random() < .5, hb_s=rng.random() < .5,
                     mfl=rng.choice(scen.MFLS))
    nodes = pki.chain(pki.leaf(kind, sc['via']))
    pem = pki.root().cert.public_bytes(Encoding.PEM).decode()
    alpn = sc['alpn_s'] = scen.some(rng, scen.ALPNS, 1) if sc['alpn_c'] else []
    if alpn and not set(alpn) & set(sc['alpn_c']):
        alpn.append(sc['alpn_c'][0])
    allg = list(scen.FAST_GROUPS)
    if spec['mode'] == 'oc':
        # OpenSSL shares x25519 first: any other choice asks for a retry
        sc['groups_s'] = scen.some(rng, allg)
        sc['sigs_s'] = rng.sample(scen.SIGALGS, len(scen.SIGALGS))
        c = openssl_client(pem, sc['alpn_c'] or None, pki.HOST)
        s = Sio(scen.server_config(sc))
        retry = sc['groups_s'][0] != 0x1d
        sio = s
    else:
        sc['groups_c'] = scen.some(rng, allg)
        sc['sigs_c'] = rng.sample(scen.SIGALGS, len(scen.SIGALGS))
        c = Sio(scen.client_config(sc), server_hostname=rng.choice((pki.HOST, pki.IP)))
        s = openssl_server(nodes, alpn or None, os.environ.get('SIOTLS_SCRATCH'),
                           rng.choice((0, 2)))
        retry = False
        if rng.random() < .5:
            g = rng.choice(sorted(OSSL_GROUPS))
            s.obj.context.set_ecdh_curve(OSSL_GROUPS[g])
            if g not in sc['groups_c']:
                sc['groups_c'].append(g)
                c = Sio(scen.client_config(sc), server_hostname=pki.HOST)
            retry = sc['groups_c'][0] != g
        sio = c
    seg_c, seg_s = scen.segmenters(rng)
    link = Link(c, s, seg_c, seg_s).handshake()
    judge(ctx, link, 'openssl', sc)
    ossl = c if isinstance(c, OpenSSL) else s
    got = sio.conn.nconfig
    ctx.require(ossl.obj.version() == 'TLSv1.3', 'openssl negotiated another version', ossl.obj.version())
    ctx.require(ossl.obj.selected_alpn_protocol() == (got.alpn or None) or not alpn,
                'openssl and siotls disagree on the application protocol',
                f'{ossl.obj.selected_alpn_protocol()} {got.alpn}')
    name = {0x1303: 'TLS_CHACHA20_POLY1305_SHA256', 0x1302: 'TLS_AES_256_GCM_SHA384',
            0x1301: 'TLS_AES_128_GCM_SHA256', 0x1304: 'TLS_AES_128_CCM_SHA256',
            0x1305: 'TLS_AES_128_CCM_8_SHA256'}[got.cipher_suite]
    ctx.require(ossl.obj.cipher()[0] == name, 'openssl and siotls disagree on the suite',
                f'{ossl.obj.cipher()} {name}')
    if retry:
        ctx.count('completed with retry')
    ctx.seen('openssl', spec['mode'], name, got.key_exchange.name, got.signature_algorithm.name,
             'retry' if retry else 'direct', seg_c.mode, seg_s.mode)
