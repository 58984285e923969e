""" C05: a client only connects to the authenticated server it asked for. """
import os
from datetime import timedelta

from cryptography import x509
from siotls import TLSConfiguration, TLSError
from siotls.iana import SignatureScheme

from lib import pki, ref13, scen
from lib.link import Link, Ref, Sio, alert_name
from lib.pki import HOST, HOUR, IP

PID, LEVEL = 'C05', 'exploration'
RULE = ('distinct (deviation, key kind, certificate type, trust) impostors refused and '
        'legitimate identities accepted')
ASSUMPTIONS = ['the chain verifier of the cryptography package implements RFC 5280',
               'without host name the client cannot check a name, which the documentation warns about: '
               'all the rest is still judged']
MINIMUM = {'impostors judged': 300, 'legitimate servers accepted': 120,
           'impostors facing nameless clients': 10, 'nameless clients served': 6}


# ---- identities: each returns (DER chain, private key)
def pk(rng, kind=None):
    return pki.key(kind or rng.choice(('p256', 'p384', 'rsa')), 0 if kind == 'rsa' else 'leaf0')


def leafkw(**kw):
    return {'sans': (HOST, 'ip:' + IP), 'eku': pki.SERVER_AUTH, **kw}


def ders(*nodes):
    return [n.der for n in nodes]


def chain_of(rng, **kw):
    """ leaf (with kw overriding) below root or an intermediate """
    key = kw.pop('key', None) or pk(rng)
    if rng.random() < .5:
        leaf = pki.make('leaf', key, pki.root(), **leafkw(**kw))
        return ders(leaf), key
    leaf = pki.make('leaf', key, pki.inter(), **leafkw(**kw))
    return ders(leaf, pki.inter()), key


def other_root():
    return pki.root(7)


def b_self_signed(rng):
    k = pk(rng)
    return ders(pki.make('leaf', k, None, **leafkw())), k


def b_self_signed_ca(rng):
    k = pk(rng)
    n = pki.make('leaf', k, None, ca=True, path_length=0, **leafkw())
    return ders(n), k


def b_unknown_root(rng):
    k = pk(rng)
    return ders(pki.make('leaf', k, other_root(), **leafkw()), other_root()), k


def b_fake_root(rng):
    """ a root with the trusted one's name, but another key """
    k = pk(rng)
    fake = pki.make(f'test root 0 p256', pki.key('p256', 'fakeroot'), ca=True, path_length=3)
    return ders(pki.make('leaf', k, fake, **leafkw()), fake), k


def b_expired(rng):
    t = pki.now()
    return chain_of(rng, before=t - 90 * HOUR, after=t - timedelta(seconds=rng.choice((30, 3600, 86400))))


def b_not_yet(rng):
    t = pki.now()
    return chain_of(rng, before=t + timedelta(seconds=rng.choice((600, 86400))), after=t + 90 * HOUR)


def b_other_host(rng):
    return chain_of(rng, sans=(rng.choice(('other.siotls.localhost', 'siotls.localhost', 'a.' + HOST,
                                           'xserver.siotls.localhost', 'server.siotls.localhost.evil.test')),))


def b_wildcard_too_broad(rng):
    return chain_of(rng, sans=(rng.choice(('*.localhost', '*.other.localhost', '*.a.siotls.localhost')),))


def b_no_san(rng):
    k = pk(rng)
    return ders(pki.make(HOST, k, pki.root(), eku=pki.SERVER_AUTH)), k


def b_client_eku(rng):
    return chain_of(rng, eku=pki.CLIENT_AUTH)


def b_leaf_as_issuer(rng):
    k = pk(rng)
    mid = pki.make('mid', pki.key('p256', 'mid'), pki.root(), **leafkw())
    return ders(pki.make('leaf', k, mid, **leafkw()), mid), k


def b_inter_not_ca(rng):
    k = pk(rng)
    mid = pki.make('mid', pki.key('p256', 'mid'), pki.root(), ca=False)
    return ders(pki.make('leaf', k, mid, **leafkw()), mid), k


def b_path_length(rng):
    k = pk(rng)
    sub = pki.make('sub', pki.key('p256', 'sub'), pki.inter(), ca=True, path_length=0)
    return ders(pki.make('leaf', k, sub, **leafkw()), sub, pki.inter()), k


def b_expired_inter(rng):
    k, t = pk(rng), pki.now()
    mid = pki.make('mid', pki.key('p256', 'mid'), pki.root(), ca=True, path_length=0,
                   before=t - 90 * HOUR, after=t - HOUR)
    return ders(pki.make('leaf', k, mid, **leafkw()), mid), k


def b_missing_inter(rng):
    k = pk(rng)
    return ders(pki.make('leaf', k, pki.inter(), **leafkw())), k


def b_name_constraint(rng):
    k = pk(rng)
    mid = pki.make('mid', pki.key('p256', 'mid'), pki.root(), ca=True, path_length=0,
                   constraints=x509.NameConstraints([x509.DNSName('allowed.test')], None))
    return ders(pki.make('leaf', k, mid, **leafkw(sans=(HOST,))), mid), k


def b_critical_unknown(rng):
    return chain_of(rng, critical_unknown=True)


def b_bad_signature(rng):
    return chain_of(rng, sign_key=pki.key('p256', 'someone else'))


def b_flipped_cert(rng):
    chain, k = chain_of(rng)
    leaf = bytearray(chain[0])
    i = len(leaf) - rng.randint(1, 40)       # inside of the signature
    leaf[i] ^= 1 << rng.randrange(8)
    return [bytes(leaf), *chain[1:]], k


def b_too_deep(rng):
    k = pk(rng)
    up, nodes = pki.root(), []
    for i in range(3):
        up = pki.make(f'deep {i}', pki.key('p256', f'deep{i}'), up, ca=True, path_length=None)
        nodes.insert(0, up)
    return ders(pki.make('leaf', k, up, **leafkw()), *nodes), k


def b_other_leaf_first(rng):
    """ the trusted certificate comes second, behind the impostor's """
    k = pki.key('p256', 'impostor')
    good = pki.leaf('p256')
    return ders(pki.make('leaf', k, None, **leafkw()), good), k


def b_empty(rng):
    return [], pk(rng)


# only the name tells those are impostors
NAME_ONLY = {'other_host', 'wildcard_too_broad', 'no_san'}
BAD_CHAINS = [n[2:] for n in list(globals()) if n.startswith('b_')]


def deviations(kind):
    return {
        # possession of the key
        'cv-other-key': 'cv', 'cv-flip': 'cv', 'cv-client-context': 'cv', 'cv-no-context': 'cv',
        'cv-other-transcript': 'cv', 'cv-replayed': 'cv', 'cv-empty': 'cv', 'cv-missing': 'cv',
        'cv-zeroes': 'cv', 'cv-other-scheme-same-sig': 'cv', 'cv-unoffered': 'cv',
        'cv-foreign-scheme': 'cv', 'cv-hash-of-transcript-only': 'cv', 'cv-transcript-without-cert': 'cv',
        # finished
        'fin-flip': 'fin', 'fin-zero': 'fin', 'fin-short': 'fin', 'fin-empty': 'fin', 'fin-long': 'fin',
        'fin-client-key': 'fin', 'fin-other-transcript': 'fin', 'fin-missing': 'fin', 'fin-swapped': 'fin',
        'cert-swapped-after': 'cert', 'cert-none': 'cert', 'cert-missing': 'cert',
    }


DEVIATIONS = list(deviations('p256'))
RAW = ('untrusted', 'untrusted-same-kind', 'trusted-not-owned', 'x509-instead', 'x509-announced-raw',
       'raw-not-announced', 'two-keys', 'empty', 'garbage', 'store-only')
GOOD = ('dns', 'ip', 'wildcard', 'upper', 'many-sans', 'inter', 'deep', 'many-roots', 'raw', 'raw-second',
        'both-x509', 'both-raw', 'idn', 'with-root', 'no-trust', 'ipv6', 'disordered', 'dot')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 30
    out = [{'what': 'chain', 'bad': b, 'n': n} for b in BAD_CHAINS for n in range(8 * k)]
    out += [{'what': 'deviate', 'how': h, 'n': n, 'raw': raw} for h in DEVIATIONS for raw in (False, True)
            for n in range(4 * k)]
    out += [{'what': 'raw', 'how': h, 'n': n} for h in RAW for n in range(5 * k)]
    out += [{'what': 'good', 'how': h, 'n': n} for h in GOOD for n in range(12 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)


def connect(ctx, config, server, host=HOST):
    rng = ctx.rng
    c = Sio(config, server_hostname=host)
    early = []
    real = c.feed

    def feed(data):
        # whoever it talks to, it cannot send before it is connected
        if not c.connected and rng.random() < .2:
            try:
                c.conn.send_data(b'secret')
                early.append(c.conn._state.name() if hasattr(c.conn, '_state') else '?')
            except Exception:
                pass
        real(data)
    c.feed = feed
    s = Ref(server)
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.check(not early, 'application data can be sent before the server is authenticated', early)
    return c, s, link


def refused(ctx, c, s, link, why):
    ctx.eval()
    ctx.count('impostors judged')
    ctx.check(not c.connected, f'client connects to an impostor: {why}', repr(s.error))
    data = c.take()
    ctx.check(not data, f'client delivers data of an impostor: {why}', data)
    ctx.check(isinstance(c.error, TLSError), f'client does not fail with a TLS error: {why}', repr(c.error))
    if isinstance(c.error, TLSError):
        ctx.check(alert_name(c.error) not in (None, 'close_notify', 'internal_error'),
                  f'client does not fail with a fatal alert: {why}', repr(c.error))
        ctx.check(len(s.peer.alerts_in) == 1 and s.peer.alerts_in[0][0] == 2,
                  f'no fatal alert reaches the impostor: {why}', f'{s.peer.alerts_in} {s.error!r}')
    try:
        c.conn.send_data(b'secret')
        ctx.check(False, f'client can send data to an impostor: {why}', '')
    except Exception:
        pass
    ctx.check(not any(n == 'FIN' for n, _, _ in s.peer.rx_msgs),
              f'client sends its Finished to an impostor: {why}', '')
    ctx.check(not s.peer.app_in, f'application data reaches an impostor: {why}', '')


def server(rng, chain, key, **kw):
    d = dict(lenient=True, layout=scen.layout(rng), early_app=b'trust me' if rng.random() < .7 else b'',
             tickets=rng.choice((0, 1)), cert_request=rng.random() < .25,
             hrr_group=0x17 if rng.random() < .15 else None)
    return ref13.RefServer(chain, key, **{**d, **kw})


def run_chain(spec, ctx):
    rng = ctx.rng
    chain, key = globals()['b_' + spec['bad']](rng)
    host = rng.choice((HOST, IP)) if 'host' not in spec['bad'] and 'wildcard' not in spec['bad'] \
        and spec['bad'] != 'name_constraint' else HOST
    if spec['bad'] not in NAME_ONLY and rng.random() < .25:
        host = rng.choice((None, ''))  # no name to check, all the rest still
        ctx.count('impostors facing nameless clients')
    kw = {'max_chain_depth': 1} if spec['bad'] == 'too_deep' else {}
    if rng.random() < .3:
        kw['trusted_public_keys'] = [pki.key('p256', 'decoy').public_key()]
    roots = [pki.root()] + ([pki.root(3)] if rng.random() < .5 else [])
    config = TLSConfiguration('client', trust_store=pki.store(*roots), **kw)
    c, s, link = connect(ctx, config, server(rng, chain, key), host)
    refused(ctx, c, s, link, spec['bad'])
    ctx.seen('chain', spec['bad'], type(key).__name__, len(chain), host, alert_name(c.error))
    ctx.sample({'impostor': spec['bad'], 'alert': alert_name(c.error), 'chain': len(chain)})


_recorded = {}


def run_deviate(spec, ctx):
    rng, how, raw = ctx.rng, spec['how'], spec['raw']
    kind = rng.choice(('p256', 'p384', 'rsa') if not raw else ('p256', 'rsa', 'ed25519', 'ed448'))
    node = pki.leaf(kind, rng.choice(('root', 'inter')))
    R = ref13
    own = R.schemes_for(node.key.public_key())
    impostor = pki.key(kind, 'impostor') if kind != 'rsa' else pki.key('rsa', 1)
    cv_msg = lambda scheme, sig: R.hs(R.CV, R.u16(scheme) + R.v16(sig))
    offered = list(scen.SIGALGS)
    scheme = own[0] if how in ('cv-unoffered',) else rng.choice(own)
    kwc = {}

    def cv(p, m):
        good = m
        ctxt = R.CV_SERVER + p.th()
        sgn = lambda data, key=node.key, sch=None: cv_msg(p.scheme, R.sign(key, sch or p.scheme, data))
        if how == 'cv-other-key':
            return [sgn(ctxt, impostor)]
        if how == 'cv-flip':
            b = bytearray(good)
            b[rng.randrange(8, len(b))] ^= 1 << rng.randrange(8)
            return [bytes(b)]
        if how == 'cv-client-context':
            return [sgn(R.CV_CLIENT + p.th())]
        if how == 'cv-no-context':
            return [sgn(p.th())]
        if how == 'cv-hash-of-transcript-only':
            return [sgn(R.CV_SERVER[64:] + p.th())]
        if how == 'cv-other-transcript':
            return [sgn(R.CV_SERVER + os.urandom(len(p.th())))]
        if how == 'cv-transcript-without-cert':
            import hashlib
            h = hashlib.new(p.suite.hash, b''.join(p.msgs[:-1])).digest()
            return [sgn(R.CV_SERVER + h)]
        if how == 'cv-replayed':
            import hashlib
            return [sgn(R.CV_SERVER + hashlib.new(p.suite.hash, b'an older handshake').digest())]
        if how == 'cv-empty':
            return [cv_msg(p.scheme, b'')]
        if how == 'cv-zeroes':
            return [cv_msg(p.scheme, bytes(len(good) - 8))]
        if how == 'cv-missing':
            return []
        if how == 'cv-other-scheme-same-sig':
            others = [x for x in own if x != p.scheme] or [x for x in scen.SIGALGS if x not in own]
            return [cv_msg(rng.choice(others), good[8:])]
        if how == 'cv-foreign-scheme':
            return [cv_msg(rng.choice([x for x in scen.SIGALGS if x not in own]), good[8:])]
        return [good]

    def fin(p, m):
        verify = m[4:]
        if how == 'fin-flip':
            b = bytearray(verify)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            return [R.hs(R.FIN, bytes(b))]
        if how == 'fin-zero':
            return [R.hs(R.FIN, bytes(len(verify)))]
        if how == 'fin-short':
            return [R.hs(R.FIN, verify[:rng.choice((1, 12, len(verify) - 1))])]
        if how == 'fin-long':
            return [R.hs(R.FIN, verify + b'\x00')]
        if how == 'fin-empty':
            return [R.hs(R.FIN, b'')]
        if how == 'fin-client-key':
            return [R.hs(R.FIN, p.sched.finished(p.sched.c_hs, p.th()))]
        if how == 'fin-other-transcript':
            import hashlib
            h = hashlib.new(p.suite.hash, b''.join(p.msgs[:-1])).digest()
            return [R.hs(R.FIN, p.sched.finished(p.sched.s_hs, h))]
        if how == 'fin-missing':
            return []
        if how == 'fin-swapped':
            return [R.hs(R.FIN, verify[::-1])]
        return [m]

    def cert(p, m):
        if how == 'cert-none':
            return [R.hs(R.CERT, R.v8(b'') + R.v24(b''))]
        if how == 'cert-missing':
            return []
        if how == 'cert-swapped-after':
            # what is hashed is not what is sent
            other = pki.leaf('p256', n=5)
            body = (R.v24(other.spki) if raw else R.v24(other.der)) + R.v16(b'')
            return [('wire', m, R.hs(R.CERT, R.v8(b'') + R.v24(body)))]
        return [m]

    if how == 'cv-unoffered':
        offered = [x for x in scen.SIGALGS if x != scheme]
        kwc['signature_algorithms'] = [SignatureScheme(x) for x in offered]
    config = TLSConfiguration('client', **kwc, **(
        {'trusted_public_keys': [node.key.public_key()]} if raw else {'trust_store': pki.store()}))
    kw = {'raw_public_key': node.spki} if raw else {}
    srv = server(rng, ders(*pki.chain(node)), node.key, script={'CV': cv, 'FIN': fin, 'CERT': cert},
                 select={'sig': scheme}, **kw)
    c, s, link = connect(ctx, config, srv)
    if how.endswith('-missing'):
        # nothing wrong came yet, except what the server sends too early
        if c.error is None and not srv.early_app:
            ctx.check(not c.connected, f'client connects to an impostor: {how}', '')
            srv.send_app(b'hello?')
            link.run()
    refused(ctx, c, s, link, how)
    ctx.seen('deviate', how, kind, raw, alert_name(c.error))


def run_raw(spec, ctx):
    rng, how = ctx.rng, spec['how']
    kind = rng.choice(('p256', 'ed25519', 'rsa'))
    node = pki.leaf(kind)
    trusted = [pki.key('p256', 'decoy').public_key(), node.key.public_key()]
    kwc = dict(trusted_public_keys=trusted)
    impostor = pki.key(kind, 'impostor') if kind != 'rsa' else pki.key('rsa', 1)
    chain, key, rpk, script, kw = ders(*pki.chain(node)), node.key, node.spki, {}, {}
    R = ref13
    certmsg = lambda *entries: (lambda p, m: [R.hs(R.CERT, R.v8(b'') + R.v24(
        b''.join(R.v24(e) + R.v16(b'') for e in entries)))])
    if how == 'untrusted':
        other = pki.leaf('p384', n=3)
        key, rpk = other.key, other.spki
    elif how == 'untrusted-same-kind':
        key, rpk = impostor, pki.spki(impostor.public_key())
    elif how == 'trusted-not-owned':
        key = impostor
    elif how == 'x509-instead':
        rpk = None           # a perfectly valid certificate, never asked for
    elif how == 'x509-announced-raw':
        script['CERT'] = certmsg(*chain)
    elif how == 'raw-not-announced':
        script['EE'] = lambda p, m: [R.ee_with(m, drop=(R.X_SCERTT,))]
    elif how == 'two-keys':
        key = impostor
        script['CERT'] = certmsg(pki.spki(impostor.public_key()), node.spki)
    elif how == 'empty':
        script['CERT'] = certmsg()
    elif how == 'garbage':
        script['CERT'] = certmsg(os.urandom(rng.choice((1, 44, 91))))
    elif how == 'store-only':
        # a raw key nobody offered to accept
        kwc = dict(trust_store=pki.store())
        script['EE'] = lambda p, m: [R.ee_with(m, add=[(R.X_SCERTT, b'\x02')])]
        script['CERT'] = certmsg(node.spki)
    config = TLSConfiguration('client', **kwc)
    c, s, link = connect(ctx, config, server(rng, chain, key, raw_public_key=rpk, script=script))
    refused(ctx, c, s, link, 'raw key ' + how)
    ctx.seen('raw', how, kind, alert_name(c.error))


def run_good(spec, ctx):
    rng, how = ctx.rng, spec['how']
    kw, host = {'trust_store': pki.store()}, HOST
    rpk = None
    key = pk(rng)
    t = pki.now()
    if how == 'dns':
        chain, key = chain_of(rng, sans=(HOST,), before=t - timedelta(seconds=2), after=t + HOUR)
    elif how == 'ip':
        chain, key = chain_of(rng, sans=('ip:' + IP,))
        host = IP
    elif how == 'ipv6':
        chain, key = chain_of(rng, sans=('ip:fe80::1:2',))
        host = rng.choice(('fe80::1:2', 'fe80:0:0:0:0:0:1:2'))
    elif how == 'wildcard':
        chain, key = chain_of(rng, sans=('*.siotls.localhost',))
    elif how == 'upper':
        chain, key = chain_of(rng, sans=(HOST,))
        host = rng.choice(('SERVER.siotls.localhost', 'Server.Siotls.Localhost'))
    elif how == 'dot':
        chain, key = chain_of(rng, sans=(HOST,))
        host = HOST + '.'
    elif how == 'many-sans':
        chain, key = chain_of(rng, sans=('a.test', 'ip:10.0.0.1', 'b.test', HOST))
    elif how in ('inter', 'disordered'):
        other = pki.make('unused', pki.key('p256', 'unused'), pki.root(), ca=True, path_length=0)
        leaf = pki.make('leaf', key, pki.inter(), **leafkw())
        chain = ders(leaf, pki.inter()) if how == 'inter' else ders(leaf, other, pki.inter())
    elif how == 'deep':
        up, nodes = pki.root(), []
        for i in range(2):
            up = pki.make(f'deep {i}', pki.key('p256', f'deep{i}'), up, ca=True, path_length=None)
            nodes.insert(0, up)
        chain = ders(pki.make('leaf', key, up, **leafkw()), *nodes)
    elif how == 'with-root':
        chain = ders(pki.make('leaf', key, pki.root(), **leafkw()), pki.root())
    elif how == 'many-roots':
        chain, key = chain_of(rng)
        kw = {'trust_store': pki.store(other_root(), pki.root(), pki.root(3))}
    elif how == 'idn':
        chain, key = chain_of(rng, sans=('xn--bcher-kva.siotls.localhost',))
        host = 'bücher.siotls.localhost'
    elif how == 'no-trust':
        chain, key = b_self_signed(rng)
        kw = {}
    elif how in ('raw', 'raw-second', 'both-raw'):
        key = pki.key(rng.choice(('p256', 'p521', 'ed25519', 'ed448')), 'leaf0')
        chain, rpk = [], pki.spki(key.public_key())
        mine = [key.public_key()] if how == 'raw' else [pki.key('p256', 'decoy').public_key(), key.public_key()]
        kw = {'trusted_public_keys': mine}
        if how == 'both-raw':
            kw['trust_store'] = pki.store()
    elif how == 'both-x509':
        chain, key = chain_of(rng)
        kw['trusted_public_keys'] = [pki.key('p256', 'decoy').public_key()]
    config = TLSConfiguration('client', **kw)
    if rng.random() < .15:
        host = rng.choice((None, ''))
        ctx.count('nameless clients served')
    srv = ref13.RefServer(chain, key, raw_public_key=rpk, layout=scen.layout(rng),
                          hrr_group=rng.choice((None, None, 0x17)), cert_request=rng.random() < .25)
    c, s, link = connect(ctx, config, srv, host)
    ctx.eval()
    named = [h['sni'] for h in srv.chs if 'sni' in h]
    ctx.check(not any(str(x).rstrip("'").endswith('.') for x in named), 'the name asked for ends with a dot', repr(named))
    ctx.check(c.connected and s.connected and c.error is None, f'legitimate server refused: {how}',
              f'{c.error!r} cause={getattr(c.error, "__cause__", None)!r} {s.error!r}')
    if c.connected:
        n = c.conn.nconfig
        if rpk:
            ctx.check(n.peer_public_key is not None and pki.spki(n.peer_public_key) == rpk,
                      'the authenticated public key is not the one reported', '')
        else:
            ctx.check(n.peer_certificate is not None and
                      n.peer_certificate == x509.load_der_x509_certificate(chain[0]),
                      'the authenticated certificate is not the one reported', '')
        ctx.count('legitimate servers accepted')
    ctx.seen('good', how, type(key).__name__)
