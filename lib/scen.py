"""
Scenarios: JSON-able descriptions of a client and a server configuration, how to
build the siotls configurations from them, and what has to be negotiated,
computed here from the property's text (the server's preferences decide).
"""
from siotls import TLSConfiguration
from siotls.iana import (
    ALPNProtocol, CipherSuites, MaxFragmentLengthOctets, NamedGroup, SignatureScheme)

from . import pki, ref13
from .link import Link, Segmenter, Sio

SUITES = (0x1303, 0x1302, 0x1301, 0x1304, 0x1305)
FAST_GROUPS = (0x1d, 0x17, 0x18, 0x19, 0x1e, 0x100)
SLOW_GROUPS = (0x101, 0x102, 0x103, 0x104)
SIGALGS = tuple(ref13.TLS13_SIGS)
ALPNS = ('http/1.1', 'h2', 'http/1.0', 'imap', 'dot', 'mqtt')
MFLS = (16384, 512, 1024, 2048, 4096)
KINDS = ('p256', 'p384', 'p521', 'rsa', 'ed25519', 'ed448', 'rsapss')


def some(rng, items, lo=1):
    return rng.sample(list(items), rng.randint(lo, len(items)))


def leaf_node(kind, via='root', n=0):
    if kind == 'rsapss':
        return pki.pss_cert()
    return pki.leaf(kind, via, n=n)


def private_key(sc):
    return leaf_node(sc['kind'], sc['via']).key


def own_schemes(sc):
    """ Schemes the server's key can sign with, given how it is certified. """
    pss = sc['kind'] == 'rsapss' and 'x509' in sc['server_certs']
    return ref13.schemes_for(private_key(sc).public_key(), pss)


def rand(rng, slow=False, compatible=None):
    """
    compatible: True (default for most checks), False (at least one
    mandatory parameter without common value), None (as it comes).
    """
    kind = rng.choice(KINDS)
    groups = FAST_GROUPS + (SLOW_GROUPS if slow else ())
    server_certs = rng.choice((['x509'], ['x509'], ['raw'], ['x509', 'raw']))
    if kind == 'rsapss' and server_certs == ['x509', 'raw']:
        server_certs = ['x509']
    sc = {
        'kind': kind, 'via': rng.choice(('root', 'inter')),
        'server_certs': server_certs,
        'suites_c': some(rng, SUITES), 'suites_s': some(rng, SUITES),
        'groups_c': some(rng, groups), 'groups_s': some(rng, groups),
        'sigs_c': some(rng, SIGALGS), 'sigs_s': some(rng, SIGALGS),
        'alpn_c': some(rng, ALPNS, 0) if rng.random() < .6 else [],
        'alpn_s': some(rng, ALPNS, 0) if rng.random() < .6 else [],
        'mfl': rng.choice(MFLS), 'hb_c': rng.random() < .5, 'hb_s': rng.random() < .5,
        'host': rng.choice((None, pki.HOST, pki.HOST, pki.IP)),
        'own': rng.choice((None, None, None, 'x509', 'raw', 'both')),       # of the client
    }
    trusts = [['none']]
    if kind in pki.X509_KINDS:
        trusts += [['store'], ['store']]
    trusts += [['keys'], ['store', 'keys']] if kind != 'rsapss' else [['keys']]
    sc['trust'] = rng.choice(trusts)
    if kind not in pki.X509_KINDS and 'store' in sc['trust'] and 'raw' not in server_certs:
        sc['trust'] = ['none']
    if kind not in pki.X509_KINDS and 'store' in sc['trust'] and server_certs == ['x509', 'raw']:
        sc['trust'] = ['keys']
    if compatible is True:
        own = own_schemes(sc)
        if not set(sc['suites_c']) & set(sc['suites_s']):
            sc['suites_c'].insert(rng.randint(0, len(sc['suites_c'])), rng.choice(sc['suites_s']))
        if not set(sc['groups_c']) & set(sc['groups_s']):
            sc['groups_c'].insert(rng.randint(0, len(sc['groups_c'])), rng.choice(sc['groups_s']))
        if not set(sc['sigs_c']) & set(sc['sigs_s']) & set(own):
            s = rng.choice(own)
            for k in ('sigs_c', 'sigs_s'):
                if s not in sc[k]:
                    sc[k].insert(rng.randint(0, len(sc[k])), s)
        if not set(offered_types(sc)) & set(server_certs):
            sc['server_certs'] = ['raw'] if offered_types(sc) == ['raw'] else ['x509']
            if not set(sc['sigs_c']) & set(sc['sigs_s']) & set(own_schemes(sc)):
                return rand(rng, slow, compatible)
        if sc['trust'] in (['store'], ['store', 'keys']) and kind not in pki.X509_KINDS \
                and expected_type(sc) == 'x509':
            return rand(rng, slow, compatible)
        if sc['alpn_c'] and sc['alpn_s'] and not set(sc['alpn_c']) & set(sc['alpn_s']):
            sc['alpn_c'].append(rng.choice(sc['alpn_s']))
        assert not failures(sc), sc
    elif compatible is False:
        what = rng.choice(('suite', 'group', 'sig', 'alpn', 'type'))
        base = rand(rng, slow, True)
        if what == 'suite':
            base['suites_c'] = some(rng, SUITES[:2])
            base['suites_s'] = some(rng, SUITES[2:])
        elif what == 'group':
            g = rng.sample(groups, len(groups))
            base['groups_c'], base['groups_s'] = g[:2], g[2:5]
        elif what == 'sig':
            s = rng.sample(SIGALGS, len(SIGALGS))
            base['sigs_c'], base['sigs_s'] = s[:5], s[5:]
        elif what == 'alpn':
            a = rng.sample(ALPNS, len(ALPNS))
            base['alpn_c'], base['alpn_s'] = a[:rng.randint(1, 3)], a[3:]
        else:
            base['kind'] = 'p256'
            base['sigs_c'] = base['sigs_s'] = [0x0403]
            base['host'] = pki.HOST
            if rng.random() < .5:
                base['server_certs'], base['trust'] = ['x509'], ['keys']
            else:
                base['server_certs'], base['trust'] = ['raw'], rng.choice((['store'], ['none']))
        assert failures(base), base
        return base
    return sc


def offered_types(sc):
    """ certificate types a siotls client accepts, as it advertises them """
    if 'keys' in sc['trust']:
        return (['x509'] if 'store' in sc['trust'] else []) + ['raw']
    return ['x509']


def first(mine, theirs):
    return next((m for m in mine if m in theirs), None)


def expected_type(sc):
    return first(sc['server_certs'], offered_types(sc))


def failures(sc):
    """ The set of alerts one of which has to be raised; empty when compatible. """
    out = set()
    if first(sc['suites_s'], sc['suites_c']) is None:
        out.add('handshake_failure')
    if first(sc['groups_s'], sc['groups_c']) is None:
        out.add('handshake_failure')
    if first([s for s in sc['sigs_s'] if s in own_schemes(sc)], sc['sigs_c']) is None:
        out.add('handshake_failure')
    if expected_type(sc) is None:
        out.add('unsupported_certificate')
    if sc['alpn_c'] and sc['alpn_s'] and first(sc['alpn_s'], sc['alpn_c']) is None:
        out.add('no_application_protocol')
    return out


def expected(sc):
    return {
        'suite': first(sc['suites_s'], sc['suites_c']),
        'group': first(sc['groups_s'], sc['groups_c']),
        'sig': first([s for s in sc['sigs_s'] if s in own_schemes(sc)], sc['sigs_c']),
        'alpn': first(sc['alpn_s'], sc['alpn_c']) if sc['alpn_c'] and sc['alpn_s'] else None,
        'type': {'x509': 0, 'raw': 2}[expected_type(sc)],
        'mfl': sc['mfl'],
        'hrr': first(sc['groups_s'], sc['groups_c']) != sc['groups_c'][0],
    }


def client_config(sc, **kw):
    d = dict(
        cipher_suites=[CipherSuites(x) for x in sc['suites_c']],
        key_exchanges=[NamedGroup(x) for x in sc['groups_c']],
        signature_algorithms=[SignatureScheme(x) for x in sc['sigs_c']],
        alpn=[ALPNProtocol(x) for x in sc['alpn_c']],
        max_fragment_length=MaxFragmentLengthOctets(sc['mfl']),
        can_echo_heartbeat=sc['hb_c'],
    )
    if 'store' in sc['trust']:
        d['trust_store'] = pki.store()
    if 'keys' in sc['trust']:
        d['trusted_public_keys'] = [pki.key('p256', 'decoy').public_key(),
                                    private_key(sc).public_key()]
    own = sc.get('own')
    if own:
        node = leaf_node('p256', 'root')
        d['private_key'] = node.key
        if own != 'raw':
            d['certificate_chain'] = [n.cert for n in pki.chain(node)]
        if own != 'x509':
            d['public_key'] = node.key.public_key()
    return TLSConfiguration('client', **{**d, **kw})


def own_types(sc):
    """ The types of certificate that the client announces for itself. """
    return {'raw': [2], 'both': [0, 2]}.get(sc.get('own'))


def server_config(sc, **kw):
    node = leaf_node(sc['kind'], sc['via'])
    d = dict(
        cipher_suites=[CipherSuites(x) for x in sc['suites_s']],
        key_exchanges=[NamedGroup(x) for x in sc['groups_s']],
        signature_algorithms=[SignatureScheme(x) for x in sc['sigs_s']],
        alpn=[ALPNProtocol(x) for x in sc['alpn_s']],
        can_echo_heartbeat=sc['hb_s'],
        private_key=node.key,
    )
    if 'x509' in sc['server_certs']:
        d['certificate_chain'] = [n.cert for n in pki.chain(node)] or [node.cert]
    if 'raw' in sc['server_certs']:
        d['public_key'] = node.key.public_key()
    return TLSConfiguration('server', **{**d, **kw})


def pair(sc, ckw=None, skw=None, c_conn=None, s_conn=None, configs=None):
    """ (Sio client, Sio server) """
    cc, cs = configs or (client_config(sc, **(ckw or {})), server_config(sc, **(skw or {})))
    return (Sio(cc, server_hostname=sc['host'], **(c_conn or {})), Sio(cs, **(s_conn or {})))


SIMPLE = {
    'kind': 'p256', 'via': 'root', 'server_certs': ['x509'],
    'suites_c': [0x1303, 0x1302, 0x1301], 'suites_s': [0x1303, 0x1302, 0x1301],
    'groups_c': [0x1d, 0x17], 'groups_s': [0x1d, 0x17],
    'sigs_c': list(SIGALGS), 'sigs_s': list(SIGALGS),
    'alpn_c': [], 'alpn_s': [], 'mfl': 16384, 'hb_c': True, 'hb_s': True,
    'host': pki.HOST, 'trust': ['store'],
}


def simple(**kw):
    return {**SIMPLE, **kw}


def connected_pair(sc=None, seg_c=None, seg_s=None, **kw):
    """ A Link whose siotls client and server went through the handshake. """
    c, s = pair(sc or SIMPLE, **kw)
    link = Link(c, s, seg_c, seg_s).handshake()
    return link


def segmenters(rng):
    return (Segmenter(rng, rng.choice(Segmenter.MODES)), Segmenter(rng, rng.choice(Segmenter.MODES)))


def ref_server(sc, rng=None, **kw):
    """ A RefServer which a client of `sc` accepts. """
    node = leaf_node(sc['kind'], sc['via'])
    typ = expected_type(sc)
    d = dict(chain=[n.der for n in pki.chain(node)] or [node.der], key=node.key,
             suites=sc['suites_s'], groups=sc['groups_s'], sigalgs=sc['sigs_s'],
             alpn=[a.encode() for a in sc['alpn_s']] or None,
             heartbeat=(1 if sc['hb_s'] else 2),
             pss_oid=sc['kind'] == 'rsapss' and typ == 'x509')
    if typ == 'raw':
        d['raw_public_key'] = pki.spki(node.key.public_key())
    d.update(kw)
    if d['alpn'] is not None and not sc['alpn_c']:
        d['alpn'] = None
    return ref13.RefServer(**d)


def ref_client(sc, shares=None, **kw):
    """ A RefClient which a server of `sc` accepts. """
    types = offered_types(sc)
    d = dict(suites=sc['suites_c'], groups=sc['groups_c'], sigalgs=sc['sigs_c'],
             shares=shares, alpn=[a.encode() for a in sc['alpn_c']] or None,
             sni=sc['host'].encode() if sc['host'] and sc['host'] != pki.IP else None,
             mfl={512: 1, 1024: 2, 2048: 3, 4096: 4}.get(sc['mfl']),
             heartbeat=1 if sc['hb_c'] else 2,
             server_cert_types=[{'x509': 0, 'raw': 2}[t] for t in types]
             if 'raw' in types else None)
    d.update(kw)
    return ref13.RefClient(**d)


def layout(rng, **kw):
    return ref13.Layout(rng, rng.choice(ref13.Layout.MODES), rng.choice(('none', 'random', 'max')), **kw)
