""" C02: negotiated parameters are offered by both, preferred by the server, agreed. """
import os

from siotls.iana import ALPNProtocol

from lib import pki, ref13, scen
from lib.link import Link, Ref, Sio, alert_name

PID, LEVEL = 'C02', 'exploration'
RULE = ('distinct outcomes: negotiated (suite, group, scheme, ALPN, certificate type, limit) tuples, '
        'refused scenarios by alert, and unoffered selections by kind')
ASSUMPTIONS = ['the expected selection is computed from the property text by lib/scen.py',
               'a server that has no ALPN configured ignores the ALPN extension (RFC 7301)']
MINIMUM = {'agreed': 200, 'refused': 60, 'unoffered selection refused': 60, 'hellos inspected': 200,
           'server choice for a foreign client': 100, 'own types agreed': 60}

UNOFFERED = ('suite', 'suite-unknown', 'group', 'group-unshared', 'group-unknown', 'sig',
             'sig-pkcs1', 'alpn', 'alpn-unoffered-ext', 'alpn-two', 'alpn-unknown', 'mfl-other', 'mfl-unasked',
             'type-raw', 'type-x509', 'type-openpgp', 'client-type', 'version', 'no-version')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 30
    out = [{'what': 'ok', 'n': n} for n in range(350 * k)]
    out += [{'what': 'fail', 'n': n} for n in range(120 * k)]
    out += [{'what': 'fail-rc', 'n': n} for n in range(80 * k)]
    out += [{'what': 'rc', 'n': n} for n in range(250 * k)]
    out += [{'what': 'unoffered', 'kind': u, 'n': n} for u in UNOFFERED for n in range(8 * k)]
    out += [{'what': 'own-type', 'n': n} for n in range(40 * k)]
    return out


def run_case(spec, ctx):
    {'ok': run_ok, 'fail': run_fail, 'fail-rc': run_fail_rc, 'rc': run_foreign_client,
     'unoffered': run_unoffered, 'own-type': run_own_type}[spec['what']](spec, ctx)


def check_hello(ctx, sc, raw, first=True):
    """ The client's hello advertises exactly its configuration. """
    try:
        d = ref13.parse_client_hello(raw)
    except ref13.RefError as exc:
        return ctx.require(False, 'malformed ClientHello', exc)
    ctx.count('hellos inspected')
    want = {'suites': sc['suites_c'], 'groups': sc['groups_c'], 'sigalgs': sc['sigs_c'],
            'versions': [0x0304],
            'alpn': [a.encode() for a in sc['alpn_c']] or None,
            'mfl': {512: 1, 1024: 2, 2048: 3, 4096: 4}.get(sc['mfl']),
            'heartbeat': 1 if sc['hb_c'] else 2,
            'sni': sc['host'].encode() if sc['host'] and sc['host'] != pki.IP else None,
            'server_cert_types': [{'x509': 0, 'raw': 2}[t] for t in scen.offered_types(sc)]
            if 'keys' in sc['trust'] else None,
            'client_cert_types': scen.own_types(sc)}
    for k, v in want.items():
        ctx.check(d.get(k) == v, f'ClientHello does not advertise the configured {k}',
                  f'{d.get(k)} instead of {v}')
    shares = [g for g, _ in d.get('shares', ())]
    ctx.check(all(g in sc['groups_c'] for g in shares), 'share for an unconfigured group', shares)
    if first:
        ctx.check(shares[:1] == sc['groups_c'][:1], 'the first share is not for the preferred group',
                  f'{shares} {sc["groups_c"]}')
    known = {ref13.X_SNI, ref13.X_VERSIONS, ref13.X_GROUPS, ref13.X_SIGALGS, ref13.X_ALPN,
             ref13.X_MFL, ref13.X_HEARTBEAT, ref13.X_CCT, ref13.X_SCERTT, ref13.X_STATUS,
             ref13.X_KEYSHARE, ref13.X_COOKIE, ref13.X_PADDING}
    ctx.check(set(d['x']) <= known, 'ClientHello offers an extension that is not implemented',
              set(d['x']) - known)
    ctx.check(('status' in d) == ('store' in sc['trust']),
              'status_request without trust store, or the reverse', sc['trust'])
    return d


def messages(stream):
    from lib.monitor import records
    data = b''.join(b for t, v, b in records(stream)[0] if t == 22)
    return ref13.split_handshakes(data) if data else []


def state(conn):
    n = conn.nconfig
    return {'suite': n.cipher_suite, 'group': n.key_exchange, 'sig': n.signature_algorithm,
            'alpn': n.alpn, 'type': n.server_certificate_type, 'mfl': int(conn.max_fragment_length)}


def run_ok(spec, ctx):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    exp = scen.expected(sc)
    c, s = scen.pair(sc)
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.eval()
    hellos = [m for m in messages(link.c2s) if m[0] == ref13.CH]
    for i, m in enumerate(hellos):
        check_hello(ctx, sc, m[4:], first=i == 0)
    ctx.require(c.connected and s.connected, 'compatible endpoints do not connect',
                f'{c.error!r} {s.error!r} {sc}')
    want = {k: exp[k] for k in ('suite', 'group', 'sig', 'alpn', 'type', 'mfl')}
    for side, e in (('client', c), ('server', s)):
        got = state(e.conn)
        for k in want:
            ctx.check(got[k] == want[k], f'{side} reports another {k} than the preferred common one',
                      f'{got[k]!r} instead of {want[k]!r}; {sc}')
    ctx.check(len(hellos) == (2 if exp['hrr'] else 1), 'retry used when not needed, or the reverse',
              f'{len(hellos)} hellos {sc}')
    nc, ns = c.conn.nconfig, s.conn.nconfig
    for what, got, want_b in (
            ('client can send heartbeats', nc.can_send_heartbeat, sc['hb_s']),
            ('client echoes heartbeats', nc.can_echo_heartbeat, sc['hb_c']),
            ('server can send heartbeats', ns.can_send_heartbeat, sc['hb_c']),
            ('server echoes heartbeats', ns.can_echo_heartbeat, sc['hb_s'])):
        ctx.check(got is want_b or got == want_b, f'heartbeat agreement: {what}', f'{got} {want_b}')
    ctx.count('agreed')
    ctx.seen('ok', *want.values())
    ctx.sample({'agreed': {k: str(v) for k, v in want.items()}})


def run_fail(spec, ctx):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=False)
    alerts = scen.failures(sc)
    c, s = scen.pair(sc)
    Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.eval()
    ctx.check(not c.connected and not s.connected, 'connected without common parameter', sc)
    ctx.check(c.error is not None and s.error is not None, 'no error on one side without common parameter',
              f'{c.error!r} {s.error!r} {sc}')
    for side, e in (('server', s), ('client', c)):
        ctx.check(alert_name(e.error) in alerts, f'{side} fails with an unexpected alert without common parameter',
                  f'{e.error!r} instead of {alerts}')
    for e in (c, s):
        try:
            e.conn.send_data(b'x')
            ctx.check(False, 'application data can be sent without common parameter', sc)
        except Exception:
            pass
    ctx.count('refused')
    ctx.seen('refused', *sorted(alerts), alert_name(s.error))


def run_fail_rc(spec, ctx):
    """ A foreign client that offers nothing in common for one parameter. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=False)
    alerts = scen.failures(sc)
    c = Ref(scen.ref_client(sc, lenient=True))
    s = Sio(scen.server_config(sc))
    Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.eval()
    ctx.check(not s.connected and s.error is not None, 'server goes on without common parameter', sc)
    ctx.check(alert_name(s.error) in alerts, 'server fails with an unexpected alert without common parameter',
              f'{s.error!r} {alerts}')
    got = [a[1] for a in c.peer.alerts_in]
    ctx.check(len(got) == 1 and got[0] in alerts and c.peer.alerts_in[0][0] == 2,
              'no fatal alert reaches the client without common parameter', f'{c.peer.alerts_in} {c.error!r}')
    ctx.count('refused')
    ctx.seen('refused rc', *sorted(alerts))


def run_foreign_client(spec, ctx):
    """ The server's choice among what an independent client offers. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    exp = scen.expected(sc)
    junk = lambda l: rng.sample(l + [rng.choice((0x0a0a, 0x6a6a, 0x1399, 0x5555))], len(l) + 1)
    offered_suites = junk(sc['suites_c'])
    groups = junk(sc['groups_c'])
    shares = [g for g in groups if g in ref13.GROUPS and rng.random() < .5]
    kw = dict(suites=offered_suites, groups=groups, sigalgs=junk(sc['sigs_c']), shares=shares,
              session_id=os.urandom(rng.choice((0, 0, 32, 32, rng.randint(1, 31)))))
    hb = rng.choice((None, 1, 2))
    kw['heartbeat'] = hb
    alpn = [a.encode() for a in sc['alpn_c']]
    if alpn and rng.random() < .5:
        alpn.insert(rng.randint(0, len(alpn)), b'x-unknown-proto')
    kw['alpn'] = alpn or None
    ask_status = rng.random() < .5
    kw['status'] = ask_status
    types = kw_types = None
    if 'keys' in sc['trust']:
        types = rng.sample(scen.offered_types(sc), len(scen.offered_types(sc)))
        kw_types = [{'x509': 0, 'raw': 2}[t] for t in types]
    kw['server_cert_types'] = kw_types
    c = Ref(scen.ref_client(sc, **kw))
    s = Sio(scen.server_config(sc))
    Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.eval()
    p, n = c.peer, s.conn.nconfig
    ctx.require(c.connected and s.connected, 'server refuses a compatible client, or breaks the protocol',
                f'{c.error!r} {s.error!r} {sc}')
    ctx.count('server choice for a foreign client')
    for what, wire, reported, want in (
            ('suite', p.suite.code, n.cipher_suite, exp['suite']),
            ('group', p.group, n.key_exchange, exp['group']),
            ('scheme', p.scheme, n.signature_algorithm, exp['sig']),
            ('application protocol', p.ee_alpn and p.ee_alpn.decode(), n.alpn, exp['alpn']),
            ('certificate type', p.server_cert_type, n.server_certificate_type, exp['type'])):
        ctx.check(wire == want, f'server does not select the first common {what} of its preferences',
                  f'{wire!r} instead of {want!r}')
        ctx.check(reported == wire, f'server reports another {what} than it selected', f'{reported!r} {wire!r}')
    ctx.check(p.mfl == sc['mfl'] == s.conn.max_fragment_length, 'fragment limit not agreed',
              f'{p.mfl} {sc["mfl"]} {s.conn.max_fragment_length}')
    ctx.check(bool(p.hrr) == (exp['group'] not in shares), 'retry used when not needed, or the reverse',
              f'{bool(p.hrr)} {exp["group"]:#x} {shares}')
    ctx.check((p.ee_heartbeat is None) == (hb is None), 'heartbeat answered without being offered, or ignored',
              f'{p.ee_heartbeat} {hb}')
    if hb is not None:
        ctx.check(p.ee_heartbeat == (1 if sc['hb_s'] else 2), 'heartbeat mode is not the configured one', '')
        ctx.check(bool(n.can_send_heartbeat) == (hb == 1) and bool(n.can_echo_heartbeat) == sc['hb_s'],
                  'heartbeat agreement: server', f'{n.can_send_heartbeat} {n.can_echo_heartbeat}')
    else:
        ctx.check(not n.can_send_heartbeat and not n.can_echo_heartbeat,
                  'heartbeat agreement: server without offer', '')
    ctx.check(bool(n.peer_want_ocsp_stapling) == ask_status, 'status_request misreported', '')
    ctx.seen('rc', p.suite.name, p.group, p.scheme, p.ee_alpn, p.server_cert_type, bool(p.hrr))


def run_own_type(spec, ctx):
    """ The server selects one of the types the client announced for itself. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    sc['own'] = rng.choice((None, 'x509', 'raw', 'both'))
    own = scen.own_types(sc)
    typ = rng.choice(own) if own and rng.random() < .8 else None
    script = {'EE': lambda p, m: [ref13.ee_with(m, add=[(ref13.X_CCT, ref13.u8(typ))])]} if typ is not None else {}
    c = Sio(scen.client_config(sc), server_hostname=sc['host'])
    s = Ref(scen.ref_server(sc, script=script, cert_request=True, layout=scen.layout(rng)))
    Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.eval()
    ctx.require(c.connected and s.connected, 'client refuses a type it announced', f'{c.error!r} {s.error!r} {sc} {typ}')
    got = c.conn.nconfig.client_certificate_type
    ctx.check(got == (typ or 0), 'client reports another type for itself than the selected one', f'{got!r} {typ}')
    ctx.count('own types agreed')
    ctx.seen('own', sc['own'], typ)


def run_unoffered(spec, ctx):
    rng, kind = ctx.rng, spec['kind']
    sc = scen.simple(
        kind=rng.choice(('p256', 'rsa')), via=rng.choice(('root', 'inter')),
        suites_c=scen.some(rng, scen.SUITES[:3]), groups_c=rng.sample(scen.FAST_GROUPS, 3),
        alpn_c=['h2', 'http/1.1'], alpn_s=['h2', 'http/1.1'], mfl=rng.choice(scen.MFLS[1:]))
    sc['suites_s'], sc['groups_s'] = sc['suites_c'], sc['groups_c']
    script, kw = {}, {}
    unused = [g for g in scen.FAST_GROUPS if g not in sc['groups_c']]
    X = ref13

    def share(g):
        return X.u16(g) + X.v16(X.GROUPS[g].generate()[1])

    late = False        # the refusal comes with a protected message
    if kind == 'suite':
        bad = rng.choice([x for x in scen.SUITES if x not in sc['suites_c']])
        kw['select'] = {'suite': bad}
    elif kind == 'suite-unknown':
        script['SH'] = lambda p, m: [X.sh_with(m, suite=rng.choice((0x1306, 0x002f, 0x0a0a, 0xc02b)))]
    elif kind in ('group', 'group-unshared'):
        g = rng.choice(unused) if kind == 'group' else sc['groups_c'][1]
        script['SH'] = lambda p, m: [X.sh_with(m, exts={X.X_KEYSHARE: share(g)})]
    elif kind == 'group-unknown':
        script['SH'] = lambda p, m: [X.sh_with(m, exts={
            X.X_KEYSHARE: X.u16(rng.choice((0x0a0a, 0x6399, 0x11ec))) + X.v16(os.urandom(32))})]
    elif kind == 'version':
        v = rng.choice((0x0305, 0x7f1c, 0x0a0a))
        script['SH'] = lambda p, m: [X.sh_with(m, exts={X.X_VERSIONS: X.u16(v)})]
    elif kind == 'no-version':
        script['SH'] = lambda p, m: [X.sh_with(m, drop=(X.X_VERSIONS,))]
    elif kind in ('sig', 'sig-pkcs1'):
        own = ref13.schemes_for(scen.private_key(sc).public_key())
        if kind == 'sig-pkcs1':
            sc['kind'] = 'rsa'
            own, bad = [0x0804], rng.choice((0x0401, 0x0501, 0x0601))
        else:
            bad = rng.choice(own)
        sc['sigs_c'] = [x for x in scen.SIGALGS if x != bad]
        kw['select'] = {'sig': bad}
        late = True
    else:
        late = True
        bodies = {
            'alpn': (X.X_ALPN, X.v16(X.v8(b'imap'))),
            'alpn-unoffered-ext': (X.X_ALPN, X.v16(X.v8(b'h2'))),
            'alpn-two': (X.X_ALPN, X.v16(X.v8(b'h2') + X.v8(b'http/1.1'))),
            'alpn-unknown': (X.X_ALPN, X.v16(X.v8(b'x-never-heard'))),
            'mfl-other': (X.X_MFL, X.u8(rng.choice([i for i in (1, 2, 3, 4) if 2 ** (8 + i) != sc['mfl']]))),
            'mfl-unasked': (X.X_MFL, X.u8(rng.choice((1, 2, 3, 4)))),
            'type-raw': (X.X_SCERTT, b'\x02'), 'type-x509': (X.X_SCERTT, b'\x00'),
            'type-openpgp': (X.X_SCERTT, rng.choice((b'\x01', b'\x03', b'\xe0'))),
        }
        if kind == 'client-type':
            sc['own'] = rng.choice((None, 'x509', 'raw', 'both'))
            bodies[kind] = X.X_CCT, X.u8(rng.choice([1, 3, 255] + [t for t in (0, 2) if t not in (scen.own_types(sc) or [0])] * 3))
        if kind == 'alpn-unoffered-ext':
            sc['alpn_c'] = []
        if kind == 'mfl-unasked':
            sc['mfl'] = 16384
            kw['accept_mfl'] = False
        if kind == 'type-x509':
            sc.update(trust=['keys'], server_certs=['raw'])
        if kind == 'type-openpgp':
            sc.update(trust=['store', 'keys'], server_certs=['x509', 'raw'])
        x, body = bodies[kind]
        script['EE'] = lambda p, m: [X.ee_with(m, drop=(x,), add=[(x, body)])]
        if kind == 'type-raw':
            # the server also presents the trusted certificate's bare key
            spki = scen.leaf_node(sc['kind'], sc['via']).spki
            script['CERT'] = lambda p, m: [X.hs(X.CERT, b'\x00' + X.v24(X.v24(spki) + X.v16(b'')))]
    c = Sio(scen.client_config(sc), server_hostname=sc['host'])
    s = Ref(scen.ref_server(sc, script=script, lenient=True,
                            **{'layout': scen.layout(rng), **kw}))
    if kind in ('group', 'group-unshared', 'group-unknown', 'version', 'no-version', 'suite-unknown'):
        s.peer.layout = ref13.Layout()
    Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.eval()
    ctx.check(not c.connected, f'client accepts an unoffered selection ({kind})', sc)
    ctx.check(c.error is not None, f'client reports no error for an unoffered selection ({kind})', sc)
    ctx.check(not c.take(), f'client delivers data after an unoffered selection ({kind})', sc)
    got = [a[1] for a in s.peer.alerts_in]
    if late:
        ctx.check(got and got[0] == alert_name(c.error),
                  f'no alert answers an unoffered selection ({kind})', f'{got} {c.error!r} {s.error!r}')
    ctx.count('unoffered selection refused')
    ctx.seen('unoffered', kind, alert_name(c.error))
