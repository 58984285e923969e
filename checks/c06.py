""" C06: revoked certificates are rejected, only sound statuses are trusted. """
import os
from datetime import timedelta

from cryptography.hazmat.primitives import hashes

from siotls import TLSConfiguration, TLSError

from lib import pki, ref13, scen
from lib.link import Link, Ref, Sio, alert_name
from lib.pki import HOST, HOUR

PID, LEVEL = 'C06', 'exploration'
RULE = ('distinct (mechanism, status defect, certificate concerned, hierarchy, way of delivery) '
        'situations judged, on both roles')
ASSUMPTIONS = ['revocation lists are matched by serial number over all the presented certificates',
               'the issuers are those of the chain which was verified, its trusted root included, presented or not',
               'delegated OCSP responders are not supported: refusing them is accepted']
MINIMUM = {'unsound refused': 200, 'sound accepted': 80, 'server staples judged': 100,
           'revoked by list refused': 40}

UNSOUND = ('revoked', 'unknown', 'expired', 'future', 'no-next-update', 'other-serial', 'other-issuer',
           'other-signer', 'leaf-signed', 'root-signed', 'flip-signature', 'flip-body', 'try-later', 'unauthorized',
           'internal-error', 'malformed', 'garbage', 'empty', 'truncated', 'trailing', 'request-echoed', 'no-status',
           'two-statuses', 'only-others', 'revoked-among', 'odd-hash', 'rehashed-issuer', 'rehashed-serial', 'others-signer',
           'other-name', 'odd-signature')
HIERARCHIES = ('ec-ec', 'ec-rsa', 'rsa-ec', 'p384-p256')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 30
    out = [{'what': 'list', 'n': n} for n in range(120 * k)]
    for how in UNSOUND + ('good',):
        for via in ('stapled', 'service'):
            for n in range((6 if how != 'good' else 50) * k):
                out.append({'what': 'client', 'how': how, 'via': via, 'n': n})
        for n in range((4 if how != 'good' else 30) * k):
            out.append({'what': 'server', 'how': how, 'n': n})
    out += [{'what': 'client', 'how': 'down', 'via': 'service', 'n': n} for n in range(6 * k)]
    out += [{'what': 'server', 'how': 'down', 'n': n} for n in range(6 * k)]
    out += [{'what': 'other', 'how': h, 'n': n} for n in range(8 * k)
            for h in ('no-aia', 'no-service', 'stapled-wins', 'stapled-bad-service-good', 'inter-bad-stapled',
                      'second-good-first-bad', 'decoy-issuer', 'extraneous', 'disordered', 'root-issued')]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)


def hierarchy(name):
    a, b = name.split('-')
    kinds = {'ec': 'p256', 'rsa': 'rsa', 'p384': 'p384', 'p256': 'p256'}
    # the root is of kind a, the intermediate of kind b
    ka = pki.key('rsa', 1) if a == 'rsa' else pki.key(kinds[a], 'hroot')
    kb = pki.key('rsa', 1) if b == 'rsa' else pki.key(kinds[b], 'hinter')
    root = pki.make(f'h root {name}', ka, ca=True, path_length=3)
    inter = pki.make(f'h inter {name}', kb, root, ca=True, path_length=0,
                     ocsp_url='http://ocsp.test/inter', issuer_url='first' if a == 'rsa' else None)
    return root, inter


def leaf_of(inter, url='http://ocsp.test/leaf', kind='p256', **kw):
    return pki.make('leaf', pki.key(kind, 'leaf0'), inter, sans=(HOST,), eku=pki.SERVER_AUTH,
                    ocsp_url=url, **kw)


def others(rng, issuer, how=None):
    """ The status of another certificate of the same issuer. """
    other = pki.make('sibling', pki.key('p256', 'sib'), issuer, sans=(HOST,))
    t = pki.now()
    return pki.ocsp_singles(pki.ocsp_response(other, issuer, how or rng.choice(('good', 'revoked', 'unknown')),
                                              nxt=t + rng.choice((-HOUR // 2, HOUR)) if not how else ...))


def stranger(issuer):
    return pki.make('stranger', pki.key('rsa', 0) if not hasattr(issuer.key, 'curve') else
                    pki.key({256: 'p256', 384: 'p384'}[issuer.key.curve.key_size], 'stranger'), ca=True)


def status(rng, how, node, issuer):
    t = pki.now()
    hashed = rng.choice((hashes.SHA1, hashes.SHA1, hashes.SHA256, hashes.SHA384, hashes.SHA512, hashes.SHA224))()
    if how == 'good' and rng.random() < .3:
        # among the statuses of others, good or not
        mine = pki.ocsp_singles(pki.ocsp_response(node, issuer, algo=hashed))
        every = [others(rng, issuer) for _ in range(rng.choice((1, 2, 20)))] + [mine]
        rng.shuffle(every)
        return pki.ocsp_with(pki.ocsp_response(node, issuer), sum(every, []), issuer)
    if how in ('no-status', 'two-statuses', 'only-others', 'revoked-among', 'others-signer'):
        base = pki.ocsp_response(node, issuer)
        good, revoked, some = pki.ocsp_singles(base), pki.ocsp_singles(pki.ocsp_response(node, issuer, 'revoked')), \
            others(rng, issuer, 'good')
        if how == 'no-status':
            return pki.ocsp_with(base, [], issuer)
        if how == 'two-statuses':
            return pki.ocsp_with(base, rng.choice((revoked, good)) + revoked if rng.random() < .5 else good + some + revoked, issuer)
        if how == 'only-others':
            return pki.ocsp_with(base, some + others(rng, issuer), issuer)
        if how == 'revoked-among':
            return pki.ocsp_with(base, rng.choice((some + revoked, revoked + some, some + revoked + some)), issuer)
        return pki.ocsp_with(base, rng.choice((some + good, good + some)), stranger(issuer))
    if how == 'odd-hash':
        base = pki.ocsp_response(node, issuer)
        oid = pki.tlv(6, bytes.fromhex(rng.choice(('2a864886f70d0205', '2b0e03021b', '2a0304', '608648016503040207'))))
        single = [pki.untlv(x)[0][1] for x in pki.ocsp_singles(base)][0]
        certid, *rest = pki.untlv(single)
        alg, *hashed = pki.untlv(certid[1])
        certid = pki.tlv(0x30, pki.tlv(0x30, oid + b'\x05\0') + b''.join(x[2] for x in hashed))
        return pki.ocsp_with(base, [pki.tlv(0x30, certid + b''.join(x[2] for x in rest))], issuer)
    if how == 'rehashed-issuer':
        fake = pki.make('fake inter', pki.key('p256', 'fake'), ca=True)
        return pki.ocsp_response(node, issuer, cert_issuer=fake, algo=rng.choice((hashes.SHA256, hashes.SHA512))())
    if how == 'rehashed-serial':
        return pki.ocsp_response(pki.make('sibling', pki.key('p256', 'sib'), issuer, sans=(HOST,)), issuer,
                                 algo=rng.choice((hashes.SHA256, hashes.SHA512))())
    if how == 'good':
        return pki.ocsp_response(node, issuer, algo=hashed, this=t - timedelta(seconds=rng.choice((0, 5, 86400))),
                                 nxt=t + timedelta(seconds=rng.choice((120, 86400, 10 ** 7))))
    if how in ('revoked', 'unknown'):
        return pki.ocsp_response(node, issuer, how)
    if how == 'expired':
        return pki.ocsp_response(node, issuer, this=t - 90 * HOUR,
                                 nxt=t - timedelta(seconds=rng.choice((2, 60, 86400))))
    if how == 'future':
        return pki.ocsp_response(node, issuer, this=t + timedelta(seconds=rng.choice((60, 86400))),
                                 nxt=t + 90 * HOUR)
    if how == 'no-next-update':
        return pki.ocsp_response(node, issuer, nxt=None)
    if how == 'other-serial':
        return pki.ocsp_response(pki.make('sibling', pki.key('p256', 'sib'), issuer, sans=(HOST,)), issuer)
    if how == 'other-issuer':
        fake = pki.make('fake inter', pki.key('p256', 'fake'), ca=True)
        return pki.ocsp_response(node, issuer, cert_issuer=fake, signer=rng.choice((fake, issuer)))
    if how == 'other-signer':
        # a stranger with the name and the kind of key of the issuer
        pub = issuer.key.public_key()
        kind = {256: 'p256', 384: 'p384'}[pub.key_size] if hasattr(pub, 'curve') else 'rsa'
        key = pki.key('rsa', 0) if kind == 'rsa' else pki.key(kind, 'stranger')
        cn = issuer.cert.subject.rfc4514_string().partition('=')[2]
        fake = pki.make(cn, key, ca=True)
        assert fake.cert.subject == issuer.cert.subject and fake.spki != issuer.spki
        return pki.ocsp_response(node, issuer, signer=fake, by_name=rng.random() < .7)
    if how == 'other-name':
        # the same serial, by an issuer of another name which has the same key
        twin = pki.make('twin', pki.key('p256', 'sib'), issuer, sans=(HOST,), serial=node.cert.serial_number,
                        issuer_name=pki.name('another name'))
        return pki.ocsp_response(twin, issuer, algo=hashed)
    if how == 'odd-signature':
        base = pki.ocsp_response(node, issuer)
        weak = rng.random() < .5      # a right signature, with SHA-1
        ec_key = hasattr(issuer.key, 'curve')
        oid = ('2a8648ce3d0401' if ec_key else '2a864886f70d010105') if weak else \
            rng.choice(('2a0304', '2a864886f70d010104', '2a864886f70d010102', '2b6571', '2a864886f70d01010a'))
        return pki.ocsp_with(base, pki.ocsp_singles(base), issuer, digest=hashes.SHA1() if weak else None,
                             oid_sig=pki.tlv(0x30, pki.tlv(6, bytes.fromhex(oid)) + (b'' if ec_key else b'\x05\0')))
    if how == 'leaf-signed':
        return pki.ocsp_response(node, issuer, signer=node)
    if how == 'root-signed':
        return pki.ocsp_response(node, issuer, signer=issuer.issuer or pki.root(5))
    if how == 'flip-signature':
        b = bytearray(pki.ocsp_response(node, issuer))
        b[len(b) - rng.randint(1, 24)] ^= 1 << rng.randrange(8)
        return bytes(b)
    if how == 'flip-body':
        # same length, other content
        from cryptography.x509 import ocsp
        base = pki.ocsp_response(node, issuer)
        tbs2 = ocsp.load_der_ocsp_response(base).tbs_response_bytes
        new2 = bytearray(tbs2)
        # bump the last digit of the seconds of producedAt
        i = tbs2.index(b'\x18\x0f') + 2 + 13
        new2[i] = 0x30 + (new2[i] - 0x30 + 1) % 10
        return base.replace(tbs2, bytes(new2))
    if how in ('try-later', 'unauthorized', 'internal-error', 'malformed'):
        return pki.ocsp_unsuccessful({'try-later': 'TRY_LATER', 'unauthorized': 'UNAUTHORIZED',
                                      'internal-error': 'INTERNAL_ERROR',
                                      'malformed': 'MALFORMED_REQUEST'}[how])
    good = pki.ocsp_response(node, issuer)
    if how == 'garbage':
        return os.urandom(rng.choice((1, 20, 500)))
    if how == 'empty':
        return b''
    if how == 'truncated':
        return good[:rng.randrange(1, len(good))]
    if how == 'trailing':
        return good + os.urandom(rng.choice((1, 5)))
    if how == 'request-echoed':
        from siotls.crypto.ocsp import make_ocsp_request
        return make_ocsp_request(node.cert, issuer.cert)
    raise AssertionError(how)


class Service:
    """ A status service under our control. """
    def __init__(self, answers):
        self.answers, self.calls, self.cached, self.uncached = answers, [], [], []

    def request(self, url, req):
        self.calls.append((url, req))
        a = self.answers.get(url)
        if isinstance(a, Exception):
            raise a
        return a

    def cache(self, until, req, res):
        self.cached.append((until, req, res))

    def uncache(self, req):
        self.uncached.append(req)


def go(ctx, config, chain, key, service=None, entry_exts=None):
    rng = ctx.rng
    c = Sio(config, server_hostname=rng.choice((HOST,) * 4 + (None,)), ocsp_service=service)
    s = Ref(ref13.RefServer([n.der for n in chain], key, layout=scen.layout(rng), lenient=True,
                            entry_exts=entry_exts, early_app=rng.choice((b'', b'data'))))
    Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.eval()
    return c, s


def refused(ctx, c, s, why):
    if '(odd-hash)' in why and c.connected:     # hashed with the right function, but called otherwise
        return
    ctx.check(not c.connected, f'client connects although {why}', repr(s.error))
    ctx.check(not c.take(), f'client delivers data although {why}', '')
    ctx.check(c.error is not None and alert_name(c.error) not in (None, 'close_notify'),
              f'client does not fail with a TLS error although {why}', repr(c.error))
    ctx.check(len(s.peer.alerts_in) == 1 and s.peer.alerts_in[0][0] == 2,
              f'no fatal alert is sent although {why}', f'{s.peer.alerts_in} {c.error!r}')
    ctx.check(not any(n == 'FIN' for n, _, _ in s.peer.rx_msgs),
              f'client sends its Finished although {why}', '')


def accepted(ctx, c, s, why):
    ctx.check(c.connected and c.error is None, f'client refuses a server whose {why}',
              f'{c.error!r} cause={getattr(c.error, "__cause__", None)!r}')


def run_list(spec, ctx):
    rng = ctx.rng
    root, inter = hierarchy('ec-ec')
    leaf = leaf_of(inter, url=None)
    chain = [leaf, inter] + ([root] if rng.random() < .3 else [])
    who = rng.choice(('leaf', 'inter', 'both', 'none', 'none-empty', 'anchor', 'root'))
    anchors = [root]
    if who == 'anchor' or who == 'none' and rng.random() < .4:
        # the listed one is trusted itself, it hasn't to be presented
        anchors = [inter] + rng.choice(([], [pki.root(5)]))
        chain = rng.choice(([leaf], [leaf], [leaf, inter]))
    serials = {'leaf': [leaf.cert.serial_number], 'inter': [inter.cert.serial_number],
               'both': [leaf.cert.serial_number, inter.cert.serial_number],
               'anchor': [inter.cert.serial_number], 'root': [root.cert.serial_number]}.get(who, [])
    noise = [] if who == 'none-empty' else [rng.getrandbits(100) + 1 for _ in range(rng.choice((0, 1, 50)))]
    serials = rng.sample(serials + noise, len(serials + noise))
    crl = pki.crl(root if who in ('inter', 'anchor', 'root') else inter, serials)
    kw = {}
    if rng.random() < .5:
        kw['trusted_public_keys'] = [pki.key('p256', 'decoy').public_key()]
    svc = None
    if rng.random() < .3:
        leaf = leaf_of(inter, serial=leaf.cert.serial_number)
        chain[0] = leaf
        svc = Service({'http://ocsp.test/leaf': status(rng, 'good', leaf, inter),
                       'http://ocsp.test/inter': status(rng, 'good', inter, root)})
    config = TLSConfiguration('client', trust_store=pki.store(*anchors), revocation_list=crl, **kw)
    c, s = go(ctx, config, chain, leaf.key, svc)
    if who.startswith('none'):
        accepted(ctx, c, s, 'certificates are not in the revocation list')
        ctx.count('sound accepted')
    else:
        refused(ctx, c, s, 'a certificate is in the revocation list')
        ctx.count('revoked by list refused')
    ctx.seen('list', who, len(chain), len(anchors), bool(noise), bool(svc))


def run_client(spec, ctx):
    rng, how, via = ctx.rng, spec['how'], spec['via']
    name = rng.choice(HIERARCHIES)
    root, inter = hierarchy(name)
    kind = rng.choice(('p256', 'p384'))
    leaf = leaf_of(inter, kind=kind, issuer_url=rng.choice((None, 'first', 'last')))
    chain = [leaf, inter]
    with_root = rng.random() < .4
    if with_root:
        chain.append(root)
    target = rng.choice(('leaf', 'inter'))
    a, b = status(rng, how if target == 'leaf' else 'good', leaf, inter) if how != 'down' else None, \
        status(rng, how if target == 'inter' else 'good', inter, root) if how != 'down' else None
    answers, exts, svc = {}, {}, None
    if via == 'stapled':
        wrap = lambda x: ref13.ext(ref13.X_STATUS, ref13.u8(1) + ref13.v24(x))
        exts = {0: wrap(a)}
        if with_root or target == 'inter' or rng.random() < .5:
            exts[1] = wrap(b)
        if rng.random() < .3:
            svc = Service({'http://ocsp.test/leaf': status(rng, 'good', leaf, inter),
                           'http://ocsp.test/inter': status(rng, 'good', inter, root)})
    else:
        answers = {'http://ocsp.test/leaf': a, 'http://ocsp.test/inter': b}
        if how == 'down':
            exc = rng.choice((OSError('network is down'), RuntimeError('mistyped'), ValueError('no'),
                              TimeoutError()))
            answers = {k: exc for k in answers}
        svc = Service(answers)
    kwc = {}
    if rng.random() < .3:
        kwc['revocation_list'] = pki.crl(inter, [12345])
    config = TLSConfiguration('client', trust_store=pki.store(root), **kwc)
    c, s = go(ctx, config, chain, leaf.key, svc, exts)
    if how == 'good':
        accepted(ctx, c, s, f'{via} statuses are all good')
        ctx.count('sound accepted')
        if via == 'service':
            ctx.check([u for u, _ in svc.calls] == ['http://ocsp.test/leaf', 'http://ocsp.test/inter'],
                      'the status of each certificate is not requested once from its own responder', [u for u, _ in svc.calls])
            from cryptography.x509 import ocsp
            for (u, req), node in zip(svc.calls, (leaf, inter)):
                ctx.check(ocsp.load_der_ocsp_request(req).serial_number == node.cert.serial_number,
                          'the status of another certificate is requested', u)
            for until, req, res in svc.cached:
                serial = ocsp.load_der_ocsp_request(req).serial_number
                want = min(x.next_update_utc for x in ocsp.load_der_ocsp_response(res).responses
                           if x.serial_number == serial).replace(tzinfo=None)
                ctx.check(until.replace(tzinfo=None) <= want, 'a status is cached longer than it is valid', f'{until} {want}')
    else:
        refused(ctx, c, s, f'the {via} status of a certificate is unsound ({how})')
        ctx.count('unsound refused')
    if via == 'service' and how != 'down':
        bad = [b if target == 'inter' else a] if how != 'good' else []
        ctx.check(not any(res in bad for _, _, res in svc.cached), 'an unsound status is cached', how)
        if how != 'good':
            ctx.check(len(svc.uncached) >= 1, 'an unsound status is not discarded from the cache', how)
    ctx.seen('client', how, via, target, name, with_root, alert_name(c.error))
    ctx.sample({'status': how, 'via': via, 'of': target, 'hierarchy': name, 'alert': alert_name(c.error)})


def run_other(spec, ctx):
    rng, how = ctx.rng, spec['how']
    root, inter = hierarchy(rng.choice(HIERARCHIES))
    wrap = lambda x: ref13.ext(ref13.X_STATUS, ref13.u8(1) + ref13.v24(x))
    leaf = leaf_of(inter, url=None if how == 'no-aia' else 'http://ocsp.test/leaf', issuer_url=rng.choice((None, 'first', 'last')))
    config = TLSConfiguration('client', trust_store=pki.store(root))
    svc = Service({'http://ocsp.test/leaf': status(rng, 'good', leaf, inter),
                   'http://ocsp.test/inter': status(rng, 'good', inter, root)})
    if how == 'no-aia':
        c, s = go(ctx, config, [leaf, inter], leaf.key, svc)
        accepted(ctx, c, s, 'certificate names no responder')
        ctx.check([u for u, _ in svc.calls] == ['http://ocsp.test/inter'],
                  'other statuses are requested than those of the certificates which name a responder', svc.calls)
    elif how == 'no-service':
        c, s = go(ctx, config, [leaf, inter], leaf.key, None)
        accepted(ctx, c, s, 'status cannot be asked as there is no service')
    elif how == 'stapled-wins':
        c, s = go(ctx, config, [leaf, inter], leaf.key,
                  Service({'http://ocsp.test/inter': status(rng, 'good', inter, root)}), {0: wrap(status(rng, 'good', leaf, inter))})
        accepted(ctx, c, s, 'stapled status is good')
    elif how == 'stapled-bad-service-good':
        bad = rng.choice(('revoked', 'expired', 'other-signer', 'garbage'))
        c, s = go(ctx, config, [leaf, inter], leaf.key, svc, {0: wrap(status(rng, bad, leaf, inter))})
        refused(ctx, c, s, 'the stapled status is unsound while the service has a good one')
    elif how == 'inter-bad-stapled':
        c, s = go(ctx, config, [leaf, inter, root], leaf.key, None,
                  {0: wrap(status(rng, 'good', leaf, inter)), 1: wrap(status(rng, 'revoked', inter, root))})
        refused(ctx, c, s, 'the stapled status of the intermediate is revoked')
    elif how == 'decoy-issuer':
        # someone who has the key of a revoked certificate vouches for it, with another one that is not its issuer
        kind = rng.choice(('p256', 'p384', 'rsa'))
        decoy = pki.make(rng.choice(('decoy', inter.cert.subject.rfc4514_string().partition('=')[2])),
                         pki.key('rsa', 0) if kind == 'rsa' else pki.key(kind, 'decoy'), ca=True)
        lie = pki.ocsp_response(leaf, decoy)
        chain = rng.choice(([leaf, decoy, inter], [leaf, decoy, inter, root]))
        via = rng.choice(('stapled', 'service', 'both'))
        lies = Service({'http://ocsp.test/leaf': lie, 'http://ocsp.test/inter': status(rng, 'good', inter, root)})
        c, s = go(ctx, config, chain, leaf.key, None if via == 'stapled' else lies, {0: wrap(lie)} if via != 'service' else None)
        refused(ctx, c, s, 'its status is signed by another certificate which is presented as if it were the issuer')
        how += via
    elif how in ('extraneous', 'disordered'):
        if how == 'extraneous':
            chain = [leaf, pki.make('extraneous', pki.key('p256', 'decoy'), ca=True), inter] + [root] * (rng.random() < .5)
        else:
            chain = [leaf, root, inter]
        via = rng.choice(('stapled', 'service'))
        at = chain.index(inter)
        if rng.random() < .5:
            c, s = go(ctx, config, chain, leaf.key, svc if via == 'service' else None,
                      {0: wrap(status(rng, 'good', leaf, inter)), at: wrap(status(rng, 'good', inter, root))}
                      if via == 'stapled' else None)
            accepted(ctx, c, s, f'statuses are good while its certificates are {how}')
            ctx.count('sound accepted')
        else:
            bad = rng.choice(('revoked', 'unknown', 'expired', 'other-signer'))
            who = rng.choice(('leaf', 'inter'))
            a = status(rng, bad if who == 'leaf' else 'good', leaf, inter)
            b = status(rng, bad if who == 'inter' else 'good', inter, root)
            c, s = go(ctx, config, chain, leaf.key,
                      Service({'http://ocsp.test/leaf': a, 'http://ocsp.test/inter': b}) if via == 'service' else None,
                      {0: wrap(a), at: wrap(b)} if via == 'stapled' else None)
            refused(ctx, c, s, f'the status of a certificate is unsound while they are {how}')
            how += who
    elif how == 'root-issued':
        # the only certificate presented is issued by a root of the store
        leaf = leaf_of(root, issuer_url=rng.choice((None, 'first', 'last')))
        bad = rng.choice(UNSOUND + ('good',) * 12)
        if bad == 'other-issuer':
            bad = 'revoked'
        via = rng.choice(('stapled', 'service'))
        a = status(rng, bad, leaf, root) if bad != 'root-signed' else pki.ocsp_response(leaf, root, signer=pki.root(5))
        service = Service({'http://ocsp.test/leaf': a})
        c, s = go(ctx, config, [leaf], leaf.key, service if via == 'service' else None, {0: wrap(a)} if via == 'stapled' else None)
        if bad == 'good':
            accepted(ctx, c, s, f'only certificate has a good {via} status')
            ctx.check(via == 'stapled' or len(service.calls) == 1, 'the status of the only certificate is not requested', '')
            ctx.count('sound accepted')
        else:
            refused(ctx, c, s, f'the {via} status of its only certificate is unsound ({bad})')
        how += bad + via
    else:
        svc = Service({'http://ocsp.test/leaf': status(rng, 'revoked', leaf, inter),
                       'http://ocsp.test/inter': status(rng, 'good', inter, root)})
        c, s = go(ctx, config, [leaf, inter, root], leaf.key, svc)
        refused(ctx, c, s, 'the status of the leaf is revoked and the one of the intermediate good')
    ctx.seen('other', how)


def run_server(spec, ctx):
    """ What a server staples. """
    rng, how = ctx.rng, spec['how']
    name = rng.choice(HIERARCHIES)
    root, inter = hierarchy(name)
    url = 'http://ocsp.test/leaf' if rng.random() < .9 else None
    leaf = leaf_of(inter, url=url, kind=rng.choice(('p256', 'p384')), issuer_url=rng.choice((None, 'first', 'last')))
    asked = rng.random() < .75
    if how == 'down':
        a = rng.choice((OSError('network is down'), RuntimeError('mistyped'), TimeoutError()))
    else:
        a = status(rng, how, leaf, inter)
    svc = Service({'http://ocsp.test/leaf': a, 'http://ocsp.test/inter': a})
    with_service = rng.random() < .9
    alone = rng.random() < .1
    config = TLSConfiguration('server', private_key=leaf.key,
                              certificate_chain=[leaf.cert] if alone else [leaf.cert, inter.cert])
    s = Sio(config, ocsp_service=svc if with_service else None)
    c = Ref(ref13.RefClient(sni=HOST.encode(), status=asked, layout=scen.layout(rng)))
    Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.eval()
    ctx.count('server staples judged')
    ctx.require(c.connected and s.connected, f'server refuses a client because of its own status ({how})',
                f'{c.error!r} {s.error!r}')
    stapled = [(i, b) for i, (_, xs) in enumerate(c.peer.server_cert) for t, b in xs if t == ref13.X_STATUS]
    expect = asked and how == 'good' and url and with_service and not alone
    if not asked:
        ctx.check(not stapled, 'a status is stapled although the client did not ask', '')
    elif how != 'good':
        ctx.check(not stapled, 'an unsound status is stapled', how)
    elif expect:
        ctx.check(stapled == [(0, ref13.u8(1) + ref13.v24(a))], 'the sound status is not stapled', f'{stapled}')
    else:
        ctx.check(not stapled, 'a status is stapled out of nowhere', '')
    if with_service:
        ctx.check(not any(res == a for _, _, res in svc.cached) or how == 'good', 'an unsound status is cached', how)
    ctx.seen('server', how, asked, bool(url), with_service, alone, name)
