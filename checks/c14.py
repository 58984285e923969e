""" C14: key exchanges and signatures match their standards and refuse bad input. """
import hashlib
import os

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa

from siotls import TLSError
from siotls.crypto import hkdf
from siotls.crypto.key_exchanges import TLSKeyExchange
from siotls.crypto.signatures import TLSSignatureSuite
from siotls.iana import NamedGroup, SignatureScheme

from lib import indep, pki, ref13, scen
from lib.indep import Refused
from lib.link import Link, Ref, Sio

PID, LEVEL = 'C14', 'exploration'
RULE = 'distinct (group or scheme, class of share / signature / tampering, role, verdict) observed'
ASSUMPTIONS = [
    'the reference is arithmetic on integers written from RFC 7748, 7919, 8017, 8032, 5869 and FIPS 186, which shares '
    'nothing with the library of cryptography siotls relies on',
    'ffdhe shares outside of the subgroup of prime order are not judged (RFC 7919 lets implementations accept them)',
    'any exception is a refusal of the primitives, over a connection only a TLS error is',
]
MINIMUM = {'exchanges': 1200, 'leading zero secrets': 30, 'leading zero shares': 8, 'bad shares': 800,
           'bad shares over a connection': 250, 'signatures': 300, 'tampered signatures': 2500, 'hkdf': 3000,
           'leading zero secrets over a connection': 20}

CHEAP = (0x17, 0x18, 0x19, 0x1d, 0x1e, 0x100)
ALL = tuple(ref13.GROUPS)


def cases(tier, seed):
    k = 3 if tier == 'quick' else 30
    out = []
    for g in ALL:
        n = {0x17: 10, 0x1d: 10, 0x1e: 8, 0x18: 8, 0x19: 6, 0x100: 8, 0x101: 4, 0x102: 3, 0x103: 2, 0x104: 2}[g]
        out += [{'what': 'exchange', 'group': g, 'n': i} for i in range(n * k)]
        out += [{'what': 'shares', 'group': g, 'n': i} for i in range((4 if g in CHEAP else 1) * k)]
        for role in ('client', 'server'):
            out += [{'what': 'wire', 'group': g, 'role': role, 'n': i} for i in range((6 if g in CHEAP else 2) * k)]
    out += [{'what': 'zeros', 'group': g, 'n': i} for g in (0x100, 0x101, 0x102) for i in range(3 * k)]
    out += [{'what': 'share-zeros', 'group': g, 'n': i} for g in CHEAP for i in range(2 * k)]
    out += [{'what': 'wire-zeros', 'group': g, 'n': i} for g in (0x100, 0x101, 0x17, 0x18, 0x1d, 0x1e) for i in range(4 * k)]
    for s in ref13.SIGS:
        out += [{'what': 'signature', 'scheme': s, 'n': i} for i in range(6 * k)]
    out += [{'what': 'suites', 'n': 0}]
    out += [{'what': 'hkdf', 'n': i} for i in range(8 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what'].replace('-', '_')](spec, ctx)


def group_of(no):
    return TLSKeyExchange[NamedGroup(no)], indep.GROUPS[no], ref13.GROUPS[no]


def resume(ctx, lib, private, share, why):
    """ -> the shared key, or None when refused. """
    try:
        return bytes(lib.resume(private, bytes(share)))
    except Exception as exc:
        ctx.check(isinstance(exc, (ValueError, TLSError)), f'{type(exc).__name__} out of a key exchange', f'{why} {exc!r}')
        return None


def expected(ref, private, share):
    try:
        return ref.shared(private, share)
    except Refused:
        return None


# ------------------------------------------------------------- exchanges

def run_exchange(spec, ctx):
    rng, no = ctx.rng, spec['group']
    lib, ref, g = group_of(no)
    rounds = 12 if no in CHEAP else 2 if no < 0x103 else 1
    seen = set()
    for _ in range(rounds):
        a, sa = lib.init()
        b, sb = lib.init()
        ctx.check(len(sa) == len(sb) == g.share_len(), 'a share has not the standard length', f'{g.name} {len(sa)}')
        ctx.check(sa != sb and sa not in seen, 'a share is drawn twice', f'{g.name} {sa.hex()}')
        seen |= {sa, sb}
        if g.kind == 'ec':
            ctx.check(sa[0] == 4, 'a share has not the standard encoding', f'{g.name} {sa[:2].hex()}')
        ka, kb = lib.resume(a, sb), lib.resume(b, sa)
        ctx.check(ka == kb, 'both sides obtain different secrets', f'{g.name} {ka.hex()} {kb.hex()}')
        # with another implementation, and with a second one
        p, sp = ref.keypair()
        ours, theirs = resume(ctx, lib, a, sp, g.name), expected(ref, p, sa)
        ctx.check(ours == theirs, 'the shared key is not the one of an independent implementation',
                  lambda: f'{g.name} {ours and ours.hex()} {theirs and theirs.hex()}')
        size = g.share_len() if g.kind != 'ec' else (g.share_len() - 1) // 2
        ctx.check(len(ka) == size, 'a shared key has not the standard length', f'{g.name} {len(ka)}')
        q, sq = g.generate()
        ctx.check(lib.resume(b, sq) == g.shared(q, sb), 'the shared key is not the one of an independent implementation', g.name)
        ctx.count('exchanges', 3)
    ctx.eval()
    ctx.seen('exchange', g.name, ka[:1], kb[-1:])


def run_zeros(spec, ctx):
    """ Secrets and shares with leading zeros: the peer looks for them. """
    no = spec['group']
    lib, ref, g = group_of(no)
    a, sa = lib.init()
    share, secret = zero_secret(ref, sa)
    for _ in range(3):
        got = resume(ctx, lib, a, share, g.name)
        want = secret.to_bytes(ref.size, 'big')
        ctx.check(got == want, 'the shared key is not the one of an independent implementation',
                  lambda: f'{g.name}: secret with a leading zero {got and got[:4].hex()} {got and len(got)} want {len(want)}')
        ctx.count('leading zero secrets')
        share, secret = zero_secret(ref, sa)
    # a peer's share with leading zeros
    x = int.from_bytes(os.urandom(40), 'big')
    y, s = pow(2, x, ref.p), pow(int.from_bytes(sa, 'big'), x, ref.p)
    lead = 1 << 8 * (ref.size - 1)
    while y >= lead:
        y, s = y * 2 % ref.p, s * int.from_bytes(sa, 'big') % ref.p
    got = resume(ctx, lib, a, y.to_bytes(ref.size, 'big'), g.name)
    ctx.check(got == s.to_bytes(ref.size, 'big'), 'the shared key is not the one of an independent implementation',
              f'{g.name}: share with a leading zero')
    ctx.count('leading zero shares')
    ctx.eval()
    ctx.seen('zeros', g.name)


def zero_secret(ref, their_share):
    """ A share of ours such that the secret begins with a null byte. """
    t = int.from_bytes(their_share, 'big')
    x = int.from_bytes(os.urandom(40), 'big')
    y, s = pow(2, x, ref.p), pow(t, x, ref.p)
    lead = 1 << 8 * (ref.size - 1)
    while s >= lead:
        y, s = y * 2 % ref.p, s * t % ref.p
    return y.to_bytes(ref.size, 'big'), s


def run_share_zeros(spec, ctx):
    """ Our own shares are of constant length, whatever they begin with; the secrets too. """
    no = spec['group']
    lib, ref, g = group_of(no)
    n = 400 if no != 0x100 else 150
    lead = 0
    a, sa = lib.init()
    for _ in range(n):
        b, sb = lib.init()
        ctx.check(len(sb) == g.share_len(), 'a share has not the standard length', f'{g.name} {len(sb)}')
        z = sb[1] if g.kind == 'ec' else sb[0]
        if g.kind == 'ec' and no == 0x19:
            z = sb[2]
        ka = lib.resume(a, sb)
        size = (g.share_len() - 1) // 2 if g.kind == 'ec' else g.share_len()
        ctx.check(len(ka) == size, 'a shared key has not the standard length', f'{g.name} {len(ka)}')
        if z == 0:
            lead += 1
            ctx.count('leading zero shares')
            ctx.check(lib.resume(b, sa) == ka, 'both sides obtain different secrets', f'{g.name} {sb.hex()}')
        if not ka[0]:
            ctx.count('leading zero secrets')
            ctx.check(lib.resume(b, sa) == ka, 'both sides obtain different secrets', f'{g.name} {sb.hex()}')
    ctx.eval()
    ctx.seen('share zeros', g.name, lead > 0)


# ------------------------------------------------------------- bad shares

LOW_25519 = [0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504,
             39382357235489614581723060781553021112529911719440698176882885853963445705823, 2 ** 255 - 20, 2 ** 255 - 19,
             2 ** 255 - 18]


def bad_shares(rng, no, good):
    """ (class, share): none of them is a valid share. """
    g, ref = ref13.GROUPS[no], indep.GROUPS[no]
    n = g.share_len()
    out = [('short', good[:-1]), ('short', good[1:]), ('long', good + b'\0'), ('long', b'\0' + good),
           ('long', good + rng.randbytes(rng.randint(1, 30))), ('half', good[:n // 2]), ('double', good * 2), ('one byte', b'\4'),
           ('zeros', bytes(n)), ('other group', rng.choice([ref13.GROUPS[x].generate()[1] for x in (0x17, 0x18, 0x1d, 0x1e)
                                                            if x != no]))]
    if g.kind == 'x':
        p = ref.p
        low = LOW_25519 if no == 0x1d else [0, 1, p - 1, p, p + 1]
        out += [('low order', v.to_bytes(n, 'little')) for v in low]
        if no == 0x1d:
            out += [('low order', (v | 1 << 255).to_bytes(n, 'little')) for v in low]
    elif g.kind == 'ec':
        p, size = ref.p, ref.size
        x, y = ref.decode(good)
        out += [('compressed', bytes([2 + (y & 1)]) + x.to_bytes(size, 'big')), ('infinity', b'\0'),
                ('infinity', b'\4' + bytes(2 * size)), ('hybrid', bytes([6 + (y & 1)]) + good[1:]),
                ('no format', good[1:]), ('format', bytes([rng.choice((0, 1, 2, 3, 5, 6, 7, 255))]) + good[1:])]
        for _ in range(3):
            bx, by = x ^ 1 << rng.randrange(200), y
            if not ref.on(bx, by):
                out.append(('off curve', b'\4' + bx.to_bytes(size, 'big') + by.to_bytes(size, 'big')))
            by = y ^ 1 << rng.randrange(200)
            if not ref.on(x, by):
                out.append(('off curve', b'\4' + x.to_bytes(size, 'big') + by.to_bytes(size, 'big')))
        if (x + p).bit_length() <= 8 * size:
            out.append(('out of range', b'\4' + (x + p).to_bytes(size, 'big') + y.to_bytes(size, 'big')))
        # small abscissas, so that adding p fits
        for x in range(1, 200):
            y = ref.sqrt(x ** 3 + ref.a * x + ref.b)
            if y is not None and (x + p).bit_length() <= 8 * size:
                out.append(('out of range', b'\4' + (x + p).to_bytes(size, 'big') + y.to_bytes(size, 'big')))
                if (y + p).bit_length() <= 8 * size:
                    out.append(('out of range', b'\4' + x.to_bytes(size, 'big') + (y + p).to_bytes(size, 'big')))
                break
        # on another curve with the same a: the classic invalid curve
        x, y = rng.randrange(p), rng.randrange(p)
        if not ref.on(x, y):
            out.append(('invalid curve', b'\4' + x.to_bytes(size, 'big') + y.to_bytes(size, 'big')))
        out.append(('swapped', b'\4' + good[1 + size:] + good[1:1 + size]))
    else:
        p, size = ref.p, ref.size
        out += [('degenerate', v.to_bytes(size, 'big')) for v in (0, 1, p - 1, p)]
        out += [('out of range', v.to_bytes(size, 'big')) for v in (p + 1, p + 2, (1 << 8 * size) - 1,
                                                                     p + rng.randrange(1, (1 << 8 * size) - p))]
        y = int.from_bytes(good, 'big')
        out += [('out of range', (y + p).to_bytes(size + 1, 'big')), ('long', bytes(rng.randint(1, 5)) + good)]
    return [(kind, bytes(b)) for kind, b in out]


def run_shares(spec, ctx):
    rng, no = ctx.rng, spec['group']
    lib, ref, g = group_of(no)
    a, sa = lib.init()
    _, good = ref.keypair()
    for kind, share in bad_shares(rng, no, good):
        k = expected(ref, 5, share)
        if k is not None:
            ctx.count('not so bad')          # e.g. swapped coordinates on the curve
            continue
        got = resume(ctx, lib, a, share, f'{g.name} {kind}')
        ctx.check(got is None, 'a bad share is accepted', f'{g.name} {kind} {share.hex()[:300]} -> {got and got.hex()[:60]}')
        ctx.count('bad shares')
        ctx.seen('bad', g.name, kind)
    # odd ones which are fine
    if g.kind == 'ec':
        x, y = ref.decode(good)
        odd = [ref.encode((x, ref.p - y)), ref.encode(ref.g)]
    elif g.kind == 'x':
        top = 1 << (255 if no == 0x1d else 448)
        odd = [v.to_bytes(g.share_len(), 'little') for v in
               (2, 9, 5, ref.p - 2, rng.randrange(2, ref.p), min(ref.p + 2, top - 1))]
        odd += [(v | 1 << 255).to_bytes(32, 'little') for v in (2, 9, rng.randrange(2, ref.p))] if no == 0x1d else []
    else:
        odd = []
    for share in odd:
        # compare through a second exchange with the same private key is not possible without knowing it: ours are
        # compared between two library calls and, on the wire of the known key, with the reference
        k, sk = ref.keypair()
        got = resume(ctx, lib, a, share, g.name)
        ctx.check(got is not None, 'a valid share is refused', f'{g.name} {share.hex()}')
        ctx.count('odd shares')
        if g.kind == 'x':
            # b(a P) = a(b P) for the reference's b
            u = int.from_bytes(share, 'little') & top - 1 if no == 0x1d else int.from_bytes(share, 'little')
            want = ref.ladder(k, int.from_bytes(got, 'little'))
            bp = ref.ladder(k, u % ref.p).to_bytes(g.share_len(), 'little')
            other = resume(ctx, lib, a, bp, g.name)
            ctx.check(other is not None and int.from_bytes(other, 'little') == want,
                      'the shared key is not the one of an independent implementation', f'{g.name} {share.hex()}')
    ctx.eval()


def run_wire(spec, ctx):
    """ Neither role goes on with a bad share. """
    rng, no = ctx.rng, spec['group']
    ref = indep.GROUPS[no]
    _, good = ref.keypair()
    shares = [(k, s) for k, s in bad_shares(rng, no, good) if expected(ref, 5, s) is None]
    for kind, share in rng.sample(shares, min(len(shares), 6 if no in CHEAP else 2)):
        sc = scen.simple(groups_c=[no], groups_s=[no])
        secret = rng.choice((bytes(32), bytes(ref.size), b'\1'.rjust(ref.size, b'\0')))
        if spec['role'] == 'client':
            peer = scen.ref_server(sc, lenient=True)
            peer.keygen = lambda g, theirs: (share, secret)
            peer_end = Ref(peer)
            sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
            link = Link(sio, peer_end, *scen.segmenters(rng))
        else:
            peer = scen.ref_client(sc, shares=[no], lenient=True)
            peer.privs[no], peer.pubs[no] = None, share
            peer_end = Ref(peer)
            sio = Sio(scen.server_config(sc))
            link = Link(peer_end, sio, *scen.segmenters(rng))
        try:
            link.handshake()
        except (TypeError, AttributeError):
            if spec['role'] == 'client':
                raise
            # the peer cannot compute anything out of what it shared, which tells it was answered
        name = f'{ref13.GROUPS[no].name} {kind} {share.hex()[:200]}'
        ctx.check(not sio.connected, 'a handshake goes on with a bad share', f"{spec['role']} {name}")
        ctx.check(isinstance(sio.error, TLSError), 'a bad share is not refused with a TLS error',
                  f"{spec['role']} {name} {sio.error!r}")
        flight = [m for m in peer.rx_msgs if m[0] not in ('CH',)]
        ctx.check(spec['role'] == 'client' or not flight, 'a bad share is answered', f'{name} {[m[0] for m in flight]}')
        ctx.count('bad shares over a connection')
        ctx.seen('wire', spec['role'], ref13.GROUPS[no].name, kind, type(sio.error).__name__)
    ctx.eval()


def run_wire_zeros(spec, ctx):
    """ Whole handshakes whose secret begins with a null byte. """
    rng, no = ctx.rng, spec['group']
    ref, g = indep.GROUPS[no], ref13.GROUPS[no]
    sc = scen.simple(groups_c=[no], groups_s=[no])

    def keygen(g, theirs):
        if g.kind == 'ff':
            share, s = zero_secret(ref, theirs)
            return share, s.to_bytes(ref.size, 'big')
        while True:
            k, pub = g.generate()
            s = g.shared(k, theirs)
            if not s[0] or g.kind == 'x' and not s[-1]:
                return pub, s
    peer = scen.ref_server(sc)
    peer.keygen = keygen
    sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
    ref_end = Ref(peer)
    link = Link(sio, ref_end, *scen.segmenters(rng)).handshake()
    ctx.check(sio.connected and ref_end.connected, 'a secret with a leading zero breaks the handshake',
              f'{g.name} {sio.error!r} {ref_end.error!r}')
    sio.write(b'hello')
    link.run()
    ctx.check(bytes(ref_end.take()) == b'hello', 'a secret with a leading zero breaks the handshake', g.name)
    ctx.count('leading zero secrets over a connection')
    ctx.eval()
    ctx.seen('wire zeros', g.name)


# ------------------------------------------------------------- signatures



def numbers(pub):
    """ What the reference needs to know. """
    if isinstance(pub, rsa.RSAPublicKey):
        n = pub.public_numbers()
        return n.n, n.e
    if isinstance(pub, ec.EllipticCurvePublicKey):
        n = pub.public_numbers()
        return indep.CURVES[pub.curve.name], (n.x, n.y)
    return pub.public_bytes_raw()


def oracle(pub, scheme, sig, msg):
    kind = ref13.SIGS[scheme][1]
    nums = numbers(pub)
    try:
        if kind == 'ecdsa':
            return indep.ecdsa(nums[0], nums[1], ref13.SIGS[scheme][2], sig, msg)
        return bool(indep.verify(nums, scheme, sig, msg))
    except Refused:
        return False


_rsa = {}


def keys_for(scheme, rng):
    name, kind, h, curve = ref13.SIGS[scheme]
    if kind in ('pkcs1', 'pss'):
        size = rng.choice((2048, 2048, 2049, 2056, 3072))
        if size == 2048 or size not in _rsa and rng.random() < .7:
            return pki.key('rsa', rng.randrange(3)), pki.key('rsa', 3)
        if size not in _rsa:
            _rsa[size] = rsa.generate_private_key(65537, size)
        return _rsa[size], pki.key('rsa', 0)
    if kind == 'ecdsa':
        return ec.generate_private_key(curve()), ec.generate_private_key(curve())
    cls = ed25519.Ed25519PrivateKey if name == 'ed25519' else ed448.Ed448PrivateKey
    return cls.generate(), cls.generate()


def verifies(ctx, suite, pub, sig, msg, why):
    try:
        r = suite(pub).verify(bytes(sig), msg)
    except InvalidSignature:
        return False
    except Exception as exc:
        ctx.check(isinstance(exc, (ValueError, TLSError)), f'{type(exc).__name__} out of a verification', f'{why} {exc!r}')
        return False
    ctx.check(r is None or r is True, 'a verification neither raises nor is silent', f'{why} {r!r}')
    return True


def run_signature(spec, ctx):
    rng, scheme = ctx.rng, spec['scheme']
    name, kind, h, curve = ref13.SIGS[scheme]
    suite = TLSSignatureSuite[SignatureScheme(scheme)]
    ctx.check(int(suite.iana_id) == scheme, 'a scheme is registered under another number', name)
    key, other = keys_for(scheme, rng)
    pub = key.public_key()
    msg = rng.choice((ref13.CV_SERVER, ref13.CV_CLIENT)) + rng.randbytes(rng.choice((32, 48)))
    if rng.random() < .4:
        msg = rng.randbytes(rng.choice((0, 1, 63, 64, 200, 5000)))
    sigs = set()
    for _ in range(2):
        sig = bytes(suite(key).sign(msg))
        ctx.count('signatures')
        ctx.check(oracle(pub, scheme, sig, msg), 'a signature is not what the standard says', f'{name} {sig.hex()}')
        try:
            ref13.verify(pub, scheme, sig, msg)
        except InvalidSignature:
            ctx.violation('a signature is not what the standard says', f'{name} {sig.hex()}')
        ctx.check(verifies(ctx, suite, pub, sig, msg, name), 'a signature of an independent implementation is refused', name)
        ctx.check(sig not in sigs or kind in ('pkcs1', 'ed'), 'a randomized signature is drawn twice', f'{name} {sig.hex()}')
        sigs.add(sig)
    theirs = ref13.sign(key, scheme, msg)
    ctx.check(verifies(ctx, suite, pub, theirs, msg, name), 'a signature of an independent implementation is refused', name)

    def judge(what, pub, sig, msg):
        want = oracle(pub, scheme, sig, msg)
        got = verifies(ctx, suite, pub, sig, msg, f'{name} {what}')
        ctx.check(got == want, 'a bad signature verifies' if got else 'a signature of an independent implementation is refused',
                  f'{name} {what} {bytes(sig).hex()}')
        ctx.count('tampered signatures')
        ctx.seen('sig', name, what, got)

    judge('other key', other.public_key(), sig, msg)
    judge('other message', pub, sig, msg + b'\0')
    judge('other message', pub, sig, rng.randbytes(80))
    judge('digest instead', pub, sig, hashlib.new(h or 'sha512', msg).digest())
    if msg:
        m = bytearray(msg)
        m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
        judge('other message', pub, sig, bytes(m))
        judge('other message', pub, sig, msg[:-1])
    judge('role swapped', pub, suite(key).sign(ref13.CV_SERVER + bytes(32)), ref13.CV_CLIENT + bytes(32))
    for _ in range(14):
        b = bytearray(sig)
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        judge('bit flip', pub, bytes(b), msg)
    for what, b in (('empty', b''), ('short', sig[:-1]), ('short', sig[1:]), ('long', sig + b'\0'), ('long', b'\0' + sig),
                    ('zeros', bytes(len(sig))), ('ones', b'\xff' * len(sig)), ('random', rng.randbytes(len(sig)))):
        judge(what, pub, b, msg)
    # the same key, another scheme
    for s2, (n2, k2, h2, c2) in ref13.SIGS.items():
        if s2 == scheme:
            continue
        try:
            b = ref13.sign(key, s2, msg)
        except Exception:
            continue
        judge(f'signed as {n2}', pub, b, msg)
    if kind == 'ecdsa':
        r, s = indep.der_ints(sig)
        n = numbers(pub)[0].n
        for what, r2, s2 in (('negated', r, n - s), ('r zero', 0, s), ('s zero', r, 0), ('both zero', 0, 0), ('s over n', r, s + n),
                             ('r over n', r + n, s), ('r is n', n, s), ('negative', -r, s), ('swapped', s, r), ('one', 1, 1)):
            judge(what, pub, der(r2, s2), msg)
        judge('BER', pub, b'\x30\x81' + sig[1:] if sig[1] < 128 else sig, msg)
        judge('trailing in the sequence', pub, bytes([sig[0]]) + bytes([sig[1] + 2]) + sig[2:] + b'\5\0'
              if sig[1] < 120 else sig, msg)
        for size in ('sha1', 'sha224'):
            judge('weak digest', pub, key.sign(msg, ec.ECDSA({'sha1': hashes.SHA1(), 'sha224': hashes.SHA224()}[size])), msg)
    elif kind == 'pss':
        H = {'sha256': hashes.SHA256, 'sha384': hashes.SHA384, 'sha512': hashes.SHA512}[h]
        for salt in (0, 1, 20, H.digest_size - 1, H.digest_size + 1, padding.PSS.MAX_LENGTH):
            judge('salt length', pub, key.sign(msg, padding.PSS(padding.MGF1(H()), salt), H()), msg)
        for M in (hashes.SHA1, hashes.SHA256, hashes.SHA384):
            if M is not H:
                judge('other MGF', pub, key.sign(msg, padding.PSS(padding.MGF1(M()), H.digest_size), H()), msg)
        judge('weak digest', pub, key.sign(msg, padding.PSS(padding.MGF1(hashes.SHA1()), 20), hashes.SHA1()), msg)
        if spec['n'] % 4 == 0:
            for _ in range(1200):
                b = suite(key).sign(msg)
                if not b[0]:
                    judge('leading zero', pub, b, msg)
                    judge('leading zero removed', pub, b[1:], msg)
                    ctx.count('leading zero signatures')
                    break
    elif kind == 'pkcs1':
        judge('weak digest', pub, key.sign(msg, padding.PKCS1v15(), hashes.SHA1()), msg)
    if kind in ('pss', 'pkcs1'):
        n = numbers(pub)[0]
        size = (n.bit_length() + 7) // 8
        v = int.from_bytes(sig, 'big') + n
        if v.bit_length() <= 8 * size:
            judge('plus modulus', pub, v.to_bytes(size, 'big'), msg)
        judge('negated', pub, (n - int.from_bytes(sig, 'big')).to_bytes(size, 'big'), msg)
    if kind == 'ed':
        E = indep.ED25519 if name == 'ed25519' else indep.ED448
        s = int.from_bytes(sig[E.size:], 'little')
        for what, v in (('S plus L', s + E.L), ('S negated', E.L - s), ('S zero', 0), ('S is L', E.L)):
            judge(what, pub, sig[:E.size] + v.to_bytes(E.size, 'little'), msg)
    ctx.eval()


def der(r, s):
    def integer(v):
        n = max(1, (v.bit_length() + 8) // 8)
        b = v.to_bytes(n, 'big', signed=True)
        return b'\2' + bytes([len(b)]) + b
    b = integer(r) + integer(s)
    return b'\x30' + (bytes([len(b)]) if len(b) < 128 else b'\x81' + bytes([len(b)])) + b


def run_suites(spec, ctx):
    """ The suites of a key are those of the standard. """
    for s in SignatureScheme:
        try:
            TLSSignatureSuite[s]
        except KeyError:
            ctx.check(int(s) not in ref13.SIGS, 'a scheme is missing', repr(s))
        else:
            ctx.check(int(s) in ref13.SIGS, 'an unknown scheme is implemented', repr(s))
    for g in NamedGroup:
        try:
            TLSKeyExchange[g]
        except KeyError:
            ctx.check(int(g) not in ref13.GROUPS, 'a group is missing', repr(g))
        else:
            ctx.check(int(g) in ref13.GROUPS, 'an unknown group is implemented', repr(g))
    # the constants of the finite field groups, wherever they are
    try:
        from siotls.crypto import ffdhe
    except ImportError:
        ffdhe = None
    for bits in (2048, 3072, 4096, 6144, 8192):
        p = ref13.ffdhe_prime(bits)
        for suffix, want in (('p', p), ('q', p // 2)):
            raw = getattr(ffdhe, f'ffdhe{bits}_{suffix}', None)
            if isinstance(raw, bytes):
                ctx.check(int.from_bytes(raw, 'big') == want, 'a constant is not the one of RFC 7919', f'{bits} {suffix}')
                ctx.count('constants')
    ctx.eval()


# ------------------------------------------------------------------ HKDF

RFC5869 = [
    ('sha256', '0b' * 22, '000102030405060708090a0b0c', 'f0f1f2f3f4f5f6f7f8f9', 42,
     '077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5',
     '3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865'),
    ('sha256', bytes(range(0x50)).hex(), bytes(range(0x60, 0xb0)).hex(), bytes(range(0xb0, 0x100)).hex(), 82,
     '06a6b88c5853361a06104c9ceb35b45cef760014904671014a193f40c15fc244',
     'b11e398dc80327a1c8e7f78c596a49344f012eda2d4efad8a050cc4c19afa97c59045a99cac7827271cb41c65e590e09da3275600c2f09b8367793a9'
     'aca3db71cc30c58179ec3e87c14c01d5c1f3434f1d87'),
    ('sha256', '0b' * 22, '', '', 42, '19ef24a32c717b167f33a91d6f648bdf96596776afdb6377ac434c1c293ccb04',
     '8da4e775a563c18f715f802a063c5a31b8a11f5c5ee1879ec3454e5f3c738d2d9d201395faa4b61a96c8'),
    ('sha1', '0b' * 11, '000102030405060708090a0b0c', 'f0f1f2f3f4f5f6f7f8f9', 42, '9b6c18c432a7bf8f0e71c8eb88f4b30baa2ba243',
     '085a01ea1b10f36933068b56efa5ad81a4f14b822f5b091568a9cdd4f155fda2c22e422478d305f3f896'),
]


def run_hkdf(spec, ctx):
    rng = ctx.rng
    for h, ikm, salt, info, n, prk, okm in RFC5869:
        mod = getattr(hashlib, h)
        got = hkdf.hkdf_extract(mod, bytes.fromhex(salt), bytes.fromhex(ikm))
        ctx.check(got.hex() == prk, 'HKDF is not RFC 5869', f'extract {h} {got.hex()}')
        out = hkdf.hkdf_expand(mod, bytes.fromhex(prk), bytes.fromhex(info), n)
        ctx.check(out.hex() == okm, 'HKDF is not RFC 5869', f'expand {h} {out.hex()}')
        ctx.count('hkdf', 2)
    for h in ('sha256', 'sha384'):
        mod = getattr(hashlib, h)
        hl = mod().digest_size
        for n in {*range(0, 2 * hl + 3), 254 * hl + 1, 255 * hl, rng.randrange(255 * hl)}:
            prk, info = rng.randbytes(hl), rng.randbytes(rng.choice((0, 1, 10, 300)))
            out = hkdf.hkdf_expand(mod, prk, info, n)
            ctx.check(out == ref13.expand(h, prk, info, n), 'HKDF is not RFC 5869', f'expand {h} {n}')
            ctx.count('hkdf')
        try:
            hkdf.hkdf_expand(mod, prk, b'', 255 * hl + 1)
        except Exception:
            pass
        else:
            ctx.violation('HKDF expands more than 255 blocks', h)
        for _ in range(40):
            salt, ikm = rng.randbytes(rng.choice((0, 1, hl, 64, 65, 128, 129, 300))), rng.randbytes(rng.choice((0, 1, 32, 48, 300)))
            ctx.check(hkdf.hkdf_extract(mod, salt, ikm) == indep.extract(h, salt, ikm), 'HKDF is not RFC 5869', f'extract {h}')
            label = rng.choice((b'', b'key', b'iv', b'finished', b'c hs traffic', rng.randbytes(rng.randint(1, 200))))
            context, n = rng.randbytes(rng.choice((0, hl, 1, 255))), rng.choice((0, 1, 12, 16, 32, hl, hl + 1, 300))
            prk = rng.randbytes(hl)
            want = ref13.expand(h, prk, n.to_bytes(2, 'big') + bytes([len(label) + 6]) + b'tls13 ' + label + bytes([len(context)])
                                + context, n)
            ctx.check(hkdf.hkdf_expand_label(mod, prk, label, context, n) == want, 'HKDF-Expand-Label is not RFC 8446',
                      f'{h} {label} {n}')
            ctx.count('hkdf', 2)
        th = rng.randbytes(hl)
        ctx.check(hkdf.derive_secret(mod, prk, b'derived', th) == ref13.expand_label(h, prk, 'derived', th, hl),
                  'HKDF-Expand-Label is not RFC 8446', h)
    ctx.eval()
    ctx.seen('hkdf', spec['n'])
