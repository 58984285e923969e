"""
An independent, deliberately small TLS 1.3 (RFC 8446) implementation.

It shares no code with siotls: the key schedule is written on top of the
standard library's hmac/hashlib, messages are built and parsed by hand, and the
finite field groups are recomputed from the formula of RFC 7919. It plays three
roles in the framework:

* a strict conforming peer (every deviation of the other side is a RefError),
* a hostile peer: `script` lets a check replace, drop, repeat, insert or modify
  any message while keeping the cryptography right,
* the building blocks of the passive wire monitor (see monitor.py).
"""
import hashlib
import hmac
import os
import struct

from cryptography import x509
from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import (
    ec, ed448, ed25519, padding, rsa, x448, x25519)
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM, ChaCha20Poly1305
from cryptography.hazmat.primitives.serialization import (
    Encoding, PublicFormat, load_der_public_key)

CCS, ALERT, HANDSHAKE, APPDATA, HEARTBEAT = 20, 21, 22, 23, 24
CH, SH, NST, EOED, EE, CERT, CR, CV, FIN, KU, MSGHASH = 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254
HS_NAMES = {CH: 'CH', SH: 'SH', NST: 'NST', EOED: 'EOED', EE: 'EE', CERT: 'CERT', CR: 'CR',
            CV: 'CV', FIN: 'FIN', KU: 'KU', MSGHASH: 'MSGHASH'}

X_SNI, X_MFL, X_STATUS, X_GROUPS, X_SIGALGS, X_SRTP, X_HEARTBEAT, X_ALPN = 0, 1, 5, 10, 13, 14, 15, 16
X_SCT, X_CCT, X_SCERTT, X_PADDING, X_PSK, X_EARLY, X_VERSIONS, X_COOKIE = 18, 19, 20, 21, 41, 42, 43, 44
X_PSKMODES, X_CAS, X_OIDF, X_PHA, X_SIGALGSCERT, X_KEYSHARE = 45, 47, 48, 49, 50, 51

HRR_RANDOM = hashlib.sha256(b'HelloRetryRequest').digest()

ALERTS = {
    0: 'close_notify', 10: 'unexpected_message', 20: 'bad_record_mac', 22: 'record_overflow',
    40: 'handshake_failure', 42: 'bad_certificate', 43: 'unsupported_certificate',
    44: 'certificate_revoked', 45: 'certificate_expired', 46: 'certificate_unknown',
    47: 'illegal_parameter', 48: 'unknown_ca', 49: 'access_denied', 50: 'decode_error',
    51: 'decrypt_error', 70: 'protocol_version', 71: 'insufficient_security',
    80: 'internal_error', 86: 'inappropriate_fallback', 90: 'user_canceled',
    109: 'missing_extension', 110: 'unsupported_extension', 112: 'unrecognized_name',
    113: 'bad_certificate_status_response', 115: 'unknown_psk_identity',
    116: 'certificate_required', 120: 'no_application_protocol',
}
ALERT_NO = {v: k for k, v in ALERTS.items()}


class RefError(Exception):
    """ The other side broke the protocol. """
    def __init__(self, what, alert=None):
        super().__init__(what)
        self.alert = alert


# --------------------------------------------------------------- suites

class Suite:
    def __init__(self, code, name, hashname, aead, keylen, taglen):
        self.code, self.name, self.hash, self.keylen, self.taglen = code, name, hashname, keylen, taglen
        self.aead = aead
        self.hlen = hashlib.new(hashname).digest_size


SUITES = {s.code: s for s in (
    Suite(0x1301, 'AES128GCM', 'sha256', AESGCM, 16, 16),
    Suite(0x1302, 'AES256GCM', 'sha384', AESGCM, 32, 16),
    Suite(0x1303, 'CHACHA20', 'sha256', ChaCha20Poly1305, 32, 16),
    Suite(0x1304, 'AES128CCM', 'sha256', AESCCM, 16, 16),
    Suite(0x1305, 'AES128CCM8', 'sha256', lambda k: AESCCM(k, tag_length=8), 16, 8),
)}


def extract(h, salt, ikm):
    return hmac.new(salt or bytes(hashlib.new(h).digest_size), ikm, h).digest()


def expand(h, prk, info, n):
    out, t, i = b'', b'', 0
    while len(out) < n:
        i += 1
        t = hmac.new(prk, t + info + bytes([i]), h).digest()
        out += t
    return out[:n]


def expand_label(h, secret, label, context, n):
    lab = b'tls13 ' + label.encode()
    return expand(h, secret, struct.pack('!H', n) + bytes([len(lab)]) + lab
                  + bytes([len(context)]) + context, n)


class Schedule:
    """ RFC 8446 section 7.1, without PSK. """
    def __init__(self, suite):
        self.suite, self.h, n = suite, suite.hash, suite.hlen
        self.zero = bytes(n)
        self.empty = hashlib.new(self.h).digest()
        self.early = extract(self.h, self.zero, self.zero)

    def ds(self, secret, label, th):
        return expand_label(self.h, secret, label, th, self.suite.hlen)

    def handshake(self, shared, th_sh):
        self.hs = extract(self.h, self.ds(self.early, 'derived', self.empty), shared)
        self.c_hs = self.ds(self.hs, 'c hs traffic', th_sh)
        self.s_hs = self.ds(self.hs, 's hs traffic', th_sh)
        self.master = extract(self.h, self.ds(self.hs, 'derived', self.empty), self.zero)

    def application(self, th_sfin):
        self.c_ap = self.ds(self.master, 'c ap traffic', th_sfin)
        self.s_ap = self.ds(self.master, 's ap traffic', th_sfin)
        self.exp = self.ds(self.master, 'exp master', th_sfin)

    def finished(self, base, th):
        key = expand_label(self.h, base, 'finished', b'', self.suite.hlen)
        return hmac.new(key, th, self.h).digest()


class Rec:
    """ Record protection of one direction for one key. """
    def __init__(self, suite, secret):
        self.suite, self.secret = suite, secret
        self.key = expand_label(suite.hash, secret, 'key', b'', suite.keylen)
        self.iv = expand_label(suite.hash, secret, 'iv', b'', 12)
        self.aead = suite.aead(self.key)
        self.seq = 0

    def nonce(self, seq):
        return (int.from_bytes(self.iv, 'big') ^ seq).to_bytes(12, 'big')

    def seal_inner(self, inner, header=None):
        n = len(inner) + self.suite.taglen
        header = header or struct.pack('!BHH', 23, 0x0303, n)
        body = self.aead.encrypt(self.nonce(self.seq), bytes(inner), header)
        self.seq += 1
        return header + body

    def seal(self, ctype, data, pad=0):
        return self.seal_inner(bytes(data) + bytes([ctype]) + bytes(pad))

    def open(self, header, body):
        try:
            inner = self.aead.decrypt(self.nonce(self.seq), bytes(body), bytes(header))
        except (InvalidTag, ValueError) as exc:
            raise RefError('record cannot be deprotected', 'bad_record_mac') from exc
        self.seq += 1
        return inner


def split_inner(inner):
    stripped = inner.rstrip(b'\x00')
    if not stripped:
        raise RefError('no content type in protected record', 'unexpected_message')
    return stripped[-1], stripped[:-1], len(inner) - len(stripped)


# --------------------------------------------------------------- groups

def _e_scaled(bits):
    """ floor(2**bits * e) """
    guard = 64
    one = 1 << (bits + guard)
    total, term, n = 0, one, 1
    while term:
        total += term
        term //= n
        n += 1
    return total >> guard


_FF_X = {2048: 560316, 3072: 2625351, 4096: 5736041, 6144: 15705020, 8192: 10965728}
_ff_cache = {}


def ffdhe_prime(bits):
    if bits not in _ff_cache:
        _ff_cache[bits] = (2 ** bits - 2 ** (bits - 64)
                           + (_e_scaled(bits - 130) + _FF_X[bits]) * 2 ** 64 - 1)
    return _ff_cache[bits]


class Group:
    def __init__(self, code, name, kind, param):
        self.code, self.name, self.kind, self.param = code, name, kind, param

    def generate(self):
        if self.kind == 'x':
            priv = self.param[0].generate()
            return priv, priv.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
        if self.kind == 'ec':
            priv = ec.generate_private_key(self.param())
            nums = priv.public_key().public_numbers()
            size = (self.param().key_size + 7) // 8
            return priv, b'\x04' + nums.x.to_bytes(size, 'big') + nums.y.to_bytes(size, 'big')
        p = ffdhe_prime(self.param)
        x = int.from_bytes(os.urandom(64), 'big') | 1 << 500
        return x, pow(2, x, p).to_bytes(self.param // 8, 'big')

    def share_len(self):
        if self.kind == 'x':
            return self.param[2]
        if self.kind == 'ec':
            return 1 + 2 * ((self.param().key_size + 7) // 8)
        return self.param // 8

    def shared(self, priv, pub):
        if len(pub) != self.share_len():
            raise RefError(f'{self.name} share of {len(pub)} bytes', 'illegal_parameter')
        try:
            if self.kind == 'x':
                return priv.exchange(self.param[1].from_public_bytes(bytes(pub)))
            if self.kind == 'ec':
                size = (self.param().key_size + 7) // 8
                if pub[0] != 4:
                    raise ValueError('not an uncompressed point')
                nums = ec.EllipticCurvePublicNumbers(
                    int.from_bytes(pub[1:1 + size], 'big'), int.from_bytes(pub[1 + size:], 'big'),
                    self.param())
                return priv.exchange(ec.ECDH(), nums.public_key())
        except ValueError as exc:
            raise RefError(f'bad {self.name} share', 'illegal_parameter') from exc
        p = ffdhe_prime(self.param)
        y = int.from_bytes(pub, 'big')
        if not 1 < y < p - 1:
            raise RefError(f'bad {self.name} share', 'illegal_parameter')
        return pow(y, priv, p).to_bytes(self.param // 8, 'big')


GROUPS = {g.code: g for g in (
    Group(0x17, 'secp256r1', 'ec', ec.SECP256R1), Group(0x18, 'secp384r1', 'ec', ec.SECP384R1),
    Group(0x19, 'secp521r1', 'ec', ec.SECP521R1),
    Group(0x1d, 'x25519', 'x', (x25519.X25519PrivateKey, x25519.X25519PublicKey, 32)),
    Group(0x1e, 'x448', 'x', (x448.X448PrivateKey, x448.X448PublicKey, 56)),
    Group(0x100, 'ffdhe2048', 'ff', 2048), Group(0x101, 'ffdhe3072', 'ff', 3072),
    Group(0x102, 'ffdhe4096', 'ff', 4096), Group(0x103, 'ffdhe6144', 'ff', 6144),
    Group(0x104, 'ffdhe8192', 'ff', 8192),
)}

# ----------------------------------------------------------- signatures

_H = {'sha256': hashes.SHA256, 'sha384': hashes.SHA384, 'sha512': hashes.SHA512}
SIGS = {
    0x0401: ('rsa_pkcs1_sha256', 'pkcs1', 'sha256', None),
    0x0501: ('rsa_pkcs1_sha384', 'pkcs1', 'sha384', None),
    0x0601: ('rsa_pkcs1_sha512', 'pkcs1', 'sha512', None),
    0x0403: ('ecdsa_secp256r1_sha256', 'ecdsa', 'sha256', ec.SECP256R1),
    0x0503: ('ecdsa_secp384r1_sha384', 'ecdsa', 'sha384', ec.SECP384R1),
    0x0603: ('ecdsa_secp521r1_sha512', 'ecdsa', 'sha512', ec.SECP521R1),
    0x0804: ('rsa_pss_rsae_sha256', 'pss', 'sha256', None),
    0x0805: ('rsa_pss_rsae_sha384', 'pss', 'sha384', None),
    0x0806: ('rsa_pss_rsae_sha512', 'pss', 'sha512', None),
    0x0807: ('ed25519', 'ed', None, ed25519.Ed25519PublicKey),
    0x0808: ('ed448', 'ed', None, ed448.Ed448PublicKey),
    0x0809: ('rsa_pss_pss_sha256', 'pss', 'sha256', None),
    0x080a: ('rsa_pss_pss_sha384', 'pss', 'sha384', None),
    0x080b: ('rsa_pss_pss_sha512', 'pss', 'sha512', None),
}
SIG_NO = {v[0]: k for k, v in SIGS.items()}
TLS13_SIGS = [c for c in SIGS if SIGS[c][1] != 'pkcs1']


def schemes_for(pubkey, pss_oid=False):
    """ TLS 1.3 CertificateVerify schemes usable with that key. """
    if isinstance(pubkey, rsa.RSAPublicKey):
        return [0x0809, 0x080a, 0x080b] if pss_oid else [0x0804, 0x0805, 0x0806]
    if isinstance(pubkey, ec.EllipticCurvePublicKey):
        return [c for c, s in SIGS.items() if s[1] == 'ecdsa' and isinstance(pubkey.curve, s[3])]
    return [c for c, s in SIGS.items() if s[1] == 'ed' and isinstance(pubkey, s[3])]


def sign(key, scheme, msg):
    _, kind, h, _ = SIGS[scheme]
    if kind == 'ed':
        return key.sign(msg)
    h = _H[h]()
    if kind == 'ecdsa':
        return key.sign(msg, ec.ECDSA(h))
    if kind == 'pkcs1':
        return key.sign(msg, padding.PKCS1v15(), h)
    return key.sign(msg, padding.PSS(padding.MGF1(h), h.digest_size), h)


def verify(pub, scheme, sig, msg):
    """ Raises InvalidSignature (or TypeError/AttributeError on key mismatch). """
    _, kind, h, _ = SIGS[scheme]
    if kind == 'ed':
        return pub.verify(sig, msg)
    h = _H[h]()
    if kind == 'ecdsa':
        return pub.verify(sig, msg, ec.ECDSA(h))
    if kind == 'pkcs1':
        return pub.verify(sig, msg, padding.PKCS1v15(), h)
    return pub.verify(sig, msg, padding.PSS(padding.MGF1(h), h.digest_size), h)


CV_SERVER = b' ' * 64 + b'TLS 1.3, server CertificateVerify\x00'
CV_CLIENT = b' ' * 64 + b'TLS 1.3, client CertificateVerify\x00'

# ------------------------------------------------------------- encoding


def u8(n): return bytes([n])
def u16(n): return struct.pack('!H', n)
def u24(n): return n.to_bytes(3, 'big')
def u32(n): return struct.pack('!I', n)
def v8(b): return u8(len(b)) + bytes(b)
def v16(b): return u16(len(b)) + bytes(b)
def v24(b): return u24(len(b)) + bytes(b)
def hs(t, body): return u8(t) + v24(body)
def ext(t, body): return u16(t) + v16(body)
def list16(items): return v16(b''.join(u16(i) for i in items))


class R:
    """ Strict reader. """
    def __init__(self, b):
        self.b, self.p = bytes(b), 0

    def take(self, n):
        if self.p + n > len(self.b):
            raise RefError('truncated', 'decode_error')
        out = self.b[self.p:self.p + n]
        self.p += n
        return out

    def u8(self): return self.take(1)[0]
    def u16(self): return int.from_bytes(self.take(2), 'big')
    def u24(self): return int.from_bytes(self.take(3), 'big')
    def u32(self): return int.from_bytes(self.take(4), 'big')
    def v8(self): return self.take(self.u8())
    def v16(self): return self.take(self.u16())
    def v24(self): return self.take(self.u24())
    def more(self): return self.p < len(self.b)

    def end(self):
        if self.more():
            raise RefError(f'{len(self.b) - self.p} trailing bytes', 'decode_error')


def u16s(b):
    if len(b) % 2:
        raise RefError('odd length', 'decode_error')
    return [int.from_bytes(b[i:i + 2], 'big') for i in range(0, len(b), 2)]


def parse_exts(r):
    """ [(type, body)] in order; duplicates are errors. """
    out = []
    rr = R(r.v16())
    while rr.more():
        t = rr.u16()
        out.append((t, rr.v16()))
    if len({t for t, _ in out}) != len(out):
        raise RefError('duplicated extension', 'illegal_parameter')
    return out


def split_handshakes(data):
    msgs, p = [], 0
    while p < len(data):
        if len(data) - p < 4:
            raise RefError('truncated handshake')
        n = int.from_bytes(data[p + 1:p + 4], 'big')
        if p + 4 + n > len(data):
            raise RefError('truncated handshake')
        msgs.append(bytes(data[p:p + 4 + n]))
        p += 4 + n
    return msgs


def parse_client_hello(body):
    r = R(body)
    d = {'legacy_version': r.u16(), 'random': r.take(32), 'session_id': r.v8()}
    d['suites'] = u16s(r.v16())
    d['compression'] = r.v8()
    d['exts'] = parse_exts(r)
    r.end()
    if d['legacy_version'] != 0x0303:
        raise RefError('ClientHello.legacy_version', 'protocol_version')
    if len(d['session_id']) > 32 or not d['suites'] or d['compression'] != b'\x00':
        raise RefError('bad ClientHello', 'illegal_parameter')
    x = d['x'] = dict(d['exts'])
    if X_VERSIONS in x:
        rr = R(x[X_VERSIONS])
        d['versions'] = u16s(rr.v8())
        rr.end()
    for k, name in ((X_GROUPS, 'groups'), (X_SIGALGS, 'sigalgs')):
        if k in x:
            rr = R(x[k])
            d[name] = u16s(rr.v16())
            rr.end()
            if not d[name]:
                raise RefError(f'empty {name}', 'decode_error')
    if X_KEYSHARE in x:
        rr = R(x[X_KEYSHARE])
        shares = R(rr.v16())
        rr.end()
        d['shares'] = []
        while shares.more():
            g = shares.u16()
            k = shares.v16()
            if not k:
                raise RefError('empty share', 'decode_error')
            d['shares'].append((g, k))
        if len({g for g, _ in d['shares']}) != len(d['shares']):
            raise RefError('duplicated share', 'illegal_parameter')
    if X_ALPN in x:
        rr = R(x[X_ALPN])
        names = R(rr.v16())
        rr.end()
        d['alpn'] = []
        while names.more():
            d['alpn'].append(names.v8())
        if not d['alpn'] or not all(d['alpn']):
            raise RefError('bad ALPN', 'decode_error')
    if X_SNI in x:
        rr = R(x[X_SNI])
        names = R(rr.v16())
        rr.end()
        if names.u8() != 0:
            raise RefError('bad SNI type')
        d['sni'] = names.v16()
        names.end()
        if not d['sni']:
            raise RefError('empty SNI')
    if X_MFL in x:
        if len(x[X_MFL]) != 1 or not 1 <= x[X_MFL][0] <= 4:
            raise RefError('bad max_fragment_length', 'illegal_parameter')
        d['mfl'] = x[X_MFL][0]
    if X_HEARTBEAT in x:
        if len(x[X_HEARTBEAT]) != 1 or x[X_HEARTBEAT][0] not in (1, 2):
            raise RefError('bad heartbeat mode', 'illegal_parameter')
        d['heartbeat'] = x[X_HEARTBEAT][0]
    for k, name in ((X_CCT, 'client_cert_types'), (X_SCERTT, 'server_cert_types')):
        if k in x:
            rr = R(x[k])
            d[name] = list(rr.v8())
            rr.end()
            if not d[name]:
                raise RefError(f'empty {name}')
    if X_STATUS in x:
        rr = R(x[X_STATUS])
        if rr.u8() != 1:
            raise RefError('bad status type')
        d['status'] = (rr.v16(), rr.v16())
        rr.end()
    if X_COOKIE in x:
        rr = R(x[X_COOKIE])
        d['cookie'] = rr.v16()
        rr.end()
        if not d['cookie']:
            raise RefError('empty cookie')
    return d


def parse_server_hello(body):
    r = R(body)
    d = {'legacy_version': r.u16(), 'random': r.take(32), 'session_id': r.v8(),
         'suite': r.u16(), 'compression': r.u8()}
    d['exts'] = parse_exts(r)
    r.end()
    if d['legacy_version'] != 0x0303 or d['compression'] or len(d['session_id']) > 32:
        raise RefError('bad ServerHello', 'illegal_parameter')
    x = d['x'] = dict(d['exts'])
    d['hrr'] = d['random'] == HRR_RANDOM
    allowed = {X_VERSIONS, X_KEYSHARE, X_COOKIE} if d['hrr'] else {X_VERSIONS, X_KEYSHARE, X_PSK}
    if set(x) - allowed:
        raise RefError(f'extensions {set(x) - allowed} in ServerHello', 'unsupported_extension')
    if X_VERSIONS in x:
        rr = R(x[X_VERSIONS])
        d['version'] = rr.u16()
        rr.end()
    if X_KEYSHARE in x:
        rr = R(x[X_KEYSHARE])
        d['group'] = rr.u16()
        if not d['hrr']:
            d['share'] = rr.v16()
        rr.end()
    if X_COOKIE in x:
        rr = R(x[X_COOKIE])
        d['cookie'] = rr.v16()
        rr.end()
    return d


def parse_certificate(body):
    r = R(body)
    ctx = r.v8()
    rr = R(r.v24())
    r.end()
    entries = []
    while rr.more():
        data = rr.v24()
        if not data:
            raise RefError('empty certificate')
        entries.append((data, parse_exts(rr)))
    return ctx, entries


def sh_with(msg, suite=None, exts=None, random=None, session_id=None, compression=None,
            version=None, drop=(), add=()):
    """ A (hello retry request or) server hello with some fields replaced. """
    d = parse_server_hello(msg[4:])
    xs = [(t, (exts or {}).get(t, b)) for t, b in d['exts'] if t not in drop] + list(add)
    return hs(SH, u16(0x0303 if version is None else version) + (random or d['random'])
              + v8(d['session_id'] if session_id is None else session_id)
              + u16(d['suite'] if suite is None else suite)
              + u8(compression or 0) + v16(b''.join(ext(t, b) for t, b in xs)))


def ee_with(msg, exts=None, drop=(), add=()):
    r = R(msg[4:])
    xs = [(t, (exts or {}).get(t, b)) for t, b in parse_exts(r) if t not in drop] + list(add)
    return hs(EE, v16(b''.join(ext(t, b) for t, b in xs)))


# --------------------------------------------------------- record layout

class Layout:
    """
    How a peer cuts its messages into records and pads them. Anything
    this produces is legal; `limit` is the agreed fragment limit.
    """
    MODES = ('single', 'coalesce', 'tiny', 'random', 'full')

    def __init__(self, rng=None, mode='single', pad='none', limit=16384, empties=False):
        self.rng, self.mode, self.padmode, self.limit, self.empties = rng, mode, pad, limit, empties

    def pad(self, n, limit):
        room = max(0, limit - n)
        if self.padmode == 'none' or not room:
            return 0
        if n < 200 and room > 600 and self.rng and self.rng.random() < .97:
            room = 40        # many small records: mostly small paddings
        if self.padmode == 'max':
            return room
        return min(room, self.rng.choice((0, 0, 1, 2, 15, 255, room // 2, room)))

    def cut(self, data, limit):
        if self.mode in ('single', 'coalesce', 'full'):
            size = lambda: limit
        elif self.mode == 'tiny':
            size = lambda: min(limit, self.rng.choice((1, 1, 2, 3, 4, 5, 7)))
        else:
            size = lambda: self.rng.randint(1, limit) if self.rng.random() < .3 \
                else min(limit, self.rng.randint(1, 200))
        out, p = [], 0
        while p < len(data):
            n = size()
            out.append(data[p:p + n])
            p += n
        return out

    def flight(self, msgs, limit):
        if self.mode == 'single':
            groups = list(msgs)
        else:
            groups = [b''.join(msgs)]
        return [(c, self.pad(len(c), limit)) for g in groups for c in self.cut(g, limit)]

    def app(self, data, limit):
        chunks = [(c, self.pad(len(c), limit)) for c in self.cut(data, limit)] if data else [(b'', 0)]
        if self.empties:
            out = []
            for c in chunks:
                if self.rng.random() < .3:
                    out.append((b'', self.pad(0, limit)))
                out.append(c)
            chunks = out
        return chunks


# ---------------------------------------------------------------- peers

class Peer:
    side = None

    def __init__(self, layout=None, script=None, lenient=False):
        self.layout = layout or Layout()
        self.script = script or {}
        self.lenient = lenient          # a hostile peer does not judge
        self.outbuf = bytearray()
        self.inbuf = bytearray()
        self.hsbuf = bytearray()
        self.read = self.write = None   # Rec
        self.read_epoch = self.write_epoch = 'clear'
        self.msgs = []                  # transcript, list of bytes
        self.app_in = bytearray()
        self.alerts_in = []             # (level, desc, epoch)
        self.rx = []                    # records: dict
        self.events = []
        self.marks = []                 # (offset in outbuf, label)
        self.connected = False
        self.peer_closed = False
        self.sent_close = False
        self.mfl = 16384                # negotiated, both directions
        self.ccs_in = 0
        self.heartbeats = []
        self.tickets = []
        self.sched = None
        self.suite = None
        self.state = 'start'
        self.rx_msgs = []               # (name, body, epoch)

    # ---- sending
    def out(self):
        b = bytes(self.outbuf)
        self.outbuf.clear()
        return b

    def put(self, ctype, data, pad=0, version=0x0303):
        if self.write:
            self.outbuf += self.write.seal(ctype, data, pad)
        else:
            self.outbuf += struct.pack('!BHH', ctype, version, len(data)) + bytes(data)

    def put_flight(self, msgs):
        for chunk, pad in self.layout.flight(msgs, self.mfl):
            self.put(HANDSHAKE, chunk, pad if self.write else 0)

    def emit(self, flight):
        """
        flight: [(name, bytes)] for one key epoch. `script[name]` may
        replace a message by a list of items: bytes (sent and hashed),
        ('wire', sent, hashed), ('record', ctype, data), ('raw', bytes).
        """
        pending = []

        def flush():
            if pending:
                self.put_flight(pending)
                pending.clear()

        for name, msg in flight:
            if callable(msg):
                msg = msg()
                if msg is None:
                    continue
            fn = self.script.get(name)
            items = [msg] if fn is None else fn(self, msg)
            for item in items:
                if isinstance(item, (bytes, bytearray)):
                    self.msgs.append(bytes(item))
                    pending.append(bytes(item))
                elif item[0] == 'wire':
                    self.msgs.append(bytes(item[2]))
                    if item[1]:
                        pending.append(bytes(item[1]))
                elif item[0] == 'record':
                    flush()
                    self.put(item[1], item[2], *item[3:])
                elif item[0] == 'raw':
                    flush()
                    self.outbuf += item[1]
                elif item[0] == 'flush':
                    flush()
                elif item[0] == 'mark':
                    flush()
                    self.marks.append((len(self.outbuf), item[1]))
                elif item[0] == 'do':
                    flush()
                    item[1](self)
                else:
                    raise AssertionError(item)
        flush()

    def send_app(self, data):
        for chunk, pad in self.layout.app(bytes(data), self.mfl):
            self.put(APPDATA, chunk, pad)

    def send_alert(self, desc, level=None):
        desc = ALERT_NO.get(desc, desc)
        if level is None:
            level = 1 if desc in (0, 90) else 2
        self.put(ALERT, bytes([level, desc]))

    def close(self):
        if not self.sent_close:
            self.sent_close = True
            self.send_alert('close_notify')

    # ---- hash
    def th(self, extra=()):
        h = hashlib.new(self.suite.hash)
        for m in self.msgs:
            h.update(m)
        for m in extra:
            h.update(m)
        return h.digest()

    # ---- receiving
    def feed(self, data):
        self.inbuf += data
        while True:
            if len(self.inbuf) < 5:
                return
            ctype, ver, n = struct.unpack('!BHH', self.inbuf[:5])
            limit = 16384 if not self.read or ctype == CCS else self.mfl + 256
            if ver not in (0x0303, 0x0301):
                raise RefError(f'record version {ver:#x}', 'protocol_version')
            if ctype not in (CCS, ALERT, HANDSHAKE, APPDATA):
                raise RefError(f'record type {ctype}', 'unexpected_message')
            if n > limit:
                raise RefError(f'record of {n} bytes, limit {limit}', 'record_overflow')
            if len(self.inbuf) < 5 + n:
                return
            header, body = bytes(self.inbuf[:5]), bytes(self.inbuf[5:5 + n])
            del self.inbuf[:5 + n]
            self._record(ctype, header, body)

    def _record(self, ctype, header, body):
        info = {'outer': ctype, 'len': len(body), 'epoch': self.read_epoch}
        self.rx.append(info)
        if ctype == CCS:
            if body != b'\x01':
                raise RefError('bad change_cipher_spec', 'unexpected_message')
            if self.connected:
                raise RefError('change_cipher_spec after the handshake', 'unexpected_message')
            self.ccs_in += 1
            info['inner'] = CCS
            return
        if self.read:
            if ctype != APPDATA:
                raise RefError(f'clear record of type {ctype} under keys', 'unexpected_message')
            info['seq'] = self.read.seq
            inner = self.read.open(header, body)
            ctype, body, pad = split_inner(inner)
            info.update(pad=pad)
            if len(inner) > self.mfl + 1:
                raise RefError(f'inner plaintext of {len(inner)} bytes', 'record_overflow')
            if ctype == CCS:
                raise RefError('protected change_cipher_spec', 'unexpected_message')
        elif ctype == APPDATA:
            raise RefError('application data in clear', 'unexpected_message')
        info['inner'], info['plain'] = ctype, len(body)
        if len(body) > self.mfl:
            raise RefError(f'fragment of {len(body)} bytes, limit {self.mfl}', 'record_overflow')
        if ctype != HANDSHAKE and self.hsbuf:
            raise RefError('interleaved record', 'unexpected_message')
        if ctype == HANDSHAKE:
            if not body:
                raise RefError('empty handshake record', 'unexpected_message')
            self.hsbuf += body
            while len(self.hsbuf) >= 4:
                n = int.from_bytes(self.hsbuf[1:4], 'big')
                if len(self.hsbuf) < 4 + n:
                    break
                msg = bytes(self.hsbuf[:4 + n])
                del self.hsbuf[:4 + n]
                before = self.read
                self.rx_msgs.append((HS_NAMES.get(msg[0], msg[0]), msg[4:], self.read_epoch))
                self.on_handshake(msg[0], msg[4:], msg)
                if self.read is not before and self.hsbuf:
                    raise RefError('handshake spans a key change', 'unexpected_message')
        elif ctype == ALERT:
            if len(body) != 2:
                raise RefError(f'alert of {len(body)} bytes', 'decode_error')
            level, desc = body
            if level not in (1, 2):
                raise RefError(f'alert level {level}')
            self.alerts_in.append((level, ALERTS.get(desc, desc), self.read_epoch))
            if desc == 0:
                self.peer_closed = True
        elif ctype == APPDATA:
            if not self.accepts_app():
                raise RefError('premature application data', 'unexpected_message')
            if self.peer_closed:
                raise RefError('application data after close_notify')
            self.app_in += body
        elif ctype == HEARTBEAT:
            self.heartbeats.append(body)
        else:
            raise RefError(f'inner type {ctype}', 'unexpected_message')

    def accepts_app(self):
        return self.connected

    def set_read(self, secret, epoch):
        self.read, self.read_epoch = Rec(self.suite, secret), epoch

    def set_write(self, secret, epoch):
        self.write, self.write_epoch = Rec(self.suite, secret), epoch

    @property
    def failed_by_peer(self):
        return [a for a in self.alerts_in if a[1] not in ('close_notify', 'user_canceled')]


class RefClient(Peer):
    side = 'client'

    def __init__(self, suites=(0x1303, 0x1302, 0x1301), groups=(0x1d, 0x17), shares=None,
                 sigalgs=tuple(TLS13_SIGS), alpn=None, sni=None, mfl=None, heartbeat=None,
                 client_cert_types=None, server_cert_types=None, status=False, session_id=b'',
                 versions=(0x0304,), extra_exts=(), tweak_ch=None, send_ccs=False,
                 check_cert=None, record_version=0x0303, **kw):
        super().__init__(**kw)
        self.suites, self.groups, self.sigalgs = list(suites), list(groups), list(sigalgs)
        self.share_groups = list(shares if shares is not None else self.groups[:1])
        self.alpn, self.sni, self.mfl_code, self.heartbeat = alpn, sni, mfl, heartbeat
        self.client_cert_types, self.server_cert_types = client_cert_types, server_cert_types
        self.status, self.session_id, self.versions = status, session_id, versions
        self.extra_exts, self.tweak_ch, self.send_ccs = list(extra_exts), tweak_ch, send_ccs
        self.check_cert = check_cert
        self.record_version = record_version
        self.random = os.urandom(32)
        self.privs, self.pubs = {}, {}
        self.cookie = None
        self.hrr = None
        self.got_cr = None
        self.ee = None
        self.server_cert = None
        self.sent_chs = []

    def ch_exts(self):
        e = []
        if self.sni:
            e.append((X_SNI, v16(b'\x00' + v16(self.sni))))
        if self.versions is not None:
            e.append((X_VERSIONS, v8(b''.join(u16(v) for v in self.versions))))
        if self.groups is not None:
            e.append((X_GROUPS, list16(self.groups)))
        if self.sigalgs is not None:
            e.append((X_SIGALGS, list16(self.sigalgs)))
        if self.alpn is not None:
            e.append((X_ALPN, v16(b''.join(v8(a) for a in self.alpn))))
        if self.mfl_code:
            e.append((X_MFL, u8(self.mfl_code)))
        if self.heartbeat:
            e.append((X_HEARTBEAT, u8(self.heartbeat)))
        if self.client_cert_types is not None:
            e.append((X_CCT, v8(bytes(self.client_cert_types))))
        if self.server_cert_types is not None:
            e.append((X_SCERTT, v8(bytes(self.server_cert_types))))
        if self.status:
            e.append((X_STATUS, u8(1) + v16(b'') + v16(b'')))
        if self.cookie:
            e.append((X_COOKIE, v16(self.cookie)))
        if self.share_groups is not None:
            for g in self.share_groups:
                if g not in self.pubs:
                    if g in GROUPS:
                        self.privs[g], self.pubs[g] = GROUPS[g].generate()
                    else:
                        self.pubs[g] = b'\x00'
            e.append((X_KEYSHARE, v16(b''.join(u16(g) + v16(self.pubs[g]) for g in self.share_groups))))
        return e + self.extra_exts

    def client_hello(self, exts=None):
        exts = self.ch_exts() if exts is None else exts
        if self.tweak_ch:
            exts = self.tweak_ch(self, exts)
        return hs(CH, u16(0x0303) + self.random + v8(self.session_id) + list16(self.suites)
                  + v8(b'\x00') + v16(b''.join(ext(t, b) for t, b in exts)))

    def start(self):
        msg = self.client_hello()
        self.sent_chs.append(msg)
        self.emit([('CH' if self.hrr is None else 'CH2', msg)])
        if self.send_ccs and self.hrr is None:
            self.put(CCS, b'\x01')
        self.state = 'wait_sh'

    def on_handshake(self, t, body, msg):
        st = self.state
        if t == SH and st == 'wait_sh':
            return self.on_server_hello(body, msg)
        if t == EE and st == 'wait_ee':
            r = R(body)
            self.ee = parse_exts(r)
            r.end()
            self.on_ee(dict(self.ee))
            self.msgs.append(msg)
            self.state = 'wait_cert_cr'
        elif t == CR and st == 'wait_cert_cr':
            r = R(body)
            self.got_cr = (r.v8(), parse_exts(r))
            r.end()
            if self.got_cr[0] or X_SIGALGS not in dict(self.got_cr[1]):
                raise RefError('bad CertificateRequest')
            self.msgs.append(msg)
            self.state = 'wait_cert'
        elif t == CERT and st in ('wait_cert', 'wait_cert_cr'):
            ctx, entries = parse_certificate(body)
            if ctx or not entries:
                raise RefError('bad server Certificate', 'decode_error')
            self.server_cert = entries
            if self.server_cert_type == 2:
                if len(entries) != 1:
                    raise RefError('raw public key must be alone')
                self.leaf_key, self.pss_oid = load_der_public_key(entries[0][0]), False
            else:
                cert = x509.load_der_x509_certificate(entries[0][0])
                self.leaf_key = cert.public_key()
                self.pss_oid = cert.public_key_algorithm_oid.dotted_string == '1.2.840.113549.1.1.10'
            if self.check_cert:
                self.check_cert(self, entries)
            for _, xs in entries:
                if any(t == X_STATUS for t, _ in xs) and not self.status:
                    raise RefError('unsolicited status', 'unsupported_extension')
            self.msgs.append(msg)
            self.state = 'wait_cv'
        elif t == CV and st == 'wait_cv':
            r = R(body)
            scheme, sig = r.u16(), r.v16()
            r.end()
            if scheme not in self.sigalgs:
                raise RefError(f'scheme {scheme:#x} not offered', 'illegal_parameter')
            if scheme not in schemes_for(self.leaf_key, self.pss_oid):
                raise RefError(f'scheme {scheme:#x} does not fit the key', 'illegal_parameter')
            try:
                verify(self.leaf_key, scheme, sig, CV_SERVER + self.th())
            except Exception as exc:
                raise RefError('bad CertificateVerify', 'decrypt_error') from exc
            self.scheme = scheme
            self.msgs.append(msg)
            self.state = 'wait_fin'
        elif t == FIN and st == 'wait_fin':
            if not hmac.compare_digest(body, self.sched.finished(self.sched.s_hs, self.th())):
                raise RefError('bad server Finished', 'decrypt_error')
            self.msgs.append(msg)
            self.th_sfin = self.th()
            self.sched.application(self.th_sfin)
            self.set_read(self.sched.s_ap, 'app')
            self.second_flight()
        elif t == NST and self.connected:
            r = R(body)
            self.tickets.append((r.u32(), r.u32(), r.v8(), r.v16()))
            parse_exts(r)
            r.end()
        else:
            raise RefError(f'{HS_NAMES.get(t, t)} in {st}', 'unexpected_message')

    def second_flight(self):
        flight = []
        if self.got_cr is not None:
            flight.append(('CERT', hs(CERT, v8(b'') + v24(b''))))
        flight.append(('FIN', lambda: hs(FIN, self.sched.finished(self.sched.c_hs, self.th()))))
        if self.send_ccs == 'late':
            self.outbuf += b'\x14\x03\x03\x00\x01\x01'
        self.emit(flight)
        self.set_write(self.sched.c_ap, 'app')
        self.connected = True
        self.state = 'connected'

    def on_server_hello(self, body, msg):
        d = parse_server_hello(body)
        if d['suite'] not in self.suites or d['suite'] not in SUITES:
            raise RefError(f"suite {d['suite']:#x} not offered", 'illegal_parameter')
        if self.hrr and d['suite'] != self.hrr['suite']:
            raise RefError('suite changed after the retry', 'illegal_parameter')
        if d['session_id'] != self.session_id:
            raise RefError('session id not echoed', 'illegal_parameter')
        if d.get('version') != 0x0304:
            raise RefError('version', 'protocol_version')
        self.suite = SUITES[d['suite']]
        if d['hrr']:
            if self.hrr:
                raise RefError('second HelloRetryRequest', 'unexpected_message')
            if 'group' not in d and 'cookie' not in d:
                raise RefError('useless HelloRetryRequest', 'illegal_parameter')
            if 'group' in d:
                if d['group'] not in self.groups or d['group'] in self.share_groups:
                    raise RefError(f"retry for group {d['group']:#x}", 'illegal_parameter')
                self.share_groups = [d['group']]
            self.hrr = d
            self.cookie = d.get('cookie')
            h1 = hashlib.new(self.suite.hash, self.msgs[0]).digest()
            self.msgs = [hs(MSGHASH, h1), msg]
            if self.send_ccs:
                self.put(CCS, b'\x01')
            return self.start()
        if d.get('group') not in self.privs or d['group'] not in self.share_groups:
            raise RefError(f"group {d.get('group')} not shared", 'illegal_parameter')
        self.server_random = d['random']
        self.sh = d
        self.group = d['group']
        self.msgs.append(msg)
        shared = GROUPS[self.group].shared(self.privs[self.group], d['share'])
        self.shared_key = shared
        self.sched = Schedule(self.suite)
        self.sched.handshake(shared, self.th())
        self.set_read(self.sched.s_hs, 'hs')
        if self.send_ccs is True:
            pass
        self.set_write(self.sched.c_hs, 'hs')
        self.state = 'wait_ee'

    def on_ee(self, x):
        offered = {t for t, _ in self.ch_exts()}
        if set(x) - offered:
            raise RefError(f'unsolicited extensions {set(x) - offered}', 'unsupported_extension')
        allowed = {X_SNI, X_MFL, X_GROUPS, X_SRTP, X_HEARTBEAT, X_ALPN, X_CCT, X_SCERTT, X_EARLY}
        if set(x) - allowed:
            raise RefError(f'extensions {set(x) - allowed} in EncryptedExtensions', 'illegal_parameter')
        self.ee_alpn = None
        if X_ALPN in x:
            r = R(x[X_ALPN])
            rr = R(r.v16())
            r.end()
            self.ee_alpn = rr.v8()
            rr.end()
            if self.ee_alpn not in self.alpn:
                raise RefError('ALPN not offered', 'illegal_parameter')
        if X_MFL in x:
            if x[X_MFL] != u8(self.mfl_code):
                raise RefError('max_fragment_length changed', 'illegal_parameter')
            self.mfl = 2 ** (8 + self.mfl_code)
        self.ee_heartbeat = None
        if X_HEARTBEAT in x:
            if x[X_HEARTBEAT] not in (b'\x01', b'\x02'):
                raise RefError('heartbeat mode')
            self.ee_heartbeat = x[X_HEARTBEAT][0]
        self.server_cert_type = 0
        if X_SCERTT in x:
            if len(x[X_SCERTT]) != 1 or x[X_SCERTT][0] not in self.server_cert_types:
                raise RefError('server certificate type not offered', 'illegal_parameter')
            self.server_cert_type = x[X_SCERTT][0]
        self.client_cert_type = 0
        if X_CCT in x:
            if len(x[X_CCT]) != 1 or x[X_CCT][0] not in self.client_cert_types:
                raise RefError('client certificate type not offered', 'illegal_parameter')
            self.client_cert_type = x[X_CCT][0]


class RefServer(Peer):
    side = 'server'

    def __init__(self, chain=(), key=None, suites=(0x1303, 0x1302, 0x1301, 0x1304, 0x1305),
                 groups=tuple(GROUPS), sigalgs=tuple(TLS13_SIGS), alpn=None, hrr_group=None,
                 cookie=None, raw_public_key=None, accept_mfl=True, heartbeat=None,
                 cert_request=False, status=None, entry_exts=None, ee_extra=(), send_ccs=True,
                 tickets=0, sni_ack=False, select=None, pss_oid=False, early_app=b'', **kw):
        super().__init__(**kw)
        self.chain, self.key = list(chain), key
        self.suites, self.groups, self.sigalgs = list(suites), list(groups), list(sigalgs)
        self.alpn, self.hrr_group, self.cookie = alpn, hrr_group, cookie
        self.keygen = None         # (group, share of the client) -> share, shared key
        self.rpk, self.accept_mfl, self.heartbeat = raw_public_key, accept_mfl, heartbeat
        self.cert_request, self.status, self.entry_exts = cert_request, status, entry_exts or {}
        self.ee_extra, self.send_ccs, self.tickets_n = list(ee_extra), send_ccs, tickets
        self.sni_ack, self.select, self.pss_oid = sni_ack, select or {}, pss_oid
        self.early_app = early_app
        self.random = os.urandom(32)
        self.chs = []
        self.state = 'wait_ch'
        self.sent_hrr = False
        self.client_certs = None

    def accepts_app(self):
        return self.connected

    def on_handshake(self, t, body, msg):
        if t == CH and self.state == 'wait_ch':
            return self.on_client_hello(body, msg)
        if t == CERT and self.state == 'wait_cert':
            ctx, entries = parse_certificate(body)
            self.client_certs = entries
            self.msgs.append(msg)
            self.state = 'wait_fin' if not entries else 'wait_cv'
        elif t == FIN and self.state == 'wait_fin':
            if not hmac.compare_digest(body, self.sched.finished(self.sched.c_hs, self.th())):
                raise RefError('bad client Finished', 'decrypt_error')
            self.msgs.append(msg)
            self.set_read(self.sched.c_ap, 'app')
            self.connected = True
            self.state = 'connected'
            for i in range(self.tickets_n):
                self.send_ticket(bytes([i]))
        else:
            raise RefError(f'{HS_NAMES.get(t, t)} in {self.state}', 'unexpected_message')

    def send_ticket(self, nonce=b'\x00', exts=b''):
        self.put_flight([hs(NST, u32(7200) + os.urandom(4) + v8(nonce) + v16(os.urandom(40)) + v16(exts))])

    def pick(self, name, mine, theirs):
        if name in self.select:
            return self.select[name]
        for m in mine:
            if m in theirs:
                return m
        raise RefError(f'no common {name}', 'handshake_failure')

    def on_client_hello(self, body, msg):
        d = parse_client_hello(body)
        self.chs.append(d)
        if 0x0304 not in d.get('versions', ()):
            raise RefError('no TLS 1.3', 'protocol_version')
        for k in ('groups', 'sigalgs', 'shares'):
            if k not in d:
                raise RefError(f'missing {k}', 'missing_extension')
        for g, share in d['shares']:
            if g not in d['groups']:
                raise RefError('share for an unsupported group', 'illegal_parameter')
            if g in GROUPS and len(share) != GROUPS[g].share_len():
                raise RefError(f'{GROUPS[g].name} share of {len(share)} bytes', 'illegal_parameter')
        order = [d['groups'].index(g) for g, _ in d['shares']]
        if order != sorted(order):
            raise RefError('shares not in preference order')
        if len(self.chs) == 1:
            self.ch_msg1 = msg
            self.suite = SUITES[self.pick('suite', self.suites, d['suites'])]
        self.msgs.append(msg)
        shares = dict(d['shares'])
        want = self.hrr_group if self.hrr_group is not None else self.pick('group', self.groups, d['groups'])
        if not self.sent_hrr and (want not in shares or self.select.get('force_hrr')
                                  or (self.cookie and self.select.get('cookie_hrr'))):
            return self.send_hrr(d, want)
        if self.sent_hrr:
            self.check_second(self.chs[0], d)
        if want not in shares:
            raise RefError('the second hello lacks the requested share', 'illegal_parameter')
        if self.sent_hrr and not self.lenient and list(shares) != [want]:
            raise RefError('extra shares in the second hello')
        self.group = want
        self.respond(d, shares[want])

    def check_second(self, a, b):
        if self.lenient:
            return
        for k in ('legacy_version', 'random', 'session_id', 'suites', 'compression'):
            if a[k] != b[k]:
                raise RefError(f'{k} changed in the second hello', 'illegal_parameter')
        ax = [(t, v) for t, v in a['exts'] if t not in (X_KEYSHARE, X_COOKIE, X_PADDING)]
        bx = [(t, v) for t, v in b['exts'] if t not in (X_KEYSHARE, X_COOKIE, X_PADDING)]
        if ax != bx:
            raise RefError('extensions changed in the second hello', 'illegal_parameter')
        if b.get('cookie') != self.cookie:
            raise RefError('cookie not echoed', 'illegal_parameter')

    def hrr_exts(self, want):
        e = [(X_VERSIONS, u16(0x0304))]
        if want is not None:
            e.append((X_KEYSHARE, u16(want)))
        if self.cookie:
            e.append((X_COOKIE, v16(self.cookie)))
        return e

    def send_hrr(self, d, want):
        h1 = hashlib.new(self.suite.hash, self.msgs[0]).digest()
        self.msgs = [hs(MSGHASH, h1)]
        self.sent_hrr = True
        msg = hs(SH, u16(0x0303) + HRR_RANDOM + v8(d['session_id']) + u16(self.suite.code) + u8(0)
                 + v16(b''.join(ext(t, b) for t, b in self.hrr_exts(want))))
        self.emit([('HRR', msg)])
        if self.send_ccs:
            self.put(CCS, b'\x01')

    def respond(self, d, share):
        g = GROUPS[self.group]
        if self.keygen:
            pub, shared = self.keygen(g, share)
        else:
            priv, pub = g.generate()
            shared = g.shared(priv, share)
        self.shared_key = shared
        sh_exts = [(X_VERSIONS, u16(0x0304)), (X_KEYSHARE, u16(self.group) + v16(pub))]
        sh = hs(SH, u16(0x0303) + self.random + v8(d['session_id']) + u16(self.suite.code) + u8(0)
                + v16(b''.join(ext(t, b) for t, b in sh_exts)))
        self.emit([('SH', sh)])
        if self.send_ccs and not self.sent_hrr:
            self.outbuf += b'\x14\x03\x03\x00\x01\x01'
        self.sched = Schedule(self.suite)
        self.sched.handshake(self.script.get('shared', lambda p, s: s)(self, shared), self.th())
        self.set_write(self.sched.s_hs, 'hs')
        self.set_read(self.sched.c_hs, 'hs')

        ee = []
        self.chosen_alpn = None
        if self.alpn is not None and 'alpn' in d:
            self.chosen_alpn = self.pick('alpn', self.alpn, d['alpn'])
            ee.append((X_ALPN, v16(v8(self.chosen_alpn))))
        new_mfl = 16384
        if d.get('mfl') and self.accept_mfl:
            new_mfl = 2 ** (8 + d['mfl'])
            ee.append((X_MFL, u8(d['mfl'])))
        if self.heartbeat and 'heartbeat' in d:
            ee.append((X_HEARTBEAT, u8(self.heartbeat)))
        if self.rpk is not None and 2 in d.get('server_cert_types', ()):
            ee.append((X_SCERTT, u8(2)))
        if self.sni_ack and 'sni' in d:
            ee.append((X_SNI, b''))
        ee += self.ee_extra
        self.mfl = new_mfl
        certmsg = self.certificate_message(d)
        pub = self.key.public_key()
        self.scheme = self.pick('sig', [s for s in self.sigalgs if s in schemes_for(pub, self.pss_oid)],
                                d['sigalgs'])
        flight = [('EE', hs(EE, v16(b''.join(ext(t, b) for t, b in ee))))]
        if self.cert_request:
            flight.append(('CR', hs(CR, v8(b'') + v16(ext(X_SIGALGS, list16(self.sigalgs))))))
        flight += [
            ('CERT', certmsg),
            ('CV', lambda: hs(CV, u16(self.scheme) + v16(sign(
                self.key, self.scheme, CV_SERVER + self.th())))),
            ('FIN', lambda: hs(FIN, self.sched.finished(self.sched.s_hs, self.th()))),
        ]
        self.emit(flight)
        self.sched.application(self.th())
        self.set_write(self.sched.s_ap, 'app')
        self.state = 'wait_cert' if self.cert_request else 'wait_fin'
        if self.early_app:
            self.send_app(self.early_app)

    def certificate_message(self, d):
        if self.rpk is not None and 2 in d.get('server_cert_types', ()):
            entries = [self.rpk]
        else:
            entries = self.chain
        body = b''
        for i, c in enumerate(entries):
            xs = self.entry_exts.get(i, b'')
            if i == 0 and self.status is not None and 'status' in d:
                xs += ext(X_STATUS, u8(1) + v24(self.status))
            body += v24(c) + v16(xs)
        return hs(CERT, v8(b'') + v24(body))
