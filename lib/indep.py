"""
The groups and signatures of TLS 1.3 from their definitions, in integers: no
code in common with siotls nor with the library it relies on. Slow, not constant
time, for comparisons only.
"""
import hashlib
import hmac
import os

from . import ref13


class Refused(Exception):
    pass


# --------------------------------------------------------- prime curves

class Curve:
    def __init__(self, name, p, b, gx, gy, n):
        self.name, self.p, self.a, self.b, self.g, self.n = name, p, p - 3, b, (gx, gy), n
        self.size = (p.bit_length() + 7) // 8

    def on(self, x, y):
        return (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    # Jacobian coordinates
    def _double(self, P):
        X, Y, Z = P
        p = self.p
        if not Y or not Z:
            return (1, 1, 0)
        d = Z * Z % p
        g = Y * Y % p
        b = X * g % p
        al = 3 * (X - d) * (X + d) % p
        X3 = (al * al - 8 * b) % p
        return X3, (al * (4 * b - X3) - 8 * g * g) % p, ((Y + Z) ** 2 - g - d) % p

    def _add(self, P, Q):
        if not P[2]:
            return Q
        if not Q[2]:
            return P
        p = self.p
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        a, b = Z1 * Z1 % p, Z2 * Z2 % p
        u1, u2 = X1 * b % p, X2 * a % p
        s1, s2 = Y1 * Z2 * b % p, Y2 * Z1 * a % p
        if u1 == u2:
            return self._double(P) if s1 == s2 else (1, 1, 0)
        h, r = (u2 - u1) % p, (s2 - s1) % p
        hh = h * h % p
        hhh = h * hh % p
        v = u1 * hh % p
        X3 = (r * r - hhh - 2 * v) % p
        return X3, (r * (v - X3) - s1 * hhh) % p, h * Z1 * Z2 % p

    def mul(self, k, P):
        """ Affine, or None for the point at infinity. """
        out, q = (1, 1, 0), (*P, 1)
        for bit in bin(k)[2:]:
            out = self._double(out)
            if bit == '1':
                out = self._add(out, q)
        return self.affine(out)

    def affine(self, P):
        if not P[2] % self.p:
            return None
        zi = pow(P[2], -1, self.p)
        return P[0] * zi * zi % self.p, P[1] * zi ** 3 % self.p

    def add(self, P, Q):
        if P is None or Q is None:
            return Q if P is None else P
        return self.affine(self._add((*P, 1), (*Q, 1)))

    def encode(self, P):
        return b'\x04' + P[0].to_bytes(self.size, 'big') + P[1].to_bytes(self.size, 'big')

    def decode(self, b):
        if len(b) != 1 + 2 * self.size or b[0] != 4:
            raise Refused('not an uncompressed point')
        x, y = int.from_bytes(b[1:1 + self.size], 'big'), int.from_bytes(b[1 + self.size:], 'big')
        if x >= self.p or y >= self.p or not self.on(x, y):
            raise Refused('not on the curve')
        return x, y

    def sqrt(self, a):
        r = pow(a, (self.p + 1) // 4, self.p)
        return r if r * r % self.p == a % self.p else None

    def keypair(self):
        k = int.from_bytes(os.urandom(self.size + 8), 'big') % (self.n - 1) + 1
        return k, self.encode(self.mul(k, self.g))

    def shared(self, k, share):
        return self.mul(k, self.decode(share))[0].to_bytes(self.size, 'big')


P256 = Curve('p256', 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
             0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
             0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
             0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
             0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551)
P384 = Curve('p384', 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1,
             0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
             0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
             0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
             0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973)
P521 = Curve('p521', 2 ** 521 - 1,
             0x51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
             0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
             0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650,
             0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409)


# --------------------------------------------------- Montgomery, RFC 7748

class Mont:
    def __init__(self, name, p, bits, a24, base):
        self.name, self.p, self.bits, self.a24, self.base = name, p, bits, a24, base
        self.size = (bits + 7) // 8

    def ladder(self, k, u):
        p, a24 = self.p, self.a24
        x1, x2, z2, x3, z3, swap = u, 1, 0, u, 1, 0
        for t in reversed(range(self.bits)):
            kt = k >> t & 1
            if swap ^ kt:
                x2, x3, z2, z3 = x3, x2, z3, z2
            swap = kt
            a, b, c, d = x2 + z2, x2 - z2, x3 + z3, x3 - z3
            aa, bb = a * a % p, b * b % p
            e = aa - bb
            da, cb = d * a % p, c * b % p
            x3, z3 = (da + cb) ** 2 % p, x1 * (da - cb) ** 2 % p
            x2, z2 = aa * bb % p, e * (aa + a24 * e) % p
        if swap:
            x2, z2 = x3, z3
        return x2 * pow(z2, p - 2, p) % p

    def clamp(self, b):
        b = bytearray(b)
        if self.size == 32:
            b[0] &= 248
            b[31] = b[31] & 127 | 64
        else:
            b[0] &= 252
            b[55] |= 128
        return int.from_bytes(b, 'little')

    def keypair(self):
        k = self.clamp(os.urandom(self.size))
        return k, self.ladder(k, self.base).to_bytes(self.size, 'little')

    def shared(self, k, share):
        if len(share) != self.size:
            raise Refused('length')
        u = int.from_bytes(share, 'little') & (1 << (255 if self.size == 32 else 448)) - 1
        out = self.ladder(k, u % self.p)
        if out == 0:
            raise Refused('low order')
        return out.to_bytes(self.size, 'little')


X25519 = Mont('x25519', 2 ** 255 - 19, 255, 121665, 9)
X448 = Mont('x448', 2 ** 448 - 2 ** 224 - 1, 448, 39081, 5)


class Field:
    """ RFC 7919. """
    def __init__(self, bits):
        self.name, self.p, self.size = f'ffdhe{bits}', ref13.ffdhe_prime(bits), bits // 8

    def keypair(self):
        k = int.from_bytes(os.urandom(56), 'big') | 1 << 447
        return k, pow(2, k, self.p).to_bytes(self.size, 'big')

    def shared(self, k, share):
        if len(share) != self.size:
            raise Refused('length')
        y = int.from_bytes(share, 'big')
        if not 1 < y < self.p - 1:
            raise Refused('out of range')
        return pow(y, k, self.p).to_bytes(self.size, 'big')


GROUPS = {0x17: P256, 0x18: P384, 0x19: P521, 0x1d: X25519, 0x1e: X448,
          **{0x100 + i: Field(n) for i, n in enumerate((2048, 3072, 4096, 6144, 8192))}}


# ----------------------------------------------------------- signatures

_PREFIX = {'sha256': '3031300d060960864801650304020105000420', 'sha384': '3041300d060960864801650304020205000430',
           'sha512': '3051300d060960864801650304020305000440'}


def rsa_raw(n, e, sig):
    size = (n.bit_length() + 7) // 8
    s = int.from_bytes(sig, 'big')
    if len(sig) != size or s >= n:
        raise Refused('signature length')
    return pow(s, e, n), size


def pkcs1(n, e, h, sig, msg):
    m, size = rsa_raw(n, e, sig)
    t = bytes.fromhex(_PREFIX[h]) + hashlib.new(h, msg).digest()
    return m.to_bytes(size, 'big') == b'\0\1' + b'\xff' * (size - len(t) - 3) + b'\0' + t


def mgf1(h, seed, n):
    out, i = b'', 0
    while len(out) < n:
        out += hashlib.new(h, seed + i.to_bytes(4, 'big')).digest()
        i += 1
    return out[:n]


def pss(n, e, h, sig, msg):
    """ RFC 8017 section 9.1.2, the salt as long as the digest. """
    m, _ = rsa_raw(n, e, sig)
    bits = n.bit_length() - 1
    size = (bits + 7) // 8
    if m >> 8 * size:
        return False
    em = m.to_bytes(size, 'big')
    hl = hashlib.new(h).digest_size
    if size < 2 * hl + 2 or em[-1] != 0xbc:
        return False
    masked, hh = em[:size - hl - 1], em[size - hl - 1:-1]
    if int.from_bytes(masked, 'big') >> bits - 8 * (hl + 1):
        return False
    db = (int.from_bytes(masked, 'big') ^ int.from_bytes(mgf1(h, hh, len(masked)), 'big')) & (1 << bits - 8 * (hl + 1)) - 1
    db = db.to_bytes(len(masked), 'big')
    if db[:-hl] != bytes(len(masked) - hl - 1) + b'\1':
        return False
    return hashlib.new(h, bytes(8) + hashlib.new(h, msg).digest() + db[-hl:]).digest() == hh


def der_ints(b):
    """ SEQUENCE of two INTEGER, in DER. """
    def tlv(b, tag):
        if len(b) < 2 or b[0] != tag:
            raise Refused('DER')
        n, p = b[1], 2
        if n & 0x80:
            k = n & 0x7f
            n = int.from_bytes(b[2:2 + k], 'big')
            p = 2 + k
            if k not in (1, 2) or n < 128 or n >> 8 * (k - 1) == 0:
                raise Refused('DER')
        if len(b) < p + n:
            raise Refused('DER')
        return b[p:p + n], b[p + n:]

    def integer(v):
        if not v or len(v) > 1 and (v[0] == 0 and v[1] < 128 or v[0] == 255 and v[1] > 127):
            raise Refused('DER')
        return int.from_bytes(v, 'big', signed=True)
    seq, rest = tlv(b, 0x30)
    if rest:
        raise Refused('DER')
    r, rest = tlv(seq, 2)
    s, rest = tlv(rest, 2)
    if rest:
        raise Refused('DER')
    return integer(r), integer(s)


def ecdsa(curve, pub, h, sig, msg):
    r, s = der_ints(sig)
    if not (0 < r < curve.n and 0 < s < curve.n):
        return False
    z = int.from_bytes(hashlib.new(h, msg).digest(), 'big')
    z >>= max(0, 8 * hashlib.new(h).digest_size - curve.n.bit_length())
    w = pow(s, -1, curve.n)
    u, v = z * w % curve.n, r * w % curve.n
    P = curve.add(curve.mul(u, curve.g) if u else None, curve.mul(v, pub))
    return P is not None and P[0] % curve.n == r


class Edwards:
    """ RFC 8032, projective, cofactorless equation. """
    def __init__(self, p, a, d, L, size, hash_, base):
        self.p, self.a, self.d, self.L, self.size, self.hash = p, a, d, L, size, hash_
        self.base = base

    def add(self, P, Q):
        p = self.p
        A = P[2] * Q[2] % p
        B = A * A % p
        C, D = P[0] * Q[0] % p, P[1] * Q[1] % p
        E = self.d * C * D % p
        F, G = B - E, B + E
        X = A * F * ((P[0] + P[1]) * (Q[0] + Q[1]) - C - D) % p
        Y = A * G * (D - self.a * C) % p
        return X, Y, F * G % p

    def mul(self, k, P):
        out = (0, 1, 1)
        for bit in bin(k)[2:]:
            out = self.add(out, out)
            if bit == '1':
                out = self.add(out, P)
        return out

    def decode(self, b):
        p = self.p
        if len(b) != self.size:
            raise Refused('length')
        y = int.from_bytes(b, 'little')
        sign = y >> 8 * self.size - 1
        y &= (1 << 8 * self.size - 1) - 1
        if y >= p:
            raise Refused('point')
        u, v = (y * y - 1) % p, (self.d * y * y - self.a) % p
        w = u * pow(v, -1, p) % p
        if p % 4 == 3:
            x = pow(w, (p + 1) // 4, p)
        else:
            x = pow(w, (p + 3) // 8, p)
            if x * x % p != w:
                x = x * pow(2, (p - 1) // 4, p) % p
        if x * x % p != w or x == 0 and sign:
            raise Refused('point')
        if x & 1 != sign:
            x = p - x
        return x, y, 1

    def verify(self, pub, sig, msg):
        if len(sig) != 2 * self.size:
            raise Refused('length')
        A = self.decode(pub)
        s = int.from_bytes(sig[self.size:], 'little')
        if s >= self.L:
            return False
        R = self.decode(sig[:self.size])
        h = int.from_bytes(self.hash(sig[:self.size] + pub + msg), 'little') % self.L
        a, b = self.mul(s, self.base), self.add(R, self.mul(h, A))
        return (a[0] * b[2] - b[0] * a[2]) % self.p == 0 and (a[1] * b[2] - b[1] * a[2]) % self.p == 0


_p1 = 2 ** 255 - 19
ED25519 = Edwards(_p1, _p1 - 1, -121665 * pow(121666, -1, _p1) % _p1, 2 ** 252 + 27742317777372353535851937790883648493, 32,
                  lambda b: hashlib.sha512(b).digest(), None)
ED25519.base = ED25519.decode((4 * pow(5, -1, _p1) % _p1).to_bytes(32, 'little'))
_p2 = 2 ** 448 - 2 ** 224 - 1
ED448 = Edwards(_p2, 1, _p2 - 39081, 2 ** 446 - 13818066809895115352007386748515426880336692474882178609894547503885, 57,
                lambda b: hashlib.shake_256(b'SigEd448\0\0' + b).digest(114), None)
ED448.base = (
    224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710,
    298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660, 1)

CURVES = {'secp256r1': P256, 'secp384r1': P384, 'secp521r1': P521}


def verify(pub, scheme, sig, msg):
    """ pub: numbers extracted by the caller. False or Refused: it does not verify. """
    name, kind, h, _ = ref13.SIGS[scheme]
    if kind == 'pkcs1':
        return pkcs1(*pub, h, sig, msg)
    if kind == 'pss':
        return pss(*pub, h, sig, msg)
    if kind == 'ecdsa':
        return ecdsa(*pub, h, sig, msg)
    return (ED25519 if name == 'ed25519' else ED448).verify(pub, sig, msg)


# ----------------------------------------------------------------- HKDF

def extract(h, salt, ikm):
    return hmac.new(salt if salt else bytes(hashlib.new(h).digest_size), ikm, h).digest()
