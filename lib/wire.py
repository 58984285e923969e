"""
The syntax of the TLS 1.3 messages, as the RFCs give it: for each content,
handshake and extension a grammar which generates canonical encodings, decodes
strictly (lengths, bounds, enumerations, trailing bytes) and says what the
decoded value is. Shares nothing with the code under test.
"""
from . import pki

class Bad(Exception):
    """ Not in the language. """


class Tolerated(Exception):
    """ Malformed or not, in a way which is not judged. """


class In:
    def __init__(self, b):
        self.b, self.p = bytes(b), 0

    def take(self, n):
        if self.p + n > len(self.b):
            raise Bad(f'{n} bytes wanted, {len(self.b) - self.p} left')
        out = self.b[self.p:self.p + n]
        self.p += n
        return out

    def int(self, n):
        return int.from_bytes(self.take(n), 'big')

    def rest(self):
        return self.take(len(self.b) - self.p)

    @property
    def left(self):
        return len(self.b) - self.p


class U:
    """ An unsigned integer; values: those which are defined, some or all. """
    def __init__(self, n, values=None, strict=True):
        self.n, self.values, self.strict = n, values, strict

    def gen(self, rng):
        if self.values and (self.strict or rng.random() < .8):
            return rng.choice(self.values)
        return rng.choice((0, 1, (1 << 8 * self.n) - 1, rng.randrange(1 << 8 * self.n)))

    def enc(self, v):
        return v.to_bytes(self.n, 'big')

    def dec(self, r):
        v = r.int(self.n)
        if self.values and self.strict and v not in self.values:
            raise Bad(f'{v} is undefined')
        return v


class Fixed:
    def __init__(self, n):
        self.n = n

    def gen(self, rng):
        return rng.randbytes(self.n)

    def enc(self, v):
        return v

    def dec(self, r):
        return r.take(self.n)


class Const:
    """ Whose value is imposed. """
    def __init__(self, b):
        self.b = b

    def gen(self, rng):
        return self.b

    def enc(self, v):
        return v

    def dec(self, r):
        if r.take(len(self.b)) != self.b:
            raise Bad('not the constant')
        return self.b


class RetryRandom(Const):
    """ Without which it is an ordinary ServerHello: not judged. """
    def dec(self, r):
        if r.take(len(self.b)) != self.b:
            raise Tolerated
        return self.b


class Rest:
    """ Opaque up to the end of the enclosing vector. """
    def __init__(self, lo=0, hi=60):
        self.lo, self.hi = lo, hi

    def gen(self, rng):
        return rng.randbytes(rng.randint(self.lo, rng.choice((self.lo, self.lo + 1, self.hi))))

    def enc(self, v):
        return v

    def dec(self, r):
        v = r.rest()
        if len(v) < self.lo:
            raise Bad('too short')
        return v


class Vec:
    """ opaque or item <lo..hi>, in bytes, prefixed by its length. """
    def __init__(self, n, lo, hi, item=None, few=6, big=None, make=None, unique=None, ok=None,
                 dup=Bad):
        self.n, self.lo, self.hi, self.item = n, lo, hi, item
        self.few, self.big, self.make, self.unique, self.ok = few, big, make, unique, ok
        self.dup = dup

    def gen(self, rng):
        if self.make:
            return self.make(rng)
        if self.item is None:
            top = self.big or min(self.hi, 300)
            n = rng.choice((self.lo, self.lo + 1, rng.randint(self.lo, min(40, self.hi)), rng.randint(self.lo, top)))
            if rng.random() < .02 and self.hi <= 65535:
                n = self.hi if self.hi < 300 or rng.random() < .1 else rng.randint(self.lo, min(self.hi, 5000))
            return rng.randbytes(min(n, self.hi))
        for _ in range(20):
            out, seen = [], set()
            for _ in range(rng.choice((0, 1, 1, 2, rng.randint(1, self.few)))):
                v = self.item.gen(rng)
                if self.unique:
                    if self.unique(v) in seen:
                        continue
                    seen.add(self.unique(v))
                out.append(v)
            try:
                if self.lo <= len(self.enc(out)) - self.n <= self.hi:
                    return out
            except OverflowError:
                pass
        raise AssertionError('cannot generate')

    def enc(self, v):
        b = v if self.item is None else b''.join(self.item.enc(x) for x in v)
        return len(b).to_bytes(self.n, 'big') + b

    def dec(self, r):
        n = r.int(self.n)
        b = r.take(n)
        if not self.lo <= n <= self.hi:
            raise Bad(f'vector of {n} bytes, <{self.lo}..{self.hi}>')
        if self.item is None:
            if self.ok:
                self.ok(b)
            return b
        s, out, seen = In(b), [], set()
        while s.left:
            v = self.item.dec(s)
            if self.unique:
                if self.unique(v) in seen:
                    raise self.dup('duplicate')
                seen.add(self.unique(v))
            out.append(v)
        return out


class Struct:
    def __init__(self, **fields):
        self.fields = fields

    def gen(self, rng):
        return {k: f.gen(rng) for k, f in self.fields.items()}

    def enc(self, v):
        return b''.join(f.enc(v[k]) for k, f in self.fields.items())

    def dec(self, r):
        return {k: f.dec(r) for k, f in self.fields.items()}


M16 = 0xffff
LABELS = ('example', 'com', 'www', 'a', 'xn--bcher-kva', 'x1-y', 'test')


def names(rng):
    return '.'.join(rng.choice(LABELS) for _ in range(rng.randint(1, 4))).encode()


def check_name(b):
    """ What is not a lower case name is not judged. """
    import re
    if not b or not re.fullmatch(rb'[a-z0-9]+(-[a-z0-9]+)*(\.[a-z0-9]+(-[a-z0-9]+)*)*', b) or len(b) > 200 \
            or any(len(x) > 60 for x in b.split(b'.')):
        raise Tolerated


def protocol(rng):
    if rng.random() < .5:
        return rng.choice((b'http/1.1', b'h2', b'imap', b'dot'))
    return bytes(rng.randint(0x20, 0x7e) for _ in range(rng.choice((1, 3, 40, 255))))


def check_protocol(b):
    if not all(0x20 <= c <= 0x7e for c in b):
        raise Tolerated          # GREASE is dropped


class Zeros(Rest):
    def gen(self, rng):
        return bytes(rng.choice((0, 1, 17, 300)))

    def dec(self, r):
        v = r.rest()
        if v.strip(b'\0'):
            raise Tolerated      # a receiver need not look at the padding
        return v


GROUPS = (0x17, 0x18, 0x19, 0x1d, 0x1e, 0x100, 0x101, 0x102, 0x103, 0x104)
SIGS = (0x0401, 0x0501, 0x0601, 0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808, 0x0809, 0x080a, 0x080b,
        0x0201, 0x0203)
group_list = Vec(2, 2, M16, U(2, GROUPS, False), few=12)
sig_list = Vec(2, 2, M16 - 1, U(2, SIGS, False), few=20)
key_share_entry = Struct(group=U(2, GROUPS, False), key_exchange=Vec(2, 1, M16))
proto_name = Vec(1, 1, 255, make=protocol, ok=check_protocol)

# {message: {extension number: grammar}}, RFC 8446 section 4.2
X = {}


def allow(number, *where_grammar):
    for where, g in where_grammar:
        for m in where.split():
            X.setdefault(m, {})[number] = g


empty = Struct()
allow(0, ('CH', Struct(names=Vec(2, 1, M16, Struct(type=U(1, (0,)), name=Vec(2, 1, M16, make=names, ok=check_name)),
                                 few=1, unique=lambda v: v['type'], dup=Tolerated))), ('EE', empty))
allow(1, ('CH EE', Struct(code=U(1, (1, 2, 3, 4)))))
allow(5, ('CH', Struct(type=U(1, (1,)), responders=Vec(2, 0, M16, Vec(2, 1, M16)), extensions=Vec(2, 0, M16))),
      ('CERT', Struct(type=U(1, (1,)), response=Vec(3, 1, (1 << 24) - 1))), ('CR', empty))
allow(10, ('CH EE', Struct(groups=group_list)))
allow(13, ('CH CR', Struct(schemes=sig_list)))
allow(14, ('CH EE', Struct(profiles=Vec(2, 2, M16, Fixed(2)), mki=Vec(1, 0, 255))))
allow(15, ('CH EE', Struct(mode=U(1, (1, 2)))))
allow(16, ('CH EE', Struct(protocols=Vec(2, 2, M16, proto_name))))
allow(18, ('CH CR', empty), ('CERT', Struct(list=Vec(2, 1, M16, Vec(2, 1, M16)))))
for n in (19, 20):
    allow(n, ('CH', Struct(types=Vec(1, 1, 255, U(1, (0, 2), False)))), ('EE', Struct(type=U(1, (0, 1, 2, 3)))))
allow(21, ('CH', Struct(zeros=Zeros())))
allow(41, ('CH', Struct(identities=Vec(2, 7, M16, Struct(identity=Vec(2, 1, M16), age=U(4))),
                        binders=Vec(2, 33, M16, Vec(1, 32, 255)))), ('SH', Struct(selected=U(2))))
allow(42, ('CH EE', empty), ('NST', Struct(size=U(4))))
allow(43, ('CH', Struct(versions=Vec(1, 2, 254, U(2, (0x0304, 0x0303), False)))), ('SH HRR', Struct(version=U(2, (0x0304,)))))
allow(44, ('CH HRR', Struct(cookie=Vec(2, 1, M16))))
allow(45, ('CH', Struct(modes=Vec(1, 1, 255, U(1, (0, 1), False)))))
allow(47, ('CH CR', Struct(authorities=Vec(2, 3, M16, Vec(2, 1, M16)))))
allow(48, ('CR', Struct(filters=Vec(2, 0, M16, Struct(oid=Vec(1, 1, 255), values=Vec(2, 0, M16))))))
allow(49, ('CH', empty))
allow(50, ('CH CR', Struct(schemes=sig_list)))
allow(51, ('CH', Struct(shares=Vec(2, 0, M16, key_share_entry, unique=lambda v: v['group']))),
      ('SH', Struct(share=key_share_entry)), ('HRR', Struct(group=U(2, GROUPS))))
KNOWN = sorted({n for t in X.values() for n in t})
UNKNOWN = (2, 3, 17, 22, 23, 24, 27, 28, 35, 0x0a0a, 0xff01, 0xfafa, 65535)


class Exts:
    """ An extension block of a given message. """
    def __init__(self, where, must=(), lo=0, hi=M16):
        self.where, self.must, self.lo, self.hi = where, must, lo, hi

    def gen(self, rng):
        table = X.get(self.where, {})
        pool = [n for n in table if n not in self.must and n != 41]
        chosen = list(self.must) + rng.sample(pool, rng.randint(0, len(pool)) if rng.random() < .4
                                              else min(len(pool), rng.randint(0, 3)))
        if rng.random() < .3:
            chosen += rng.sample(UNKNOWN, rng.randint(1, 3))
        rng.shuffle(chosen)
        if self.where == 'CH' and rng.random() < .2:
            chosen = [n for n in chosen if n != 45] + [45, 41]       # last
        elif self.where == 'SH' and rng.random() < .2:
            chosen.append(41)
        out = []
        for n in chosen:
            g = table.get(n)
            out.append((n, g.gen(rng) if g else rng.randbytes(rng.choice((0, 1, 30)))))
        return out

    def enc(self, v):
        table = X.get(self.where, {})
        b = b''
        for n, body in v:
            d = table[n].enc(body) if n in table else body
            b += n.to_bytes(2, 'big') + len(d).to_bytes(2, 'big') + d
        return len(b).to_bytes(2, 'big') + b

    def dec(self, r):
        n = r.int(2)
        s = In(r.take(n))
        if not self.lo <= n <= self.hi:
            raise Bad('extension block out of bounds')
        table = X.get(self.where, {})
        out = []
        soft = None
        while s.left:
            t = s.int(2)
            b = In(s.take(s.int(2)))
            if t in table:
                try:
                    v = table[t].dec(b)
                except Tolerated as exc:
                    soft, v = exc, None
                else:
                    if b.left:
                        raise Bad('trailing bytes in an extension')
            elif t in KNOWN:
                raise Bad(f'extension {t} in {self.where}')
            else:
                v = b.rest()
            out.append((t, v))
        kinds = [t for t, _ in out]
        if self.where == 'CH' and 41 in kinds and (kinds[-1] != 41 or 45 not in kinds):
            raise Bad('misplaced pre_shared_key')
        if self.where == 'CR' and 13 not in kinds:
            raise Bad('no signature_algorithms')
        if soft or len(set(kinds)) != len(kinds):
            raise Tolerated      # duplicates: not judged here
        return out


HRR_RANDOM = bytes.fromhex('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')


class Random(Fixed):
    def __init__(self):
        super().__init__(32)

    def dec(self, r):
        b = r.take(32)
        if b == HRR_RANDOM:
            raise Tolerated
        return b


class Cert:
    """ A certificate or public key in DER: real ones, what else is not judged. """
    def __init__(self, raw):
        self.raw = raw

    def pool(self):
        kinds = ('p256', 'p384', 'rsa', 'ed25519', 'ed448', 'p521')
        if self.raw:
            return [pki.leaf(k).spki for k in kinds]
        return [pki.leaf(k).der for k in kinds] + [pki.root().der, pki.inter().der]

    def gen(self, rng):
        return rng.choice(self.pool())

    def enc(self, v):
        return len(v).to_bytes(3, 'big') + v

    def dec(self, r):
        b = r.take(r.int(3))
        if not b:
            raise Bad('empty certificate')
        if b not in self.pool():
            raise Tolerated
        return b


SUITE_NOS = (0x1301, 0x1302, 0x1303, 0x1304, 0x1305)


def cert_list(raw):
    return Struct(context=Vec(1, 0, 255), certs=Vec(3, 0, (1 << 24) - 1, Struct(cert=Cert(raw), extensions=Exts('CERT')),
                                                      few=4))


BODIES = {
    'CH': (1, Struct(version=Const(b'\x03\x03'), random=Fixed(32), session_id=Vec(1, 0, 32),
                     suites=Vec(2, 2, M16 - 1, U(2, SUITE_NOS, False), few=12), compression=Const(b'\x01\x00'),
                     extensions=Exts('CH'))),
    'SH': (2, Struct(version=Const(b'\x03\x03'), random=Random(), session_id=Vec(1, 0, 32), suite=U(2, SUITE_NOS, False),
                     compression=Const(b'\x00'), extensions=Exts('SH'))),
    'HRR': (2, Struct(version=Const(b'\x03\x03'), random=RetryRandom(HRR_RANDOM), session_id=Vec(1, 0, 32),
                      suite=U(2, SUITE_NOS, False), compression=Const(b'\x00'), extensions=Exts('HRR'))),
    'NST': (4, Struct(lifetime=U(4), age_add=U(4), nonce=Vec(1, 0, 255), ticket=Vec(2, 1, M16), extensions=Exts('NST', hi=M16 - 1))),
    'EOED': (5, Struct()),
    'EE': (8, Struct(extensions=Exts('EE'))),
    'CERT': (11, cert_list(False)),
    'CERT-RAW': (11, cert_list(True)),
    'CR': (13, Struct(context=Vec(1, 0, 255), extensions=Exts('CR', must=(13,)))),
    'CV': (15, Struct(scheme=U(2, SIGS, False), signature=Vec(2, 0, M16))),
    'FIN': (20, Struct(verify_data=Rest(0, 64))),
    'KU': (24, Struct(request=U(1, (0, 1)))),
}


class Msg:
    def __init__(self, name):
        self.name = name
        self.no, self.body = BODIES[name]

    def gen(self, rng):
        while True:
            tree = self.body.gen(rng)
            try:
                self.enc(tree)
            except OverflowError:
                continue         # too many big extensions
            return tree

    def enc(self, v):
        b = self.body.enc(v)
        return bytes([self.no]) + len(b).to_bytes(3, 'big') + b

    def dec(self, r):
        """ The whole of r. """
        t = r.int(1)
        if t != self.no:
            raise Tolerated      # another message
        s = In(r.take(r.int(3)))
        if r.left:
            raise Bad('trailing bytes after the message')
        try:
            v = self.body.dec(s)
        except Tolerated:
            raise
        if s.left:
            raise Bad('trailing bytes in the message')
        return v


class Plain:
    """ What is not a handshake. """
    def __init__(self, no, body):
        self.no, self.body = no, body

    def enc(self, v):
        return self.body.enc(v)

    def gen(self, rng):
        while len(self.enc(v := self.body.gen(rng))) > 16384:
            pass
        return v

    def dec(self, r):
        if r.left > 16384:
            raise Tolerated      # does not come out of a record
        v = self.body.dec(r)
        if r.left:
            raise Bad('trailing bytes')
        return v


CONTENTS = {name: (22, Msg(name)) for name in BODIES}
CONTENTS['ALERT'] = (21, Plain(21, Struct(level=U(1, (1, 2)), description=U(1))))
CONTENTS['HEARTBEAT'] = (24, Plain(24, Struct(type=U(1, (1, 2)), payload=Vec(2, 0, M16, big=16300), padding=Rest(0, 40))))
CONTENTS['CCS'] = (20, Plain(20, Const(b'\x01')))
CONTENTS['APPDATA'] = (23, Plain(23, Rest(0, 2000)))
