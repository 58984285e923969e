""" Structure-aware mutations of handshake messages and other plaintexts. """
import os

from . import ref13

INTERESTING = (0, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff)


def lengths(b):
    """ Offsets of what looks like a length prefix: (offset, width). """
    out = []
    for i in range(len(b)):
        for w in (1, 2, 3):
            if i + w <= len(b):
                n = int.from_bytes(b[i:i + w], 'big')
                if n and i + w + n <= len(b) and (n > 1 or w > 1):
                    out.append((i, w))
    return out


def mutate(rng, data, header=True, times=None):
    """
    data: a whole handshake message; with `header`, its length field is
    made right again most of the time so that the body is what is judged.
    """
    head, body = (data[:4], bytearray(data[4:])) if header else (b'', bytearray(data))
    for _ in range(times or rng.choice((1, 1, 1, 2, 3, 8))):
        n = len(body)
        op = rng.choice(('flip', 'flip', 'set', 'int', 'trunc', 'cut', 'dup', 'ins', 'len', 'len', 'len',
                         'zero', 'ones', 'swap', 'extend'))
        if not n:
            body += os.urandom(rng.choice((1, 2, 5)))
            continue
        i = rng.randrange(n)
        j = min(n, i + rng.choice((1, 1, 2, 2, 3, 4, 8, 32, 100)))
        if op == 'flip':
            body[i] ^= 1 << rng.randrange(8)
        elif op == 'set':
            body[i] = rng.randrange(256)
        elif op == 'int':
            body[i] = rng.choice(INTERESTING)
        elif op == 'trunc':
            del body[i:]
        elif op == 'cut':
            del body[i:j]
        elif op == 'dup':
            body[j:j] = body[i:j]
        elif op == 'ins':
            body[i:i] = os.urandom(rng.choice((1, 2, 4, 40)))
        elif op == 'len':
            spots = lengths(body[:400])
            if spots:
                o, w = rng.choice(spots)
                v = int.from_bytes(body[o:o + w], 'big')
                v = rng.choice((v + 1, v - 1, v + 2, v // 2, 0, (1 << 8 * w) - 1, v * 2)) % (1 << 8 * w)
                body[o:o + w] = v.to_bytes(w, 'big')
        elif op == 'zero':
            body[i:j] = bytes(j - i)
        elif op == 'ones':
            body[i:j] = b'\xff' * (j - i)
        elif op == 'swap':
            k = rng.randrange(n)
            body[i], body[k] = body[k], body[i]
        else:
            body += os.urandom(rng.choice((1, 2, 3, 300)))
    body = bytes(body)
    if not header:
        return body
    if rng.random() < .07:
        return bytes(head) + body
    if rng.random() < .05:
        head = bytes([rng.randrange(256)]) + head[1:]
    return head[:1] + ref13.v24(body)


def blob(rng, top=300):
    n = rng.choice((0, 1, 2, 3, 4, 5, 8, 32, rng.randrange(top)))
    k = rng.random()
    if k < .4:
        return os.urandom(n)
    if k < .6:
        return bytes(n)
    if k < .7:
        return b'\xff' * n
    # nested lengths that add up, with junk in the leaves
    out = b''
    for _ in range(rng.randrange(4)):
        out += rng.choice((ref13.v8, ref13.v16, ref13.v24))(os.urandom(rng.randrange(20)))
    return out


def handshake(rng):
    """ Some handshake message, well framed, of any type. """
    t = rng.choice((*ref13.HS_NAMES, rng.randrange(256)))
    R = ref13
    k = rng.random()
    if k < .4:
        return R.hs(t, blob(rng))
    exts = b''.join(R.ext(rng.choice((*range(0, 64), 65281, rng.randrange(65536))), blob(rng, 60))
                    for _ in range(rng.randrange(6)))
    body = {
        R.CH: lambda: b'\x03\x03' + os.urandom(32) + R.v8(b'') + R.list16(rng.sample(range(0x1300, 0x1310), 4))
        + b'\x01\x00' + R.v16(exts),
        R.SH: lambda: b'\x03\x03' + rng.choice((os.urandom(32), R.HRR_RANDOM)) + R.v8(b'')
        + R.u16(rng.randrange(0x1300, 0x1307)) + b'\x00' + R.v16(exts),
        R.EE: lambda: R.v16(exts),
        R.CERT: lambda: R.v8(b'') + R.v24(R.v24(blob(rng)) + R.v16(exts)),
        R.CR: lambda: R.v8(blob(rng, 200)[:200]) + R.v16(exts),
        R.CV: lambda: R.u16(rng.randrange(0x400, 0x900)) + R.v16(blob(rng)),
        R.FIN: lambda: os.urandom(rng.choice((0, 12, 32, 48, 64))),
        R.NST: lambda: os.urandom(8) + R.v8(blob(rng, 200)[:200]) + R.v16(blob(rng)) + R.v16(exts),
        R.KU: lambda: bytes([rng.randrange(4)]),
        R.EOED: lambda: b'',
    }.get(t, lambda: blob(rng))()
    return R.hs(t, body)


# ------------------------------------------------- extensions, well framed

def odd_extension(rng, t):
    """ A body for the extension t: well framed, of an odd meaning. """
    R = ref13
    X = R
    junk = os.urandom(rng.choice((0, 1, 2, 3, 16)))

    def names(xs):
        return R.v16(b''.join(R.v8(x) for x in xs))

    odd_name = rng.choice((b'\x0a\x0a', b'\xff', b'\xc3\xa9', b'h2\0', b'', b'h2', b'http/1.1', b'x' * 255, b'H2'))
    one16 = [rng.choice((0, 1, 0xffff, 0x0a0a, 0x1301, 0x001d, 0x0403, 0x0804, 0x0201, 0x0304, 0x0303, 0x0002))
             for _ in range(rng.choice((0, 1, 1, 2, 3, 2000)))]
    if t == X.X_ALPN:
        return names(rng.choice(([], [odd_name], [odd_name], [odd_name, b'h2'], [b'h2', b'h2'], [odd_name] * 50)))
    if t == X.X_SNI:
        kind = rng.choice((0, 0, 1, 255))
        name = rng.choice((b'', b'a', b'server.siotls.localhost', b'\xff\xfe', b'a..b', b'x' * 300, b'xn--', b'127.0.0.2',
                           'é'.encode(), b'a\0b'))
        e = R.u8(kind) + R.v16(name)
        return rng.choice((R.v16(e), R.v16(e + e), R.v16(b''), b'', R.v16(e * 20)))
    if t == X.X_MFL or t == X.X_HEARTBEAT:
        return rng.choice((R.u8(rng.randrange(8)), R.u8(rng.randrange(256)), b'', b'\1\1'))
    if t in (X.X_CCT, X.X_SCERTT):
        n = bytes(rng.choice((0, 1, 2, 3, 255)) for _ in range(rng.choice((0, 1, 1, 2, 5))))
        return rng.choice((n[:1], R.v8(n)))
    if t in (X.X_GROUPS, X.X_SIGALGS, X.X_SIGALGSCERT):
        return rng.choice((R.list16(one16), R.list16(one16) + junk, R.list16(one16)[:-1]))
    if t == X.X_VERSIONS:
        return rng.choice((R.u16(rng.choice((0x0304, 0x0303, 0x7f1c, 0, 0x0a0a))),
                           R.v8(b''.join(R.u16(v) for v in one16[:100]))))
    if t == X.X_KEYSHARE:
        g = rng.choice((0x1d, 0x17, 0x1e, 0x18, 0x19, 0x100, 0x0a0a, 0, 0xffff))
        share = rng.choice((b'', b'\0', bytes(32), bytes(65), b'\4' + os.urandom(64), os.urandom(32), os.urandom(65),
                            b'\xff' * 32, bytes(256), os.urandom(256)))
        e = R.u16(g) + R.v16(share)
        return rng.choice((e, R.v16(e), R.v16(e + e), R.v16(b''), R.u16(g), R.v16(e * 60)))
    if t == X.X_COOKIE:
        return R.v16(rng.choice((b'', os.urandom(1), bytes(60000), os.urandom(300))))
    if t == X.X_STATUS:
        return rng.choice((b'\1' + R.v16(junk) + R.v16(junk), b'\1' + R.v24(junk), b'\1' + R.v24(b'\x30\x03\x0a\x01\x06'),
                           R.u8(rng.randrange(256)) + R.v16(b'') + R.v16(b''), b'\1', b''))
    if t == X.X_PSKMODES:
        return R.v8(rng.choice((b'', b'\0', b'\1', b'\0\1', b'\xff')))
    if t == X.X_PSK:
        return rng.choice((R.v16(R.v16(junk) + R.u32(0)) + R.v16(R.v8(bytes(32))), R.u16(0), R.u16(7)))
    if t == X.X_PADDING:
        return bytes(rng.choice((0, 1, 3000))) + junk[:1]
    return rng.choice((b'', junk, R.v8(junk), R.v16(junk), R.v24(junk)))


def extensions(rng, msg):
    """ The same message with odd, missing, repeated, misplaced or moved extensions. """
    R = ref13
    t, body = msg[0], msg[4:]
    p = {R.CH: lambda: skip(body, 34, (1, 2, 1)), R.SH: lambda: skip(body, 34, (1,)) + 3, R.EE: lambda: 0,
         R.CR: lambda: skip(body, 0, (1,)), R.CERT: lambda: skip(body, 4, (3,)), R.NST: lambda: skip(body, 8, (1, 2)),
         }.get(t)
    if p is None:
        return mutate(rng, msg)
    p = p()
    end = p + 2 + int.from_bytes(body[p:p + 2], 'big')
    xs, q = [], p + 2
    while q < end:
        n = int.from_bytes(body[q + 2:q + 4], 'big')
        xs.append((int.from_bytes(body[q:q + 2], 'big'), body[q + 4:q + 4 + n]))
        q += 4 + n
    known = (0, 1, 5, 10, 13, 14, 15, 16, 18, 19, 20, 21, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51)
    usual = {R.SH: (43, 51, 44), R.EE: (0, 1, 10, 15, 16, 16, 19, 20), R.CERT: (5, 18), R.CR: (13, 47, 48, 50, 5)}
    for _ in range(rng.choice((1, 1, 1, 2, 4))):
        i = rng.randrange(len(xs)) if xs else 0
        op = rng.choice(('odd', 'odd', 'odd', 'add', 'add', 'add', 'drop', 'again', 'order', 'unknown', 'retype'))
        if op == 'odd' and xs:
            xs[i] = (xs[i][0], odd_extension(rng, xs[i][0]))
        elif op == 'drop' and xs:
            del xs[i]
        elif op == 'again' and xs:
            xs.insert(rng.randrange(len(xs) + 1), rng.choice((xs[i], (xs[i][0], odd_extension(rng, xs[i][0])))))
        elif op == 'order':
            rng.shuffle(xs)
        elif op == 'unknown':
            xs.insert(i, (rng.randrange(65536), os.urandom(rng.choice((0, 1, 300)))))
        elif op == 'retype' and xs:
            xs[i] = (rng.choice(known), xs[i][1])
        else:
            k = rng.choice(known if rng.random() < .3 else usual.get(t, known))
            xs = [x for x in xs if x[0] != k]
            xs.insert(rng.randrange(len(xs) + 1), (k, odd_extension(rng, k)))
    block = R.v16(b''.join(R.ext(k, b[:60000]) for k, b in xs)[:65535])
    head = body[:p]
    tail = body[end:]
    if t == R.CERT:    # the list of the entries has a length of its own
        entries = head[4:] + block + tail
        return R.hs(t, head[:1] + R.v24(entries))
    return R.hs(t, head + block + tail)


def skip(body, p, widths):
    for w in widths:
        p += w + int.from_bytes(body[p:p + w], 'big')
    return p
