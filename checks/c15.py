""" C15: no nonce is ever reused and key usage limits are enforced. """
import contextlib
import os
import sys
import time

from siotls.crypto.ciphers import TLSCipherSuite
from siotls.iana import CipherSuites

from lib import judge, ref13, scen
from lib.aeadspy import spy
from lib.link import Link, Ref, Segmenter, Sio
from lib.monitor import KeyLog, Tap

PID, LEVEL = 'C15', 'exploration'
RULE = 'distinct (workload, role, suite, direction, epoch, ending) whose records were counted and decrypted in sequence'
ASSUMPTIONS = [
    'on the wire the n-th record of a key decrypts with the nonce n and no other, what is not put on the wire is only '
    'seen by the interposer on the AEAD of the library of cryptography',
    'to reach the limit the suites are given a smaller one before the connection is made; when the endpoint ignores '
    'it, the records are counted up to the genuine limit instead',
    'the limits must not exceed those of RFC 8446 section 5.5 (GCM 2^24.5) and RFC 9147 section 4.5.3 (CCM 2^23)',
]
MINIMUM = {'records decrypted in sequence': 30_000, 'connections': 400, 'limits reached': 60,
           'refused at the limit': 60}
CPU_PER_CASE = 850
CHUNK = 1

GREATEST = {0x1301: int(2 ** 24.5), 0x1302: int(2 ** 24.5), 0x1303: 1 << 64, 0x1304: 1 << 23, 0x1305: 1 << 23}
KEYS = ('c_hs', 's_hs', 'c_ap', 's_ap')


def cases(tier, seed):
    k = 2 if tier == 'quick' else 15
    out = [{'what': 'real', 'suite': 0x1305 if seed % 2 else 0x1304, 'way': 'write', 'role': ('client', 'server')[seed // 2 % 2]}]
    if tier != 'quick':
        out = [{'what': 'real', 'suite': s, 'way': w, 'role': r} for s, w, r in (
            (0x1304, 'write', 'client'), (0x1305, 'write', 'server'), (0x1304, 'read', 'server'), (0x1305, 'read', 'client'),
            (0x1301, 'write', 'server'), (0x1302, 'write', 'client'))]
    out += [{'what': 'limits'}]
    out += [{'what': 'far', 'suite': s, 'at': at, 'n': n} for s in scen.SUITES for at in far(s) for n in range(k)]
    out += [{'what': 'talk', 'n': n} for n in range(160 * k)]
    out += [{'what': 'ref', 'role': r, 'n': n} for r in ('client', 'server') for n in range(60 * k)]
    out += [{'what': 'crowd', 'n': n} for n in range(25 * k)]
    out += [{'what': 'write', 'role': r, 'suite': s, 'n': n} for r in ('client', 'server') for s in scen.SUITES for n in range(3 * k)]
    out += [{'what': 'read', 'role': r, 'suite': s, 'n': n} for r in ('client', 'server') for s in scen.SUITES for n in range(3 * k)]
    out += [{'what': 'handshake', 'role': r, 'suite': s, 'n': n} for r in ('client', 'server') for s in scen.SUITES for n in range(2 * k)]
    return out


def run_case(spec, ctx):
    spy.reset()
    with KeyLog() as kl:
        try:
            globals()['run_' + spec['what']](spec, ctx, kl)
        finally:
            for p in spy.problems:
                ctx.violation('a nonce is used twice with the same key', p)
            ctx.count('nonces seen by the interposer', sum(u.total for u in spy.sealed.values()))
            ctx.count('keys seen by the interposer', len(spy.sealed))
    ctx.eval()


# ------------------------------------------------------------- monitors

def in_sequence(ctx, sio, kl, peer=None, why=''):
    """ Everything this endpoint ever emitted decrypts with one nonce after the other. """
    tap, side = judge.own_tap(sio, kl, peer=peer)
    for m, d in side.problems:
        if m == 'record does not decrypt in sequence':
            ctx.violation('a record is not protected with the nonce of its rank', f'{why} {d}')
    ctx.count('records decrypted in sequence', len(side.nonces))
    keys = {}
    for key, iv, seq in side.nonces:
        keys.setdefault(key, set()).add(iv ^ seq if isinstance(iv, int) else (bytes(iv), seq))
    ctx.check(sum(map(len, keys.values())) == len(side.nonces), 'a nonce is used twice with the same key', why)
    return side, keys


def distinct(ctx, secrets, why):
    """ Of one connection, by key: no two directions nor phases share one. """
    known = [(n, s) for n, s in secrets.items() if s]
    ctx.check(len({s for _, s in known}) == len(known), 'two phases or directions share a key', why)
    ctx.count('keys compared', len(known))


def random_ops(rng, link, n):
    """ Both ends send in any order; what cannot be sent is refused, which must not disturb the nonces. """
    for _ in range(n):
        end = rng.choice((link.c, link.s))
        r = rng.random()
        try:
            if r < .55:
                end.write(rng.randbytes(rng.choice((0, 1, 10, 500, 512, 4080, 16384, 16400, 50000, rng.randrange(3000)))))
            elif r < .65 and isinstance(end, Sio):
                end.conn.send_data(rng.choice((None, 'text', 12, [1, 2], [b'a'], {}, object())))
            elif r < .75 and isinstance(end, Sio):
                end.conn.rekey()
            elif r < .8 and isinstance(end, Sio):
                end.conn.initiate_connection()
            elif r < .85 and isinstance(end, Sio):
                end.feed(rng.randbytes(rng.randint(1, 5)) if rng.random() < .1 else b'')
            elif r < .9 and isinstance(end, Ref) and end.connected:
                heartbeat(rng, end.peer)
            elif r > .98:
                end.close()
            else:
                link.step()
        except Exception:
            continue
    try:
        link.run()
    except ref13.RefError:
        pass


def heartbeat(rng, peer):
    data = rng.randbytes(rng.choice((0, 1, 30, 300)))
    peer.put(ref13.HEARTBEAT, ref13.u8(1) + ref13.v16(data) + rng.randbytes(16), 0)


# ------------------------------------------------------------- workloads

def run_talk(spec, ctx, kl):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    c, s = scen.pair(sc, ckw={'log_keys': True}, skw={'log_keys': True})
    link = Link(c, s, *scen.segmenters(rng))
    early = rng.random() < .5
    if early:
        link.start()
        for _ in range(rng.randint(0, 2)):
            link.step()
            random_ops_quiet(rng, s)
    else:
        link.handshake()
    link.run()
    random_ops(rng, link, rng.randint(3, 25))
    if rng.random() < .3:
        end = rng.choice((c, s))
        end.feed(rng.randbytes(40))
        link.run()
    random_ops(rng, link, rng.randint(0, 8))
    for end in (c, s):
        in_sequence(ctx, end, kl, why=f'talk {sc}')
    secrets = judge.all_secrets(kl)
    distinct(ctx, {k: v for k, v in secrets.items() if 'TRAFFIC' in k}, 'talk')
    ctx.count('connections')
    ctx.seen('talk', c.conn.nconfig and c.conn.nconfig.cipher_suite, sc['mfl'], bool(c.error), bool(s.error), early)


def random_ops_quiet(rng, end):
    for _ in range(rng.randint(1, 3)):
        try:
            end.write(rng.randbytes(rng.choice((1, 600, 20000))))
        except Exception:
            pass


def ref_link(rng, sc, role, seg=True, **kw):
    """ siotls as `role` in front of a reference peer. """
    if role == 'client':
        ref = Ref(scen.ref_server(sc, **kw))
        sio = Sio(scen.client_config(sc, log_keys=True), server_hostname=sc['host'])
        link = Link(sio, ref, *(scen.segmenters(rng) if seg else ()))
    else:
        ref = Ref(scen.ref_client(sc, **kw))
        sio = Sio(scen.server_config(sc, log_keys=True))
        link = Link(ref, sio, *(scen.segmenters(rng) if seg else ()))
    return link, sio, ref


def run_ref(spec, ctx, kl):
    """ In front of a peer which asks for heartbeats, tickets, a retry, and fails at some point. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    kw = {'layout': scen.layout(rng), 'lenient': True}
    if spec['role'] == 'client':
        kw.update(cert_request=rng.random() < .2, tickets=rng.choice((0, 1, 5)))
        if len(sc['groups_c']) > 1 and rng.random() < .4:
            kw.update(hrr_group=sc['groups_c'][-1], groups=sc['groups_c'])
    elif len(sc['groups_c']) > 1 and rng.random() < .5:
        kw['shares'] = sc['groups_c'][-1:]
    link, sio, ref = ref_link(rng, sc, spec['role'], **kw)
    link.start()
    for _ in range(rng.randint(0, 3)):
        link.step()
        if spec['role'] == 'server':
            random_ops_quiet(rng, sio)
    link.run()
    ctx.check(ref.error is None or 'decrypt' not in str(ref.error), 'a record is not protected with the nonce of its rank',
              lambda: f'{spec["role"]} {ref.error!r}')
    random_ops(rng, link, rng.randint(3, 25))
    ending = rng.choice(('close', 'garbage', 'stray', 'none'))
    try:
        if ending == 'garbage':
            sio.feed(rng.randbytes(50))
        elif ending == 'stray' and ref.connected:
            ref.peer.put(ref13.HANDSHAKE, rng.randbytes(20), 0)
        elif ending == 'close':
            sio.close()
            if rng.random() < .5:
                ref.close()
    except Exception:
        pass
    random_ops(rng, link, rng.randint(0, 6))
    in_sequence(ctx, sio, kl, peer=ref.peer, why=f"{spec['role']} {ending} {sc}")
    if ref.peer.sched is not None:
        distinct(ctx, {k: getattr(ref.peer.sched, k, None) for k in KEYS}, spec['role'])
    ctx.count('connections')
    ctx.seen('ref', spec['role'], ref.peer.suite and ref.peer.suite.name, ending, bool(sio.error))


def run_crowd(spec, ctx, kl):
    """ Connections which share everything never share a key. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    configs = scen.client_config(sc, log_keys=True), scen.server_config(sc, log_keys=True)
    seen = {}
    for i in range(6):
        kl.lines.clear()
        c, s = scen.pair(sc, configs=configs)
        link = Link(c, s).handshake()
        random_ops(rng, link, 3)
        for end in (c, s):
            _, keys = in_sequence(ctx, end, kl, why='crowd')
            for key in keys:
                who = (i, end.side)
                ctx.check(seen.setdefault(key, who) == who, 'a key serves two connections or directions', f'{seen[key]} {who}')
                ctx.count('keys compared')
        ctx.count('connections')
    keys = [k for _, k in spy.sealed]
    ctx.check(len(set(keys)) == len(keys), 'a key serves two algorithms', '')
    ctx.seen('crowd', c.conn.nconfig and c.conn.nconfig.cipher_suite)


# --------------------------------------------------------------- limits

@contextlib.contextmanager
def limited(suite, limit):
    cls = TLSCipherSuite[CipherSuites(suite)]
    old = cls.__dict__.get('usage_limit')
    cls.usage_limit = limit
    try:
        yield
    finally:
        if old is None:
            del cls.usage_limit
        else:
            cls.usage_limit = old


def run_limits(spec, ctx, kl):
    for suite, most in GREATEST.items():
        limit = getattr(TLSCipherSuite[CipherSuites(suite)], 'usage_limit', None)
        if isinstance(limit, int):
            ctx.check(limit <= most, 'a usage limit is above the standard', f'{suite:#x} {limit} > {most}')
            ctx.count('limits compared')


def suited(suite, **kw):
    return scen.simple(suites_c=[suite], suites_s=[suite], **kw)


def under(ctx, n, limit, suite, way, role):
    """ -> whether the limit was obeyed; otherwise one case of each kind counts up to the genuine one """
    if n <= limit:
        return True
    ctx.count('lowered limits ignored')
    if ctx.spec['n'] == 0 and ctx.spec['what'] != 'handshake' and role == ('client' if suite in (0x1301, 0x1304) else 'server'):
        real(ctx, suite, way, role)
    return False


def run_write(spec, ctx, kl):
    """ Whatever makes it send, it never protects more records than the limit. """
    rng, role, suite = ctx.rng, spec['role'], spec['suite']
    limit = 1024 + rng.choice((20, 50, 200, rng.randint(21, 600)))
    with limited(suite, limit):
        link, sio, ref = ref_link(rng, suited(suite, mfl=512), role, seg=False)
        link.handshake()
        ctx.require(sio.connected and ref.connected, 'compatible handshake does not complete', f'{sio.error!r} {ref.error!r}')
    ctx.require(ref.peer.mfl == 512 and not sio.errors, 'compatible handshake does not complete', '')
    sent, refused, since = bytearray(), [], 0
    at = {}
    many = rng.random() < .5
    size = len(ref.peer.app_in)
    while since < 40:
        r = rng.random()
        before = sealed(ref)
        try:
            if many and r < .1:
                data = rng.randbytes(495 * rng.randint(2, 30))
            else:
                data = rng.randbytes(rng.choice((0, 1, 495)))
            sio.write(data)
            sent += data
        except Exception as exc:
            refused.append(exc)
            ctx.count('refused at the limit')
        if refused:
            since += 1
            # everything else which makes it send
            with contextlib.suppress(Exception):
                if r < .2:
                    heartbeat(rng, ref.peer)
                elif r < .3:
                    ref.peer.put(ref13.APPDATA, b'hello', 0)
                elif since == 30:
                    sio.close()
                elif since == 20 and rng.random() < .5:
                    sio.feed(rng.randbytes(30))
        data = sio.out()
        ref.feed(data)
        back = ref.out()
        if back and refused:
            sio.feed(back)
        elif back:
            pass
        n = sealed(ref)
        ctx.check(ref.error is None, 'a record is not protected with the nonce of its rank', f'{role} {suite:#x} {n} {ref.error!r}')
        if n > limit + 200 and not refused:
            break
    n = sealed(ref)
    ctx.count('limits reached')
    ctx.count('records decrypted in sequence', n)
    if not under(ctx, n, limit, suite, 'write', role):
        return
    ctx.check(refused, 'nothing is refused at the limit', f'{role} {suite:#x} {n} records of {limit}')
    ctx.check(n >= limit - 1100, 'the data is refused long before the limit', f'{role} {suite:#x} {n} of {limit}')
    got = bytes(ref.peer.app_in[size:])
    ctx.check(got.startswith(bytes(sent)) or sio.errors, 'data is neither sent nor refused at the limit',
              f'{role} {suite:#x} {len(got)} of {len(sent)} bytes')
    ctx.check(spied(sealed=True) <= limit, 'more records than the limit are protected under a key', f'{role} {suite:#x} {limit}')
    ctx.seen('write', role, f'{suite:#x}', type(refused[0]).__name__)


def spied(sealed):
    """ The most a key was used for, as seen by the interposer. """
    uses = spy.sealed if sealed else spy.opened
    return max((u.total for u in uses.values()), default=0)


def sealed(ref):
    return sum(1 for r in ref.peer.rx if r.get('epoch') == 'app' and 'seq' in r) if ref.peer.read_epoch == 'app' else 0


def run_read(spec, ctx, kl):
    """ Never accepts more records than the limit. """
    rng, role, suite = ctx.rng, spec['role'], spec['suite']
    limit = 1024 + rng.choice((20, 50, 200, rng.randint(21, 600)))
    with limited(suite, limit):
        link, sio, ref = ref_link(rng, suited(suite), role, seg=False)
        link.handshake()
        ctx.require(sio.connected and ref.connected, 'compatible handshake does not complete', f'{sio.error!r} {ref.error!r}')
    extra = rng.randint(5, 60)
    cut = Segmenter(rng, rng.choice(('whole', 'mixed', 'big')))
    first = ref.peer.write.seq
    total, got, worst = first, bytearray(), 0
    while total < limit + extra:
        n = min(rng.choice((1, 2, 30, 300)), limit + extra - total)
        for i in range(n):
            ref.peer.put(ref13.APPDATA, (total + i).to_bytes(3, 'big'), rng.choice((0, 0, 9)))
        total += n
        for piece in cut.cut(ref.out()):
            sio.feed(piece)
            got += sio.take()
    n = len(got) // 3 + first
    ctx.count('limits reached')
    ctx.count('records decrypted in sequence', n)
    ctx.check(bytes(got) == b''.join(i.to_bytes(3, 'big') for i in range(first, n)), 'data is lost below the limit', f'{role} {suite:#x}')
    if not under(ctx, n, limit, suite, 'read', role):
        return
    ctx.check(n >= limit - 1100, 'the data is refused long before the limit', f'{role} {suite:#x} {n} of {limit}')
    ctx.check(sio.errors, 'nothing is refused at the limit', f'{role} {suite:#x} {n} records of {limit}')
    ctx.count('refused at the limit')
    ctx.check(spied(sealed=False) <= limit, 'more records than the limit are accepted under a key', f'{role} {suite:#x} {limit}')
    ctx.seen('read', role, f'{suite:#x}', type(sio.error).__name__)


def run_handshake(spec, ctx, kl):
    """ The handshake keys have the same limit. """
    rng, role, suite = ctx.rng, spec['role'], spec['suite']
    if role == 'client':
        # a long flight in tiny fragments
        limit = 1024 + rng.randint(20, 300)
        blob = (0xfa0b, rng.randbytes(rng.choice((500, limit + 300, 3000))))
        with limited(suite, limit):
            link, sio, ref = ref_link(rng, suited(suite), role, seg=False, lenient=True, layout=ref13.Layout(rng, 'single'),
                                      ee_extra=[blob])
            ref.peer.put_flight = lambda msgs: [ref.peer.put(ref13.HANDSHAKE, b''.join(msgs)[i:i + 1], 0)
                                                for i in range(len(b''.join(msgs)))]
            link.handshake()
        n = spied(sealed=False)
        long = len(blob[1]) > limit
        if sio.connected and long:
            return under(ctx, limit + 1, limit, suite, 'read', role)
        ctx.check(long or sio.connected or spied(False) >= limit - 1100, 'the data is refused long before the limit',
                  f'{role} {suite:#x} {sio.error!r}')
        ctx.count('limits reached', int(long))
        ctx.count('refused at the limit', int(long))
    else:
        limit = rng.choice((1, 2, 3))
        with limited(suite, limit):
            link, sio, ref = ref_link(rng, suited(suite, kind='rsa', mfl=512), role, seg=False, lenient=True)
            link.start()
            with contextlib.suppress(Exception):
                link.run()
        n = sum(1 for r in ref.peer.rx if r.get('epoch') == 'hs' and 'seq' in r)
        if n > limit:
            return under(ctx, n, limit, suite, 'write', role)
        ctx.check(not sio.connected, 'a handshake completes past the limit', f'{role} {suite:#x} {limit}')
        ctx.check(spied(True) <= limit, 'more records than the limit are protected under a key', f'{role} {suite:#x} {limit}')
        ctx.count('limits reached')
        ctx.count('refused at the limit')
    ctx.seen('handshake', role, f'{suite:#x}', type(sio.error).__name__, n > limit)


# ----------------------------------------------- far along the sequence

def far(suite):
    """ Where along the sequence of a key something may break. """
    if suite == 0x1303:
        return [2 ** b - 3 for b in (8, 16, 24, 31, 32, 33, 40, 48, 53, 56, 62, 63)] + ['end']
    return [2 ** b - 3 for b in (8, 16, 20, 21)] + ['end']


@contextlib.contextmanager
def forwarded(start):
    """ The sequences which start meanwhile start there, provided they are ranges made by the module of the ciphers. """
    module = sys.modules['siotls.crypto.ciphers']
    module.range = lambda *a: range(start, *a) if len(a) == 1 and isinstance(a[0], int) and a[0] > 1 << 20 else range(*a)
    try:
        yield
    finally:
        del module.range


def run_far(spec, ctx, kl):
    """ The records of a key which is said to have been used for long already. """
    rng, suite, at = ctx.rng, spec['suite'], spec['at']
    limit = getattr(TLSCipherSuite[CipherSuites(suite)], 'usage_limit', None)
    limit = min(limit, GREATEST[suite]) if isinstance(limit, int) else GREATEST[suite]
    start = limit - 1024 - rng.randint(5, 60) if at == 'end' else at
    c, s = scen.pair(suited(suite, kind='p256'), ckw={'log_keys': True}, skw={'log_keys': True})
    link = Link(c, s)
    with forwarded(start):
        spy.trace = trace = []
        link.handshake()
        ctx.require(c.connected and s.connected, 'compatible handshake does not complete', f'{c.error!r} {s.error!r}')
    sent, refused = {'client': bytearray(), 'server': bytearray()}, 0
    for i in range(1500 if at == 'end' else 12):
        for end, other in ((c, s), (s, c)):
            try:
                data = rng.randbytes(rng.choice((1, 30)))
                end.write(data)
                sent[end.side] += data
            except Exception:
                refused += 1
            if at != 'end' or i % 100 == 0:
                link.run()
        if refused > 40:
            break
    link.run()
    suite_ = ref13.SUITES[suite]
    secrets = judge.all_secrets(kl)
    honoured = True
    for label, secret in secrets.items():
        if 'TRAFFIC' not in label:
            continue
        key = ref13.expand_label(suite_.hash, secret, 'key', b'', suite_.keylen)
        iv = int.from_bytes(ref13.expand_label(suite_.hash, secret, 'iv', b'', 12), 'big')
        for way in ('sealed', 'opened'):
            ranks = [nonce ^ iv for w, k, nonce in trace if w == way and k == key]
            if not ranks:
                continue
            if ranks[0] == 0:
                honoured = False
            first = ranks[0] if ranks[0] in (0, start) else start
            wrong = next((i for i, r in enumerate(ranks) if r != first + i), None)
            ctx.check(wrong is None, 'a record is not protected with the nonce of its rank',
                      lambda: f'{label} {way} rank {first + wrong:#x} uses {ranks[wrong]:#x}')
            ctx.check(len(set(ranks)) == len(ranks), 'a nonce is used twice with the same key', f'{label} {way} from {start:#x}')
            ctx.check(max(ranks) < limit, f'more records than the limit are {way} under a key', f'{label} {max(ranks):#x}')
            ctx.count('records far along the sequence', len(ranks) if first else 0)
    if not honoured:
        ctx.count('forwarding ignored')
        return
    if at == 'end':
        ctx.check(refused, 'nothing is refused at the limit', f'{suite:#x} from {start:#x}')
        ctx.count('limits reached')
        ctx.count('refused at the limit', bool(refused))
    else:
        for end, other in ((c, s), (s, c)):
            ctx.check(other.take() == sent[end.side] and not other.error, 'data is lost below the limit',
                      f'{suite:#x} from {start:#x} {other.error!r}')
    ctx.seen('far', f'{suite:#x}', at)


# ------------------------------------------------- up to the genuine limit

def run_real(spec, ctx, kl):
    real(ctx, spec['suite'], spec['way'], spec['role'])
    ctx.seen('real', spec['role'], f"{spec['suite']:#x}", spec['way'])


def real(ctx, suite, way, role):
    """ Counts records up to the genuine limit; gives up without a verdict when it is too far. """
    rng = ctx.rng
    most = GREATEST[suite]
    limit = getattr(TLSCipherSuite[CipherSuites(suite)], 'usage_limit', None)
    limit = min(limit, most) if isinstance(limit, int) else most
    if limit > 1 << 25:
        ctx.count('limits out of reach')
        return
    spy.reset()
    t0 = time.monotonic()
    link, sio, ref = ref_link(rng, suited(suite, mfl=512), role, seg=False)
    link.handshake()
    ctx.require(sio.connected and ref.connected, 'compatible handshake does not complete', f'{sio.error!r} {ref.error!r}')
    n = 0
    if way == 'write':
        read = ref.peer.read
        batch = bytes(495 * 2000)
        refused = None
        while n <= limit + 10 and refused is None:
            if time.monotonic() - t0 > 700:
                ctx.count('limits out of reach')
                return
            try:
                sio.write(batch)
            except Exception as exc:
                refused = exc
            wire = bytes(sio.conn.data_to_send())
            # one record in a batch is opened, by its rank
            size = 5 + 512
            ctx.require(len(wire) % size == 0, 'the records are not of the expected length', len(wire))
            m = len(wire) // size
            if m:
                i = rng.randrange(m)
                read.seq = n + i
                rec = wire[i * size:(i + 1) * size]
                try:
                    read.open(rec[:5], rec[5:])
                except ref13.RefError:
                    ctx.violation('a record is not protected with the nonce of its rank', f'{role} {suite:#x} {n + i}')
                ctx.count('records decrypted in sequence')
            n += m
        for _ in range(5):
            # the rest, one by one
            with contextlib.suppress(Exception):
                while n <= limit + 10:
                    sio.write(b'.' * 495)
                    wire = bytes(sio.conn.data_to_send())
                    n += len(wire) // size
        ctx.check(n <= limit, 'more records than the limit are protected under a key', f'{role} {suite:#x} {n} > {limit}')
    else:
        got = 0
        while n <= limit + 10 and sio.error is None:
            if time.monotonic() - t0 > 700:
                ctx.count('limits out of reach')
                return
            for i in range(2000):
                ref.peer.put(ref13.APPDATA, b'.', 0)
            sio.feed(ref.out())
            n += 2000
            got += len(sio.take())
        ctx.check(got <= limit, 'more records than the limit are accepted under a key', f'{role} {suite:#x} {got} > {limit}')
        n = got
    ctx.check(n >= limit - 2100, 'the data is refused long before the limit', f'{role} {suite:#x} {n} of {limit}')
    ctx.count('records up to a genuine limit', n)
    ctx.count('genuine limits reached')
