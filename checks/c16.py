""" C16: connections are independent and draw fresh secrets. """
import enum
import hashlib
import os
import random
import struct
import sys
import threading
import types

from siotls import TLSError

from lib import judge, mutate, pki, ref13, scen
from lib.link import Link, Ref, Sio
from lib.monitor import KeyLog

PID, LEVEL = 'C16', 'exploration'
RULE = 'distinct (mix of connections, threads or interleaving, suite, group, outcome) of connections judged as if alone'
ASSUMPTIONS = [
    'an attribute the user cannot see (its name begins with an underscore) may hold a cache',
    'freshness is judged between the connections of a case: a repetition, a constant byte or a dependence on the global '
    'generator of pseudo-random numbers or on a fork',
]
MINIMUM = {'connections': 2500, 'hostile connections': 300, 'connections in threads': 400, 'states compared': 900,
           'configurations compared': 100, 'randoms compared': 3000, 'shares compared': 3000, 'secrets compared': 2000,
           'retried hellos': 100, 'identities judged': 500, 'forks': 8, 'application bytes': 1_000_000}


def cases(tier, seed):
    k = 6 if tier == 'quick' else 80
    out = [{'what': 'interleave', 'n': n} for n in range(100 * k)]
    out += [{'what': 'threads', 'n': n} for n in range(24 * k)]
    out += [{'what': 'sequence', 'n': n} for n in range(40 * k)]
    out += [{'what': 'fresh', 'side': s, 'n': n} for s in ('client', 'server') for n in range(8 * k)]
    out += [{'what': 'fork', 'side': s, 'n': n} for s in ('client', 'server') for n in range(4 * k)]
    out += [{'what': 'retry', 'n': n} for n in range(30 * k)]
    out += [{'what': 'status', 'n': n} for n in range(12 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


# ------------------------------------------------------------ fingerprint

ATOMS = (int, float, str, bytes, bool, type(None), type(...), enum.Enum, complex, range)
SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType)


def fingerprint(*roots, skip=()):
    """ Of all the state reachable from the roots, but what is in skip and what the library of cryptography hides. """
    h = hashlib.sha256()
    memo = {}
    skipped = {id(s) for s in skip}

    def put(*what):
        h.update(repr(what).encode())

    def walk(o):
        if isinstance(o, ATOMS):
            return put(type(o).__name__, o)
        if isinstance(o, SKIP) or id(o) in skipped:
            return put('skip')
        if id(o) in memo:
            return put('seen', memo[id(o)][0])
        memo[id(o)] = (len(memo), o)
        put(type(o).__name__)
        if isinstance(o, (bytearray, memoryview)):
            return put(bytes(o))
        if isinstance(o, dict):
            for k, v in o.items():
                walk(k)
                walk(v)
            return put('end')
        if isinstance(o, (list, tuple)):
            for v in o:
                walk(v)
            return put('end')
        if isinstance(o, (set, frozenset)):
            for v in sorted(o, key=repr):
                walk(v)
            return put('end')
        if hasattr(o, 'digest') and hasattr(o, 'copy') and hasattr(o, 'block_size'):
            return put(o.copy().digest())
        if type(o).__name__.endswith('_iterator'):
            return put(o.__reduce__()[1:])
        d = getattr(o, '__dict__', None)
        if isinstance(d, dict):
            for k in d:
                walk(k)
                walk(d[k])
        for cls in type(o).__mro__:
            slots = cls.__dict__.get('__slots__', ())
            for k in (slots,) if isinstance(slots, str) else slots:
                if hasattr(o, k):
                    walk(getattr(o, k))
        put('end')

    for r in roots:
        walk(r)
    return h.digest()


def shared_state(*configs):
    """ What the user gave and can see. """
    out = {}
    for i, c in enumerate(configs):
        names = {*getattr(type(c), '__dataclass_fields__', ()), *vars(c)}
        for name in names:
            if not name.startswith('_') and hasattr(c, name):
                v = getattr(c, name)
                out[f'{c.side} {name}'] = (fingerprint(v), repr(v)[:200])
    return out


def unmodified(ctx, before, configs, why):
    after = shared_state(*configs)
    for name, (fp, shown) in before.items():
        ctx.check(name in after and after[name][0] == fp, 'a connection modifies the configuration it shares',
                  lambda: f'{why} {name}: {shown} -> {after.get(name)}')
        ctx.count('configurations compared')


# ----------------------------------------------------------- connections

class Strand:
    """ One connection: two ends, the bytes on their way, and what has to become of it. """
    def __init__(self, ctx, rng, client, server, expect=None, hostile=False, tag=''):
        self.ctx, self.rng, self.c, self.s = ctx, rng, client, server
        self.expect, self.hostile, self.tag = expect, hostile, tag
        self.q = {'c': bytearray(), 's': bytearray()}      # towards
        self.sent = {'c': bytearray(), 's': bytearray()}
        self.got = {'c': bytearray(), 's': bytearray()}
        self.left = rng.randint(1, 5)
        self.started = False
        self.idle = 0
        self.poison = rng.randint(0, 12) if hostile else None
        self.steps = 0

    def sios(self):
        return [e for e in (self.c, self.s) if isinstance(e, Sio)]

    def collect(self):
        self.q['s'] += self.c.out()
        self.q['c'] += self.s.out()
        for d, e in (('c', self.c), ('s', self.s)):
            self.got[d] += e.take()

    def step(self):
        """ False once it is over. """
        rng = self.rng
        self.steps += 1
        if not self.started:
            self.started = True
            if isinstance(self.s, Sio):
                self.s.start()
            self.c.start()
            self.collect()
            return True
        self.collect()
        if self.hostile and self.steps >= self.poison:
            self.hostile_act()
        dirs = [d for d in ('c', 's') if self.q[d]]
        writers = [d for d, e in (('c', self.c), ('s', self.s)) if e.connected and not e.error]
        if writers and self.left and (not dirs or rng.random() < .3) and self.c.connected and self.s.connected:
            self.left -= 1
            d = rng.choice(writers)
            data = rng.randbytes(rng.choice((1, 5, 400, 3000, 20000)))
            try:
                (self.c if d == 'c' else self.s).write(data)
            except TLSError:
                if not self.hostile:
                    raise
            self.sent[d] += data
            self.collect()
            return True
        if not dirs:
            return False
        d = rng.choice(dirs)
        q = self.q[d]
        n = rng.choice((1, 3, 7, 100, 600, len(q), len(q), len(q)))
        piece = bytes(q[:n])
        del q[:n]
        (self.c if d == 'c' else self.s).feed(piece)
        self.collect()
        return True

    def hostile_act(self):
        rng = self.rng
        r = rng.random()
        d = rng.choice(('c', 's'))
        q = self.q[d]
        self.poison = self.steps + rng.randint(1, 6)
        if r < .35 and q:
            q[:] = mutate.mutate(rng, bytes(q), header=rng.random() < .7)
        elif r < .55:
            q += rng.randbytes(rng.randint(1, 80))
        elif r < .7:
            q += rng.choice((b'\x15\3\3\0\2\2\x28', b'\x15\3\3\0\2\1\0', b'\x17\3\3\0\x20' + bytes(32), b'\x16\3\3\0\4\0\0\0\0'))
        elif r < .85 and q:
            q.clear()
        else:
            for e in self.sios():
                try:
                    rng.choice((e.close, e.conn.close_receiving_end, lambda: e.write(b'x'), e.conn.rekey,
                                lambda: e.feed(b'')))()
                except Exception:
                    pass

    def judge(self, how):
        ctx = self.ctx
        ctx.count('connections')
        why = f'{how} {self.tag}'
        if self.hostile:
            ctx.count('hostile connections')
            for e in self.sios():
                for exc in e.errors:
                    ctx.check(isinstance(exc, (TLSError, ValueError)), 'a hostile connection raises something else next to others',
                              f'{why} {exc!r}')
            return
        if self.expect is None:
            ctx.check(self.c.failed or self.s.failed or not (self.c.connected and self.s.connected),
                      'an incompatible handshake completes next to others', why)
            return
        ctx.check(self.c.connected and self.s.connected and not self.c.error and not self.s.error,
                  'a connection fails next to others', lambda: f'{why} {self.c.error!r} {self.s.error!r}')
        for a, b in (('c', 's'), ('s', 'c')):
            ctx.check(self.got[b] == self.sent[a], 'data is lost or mixed up next to other connections',
                      lambda: f'{why} {a}->{b} {len(self.got[b])} of {len(self.sent[a])}')
            ctx.count('application bytes', len(self.got[b]))
        for e in self.sios():
            n = e.conn.nconfig
            if n is None or not e.connected:
                continue
            got = {'suite': int(n.cipher_suite), 'group': int(n.key_exchange), 'sig': int(n.signature_algorithm)}
            want = {k: self.expect[k] for k in got}
            ctx.check(got == want, 'a connection negotiates something else next to others', lambda: f'{why} {e.side} {got} {want}')
            alpn = n.alpn
            ctx.check((alpn is None) == (self.expect['alpn'] is None)
                      and (alpn is None or str(getattr(alpn, 'value', alpn)) in (self.expect['alpn'], str(self.expect['alpn'].encode()))
                           or alpn == self.expect['alpn']),
                      'a connection negotiates something else next to others', lambda: f'{why} {alpn!r} {self.expect["alpn"]!r}')


def variant(rng, sc, side):
    """ Another peer's preferences: `side` is the one which changes. """
    out = dict(sc)
    k = 'c' if side == 'client' else 's'
    o = 's' if k == 'c' else 'c'
    for name in ('suites', 'groups', 'sigs'):
        pool = {'suites': scen.SUITES, 'groups': scen.FAST_GROUPS, 'sigs': scen.SIGALGS}[name]
        items = scen.some(rng, pool)
        if not set(items) & set(sc[f'{name}_{o}']) and rng.random() < .9:
            items.insert(rng.randint(0, len(items)), rng.choice(sc[f'{name}_{o}']))
        out[f'{name}_{k}'] = items
    if k == 's':
        # a reference server picks by its own preferences, and needs a scheme of its key
        out['sigs_s'] = sc['sigs_s']
    else:
        out['sigs_c'] = sc['sigs_c'] if rng.random() < .7 else out['sigs_c']
    out['alpn_' + k] = scen.some(rng, scen.ALPNS, 0) if rng.random() < .6 else []
    if out['alpn_c'] and out['alpn_s'] and not set(out['alpn_c']) & set(out['alpn_s']):
        out['alpn_' + k] = []
    return out


def strand(ctx, rng, sc, configs, i):
    """ One more connection which shares the configurations. """
    hostile = rng.random() < .25
    r = rng.random()
    tag = f'#{i}'
    if r < .45:
        c, s = scen.pair(sc, configs=configs)
        return Strand(ctx, rng, c, s, scen.expected(sc), hostile, tag + ' pair')
    if r < .75:
        v = variant(rng, sc, 'client')
        bad = bool(scen.failures(v))
        shares = rng.choice((None, [rng.choice(v['groups_c'])]))
        c = Ref(scen.ref_client(v, shares=shares, lenient=hostile, layout=scen.layout(rng)))
        s = Sio(configs[1])
        e = None if bad else scen.expected(v)
        return Strand(ctx, rng, c, s, e, hostile, f'{tag} ref client {v}')
    v = variant(rng, sc, 'server')
    if scen.failures(v):
        v = sc
    s = Ref(scen.ref_server(v, lenient=hostile, layout=scen.layout(rng), tickets=rng.choice((0, 0, 2))))
    c = Sio(configs[0], server_hostname=sc['host'])
    return Strand(ctx, rng, c, s, scen.expected(v), hostile, f'{tag} ref server {v}')


def scenario(rng):
    sc = scen.rand(rng, compatible=True)
    if rng.random() < .5:
        # make them hard to confuse: everything on offer
        sc = scen.simple(suites_c=scen.some(rng, scen.SUITES, 3), suites_s=scen.some(rng, scen.SUITES, 3),
                         groups_c=scen.some(rng, scen.FAST_GROUPS, 3), groups_s=scen.some(rng, scen.FAST_GROUPS, 4),
                         mfl=rng.choice(scen.MFLS))
    return sc


def run_interleave(spec, ctx):
    rng = ctx.rng
    sc = scenario(rng)
    configs = scen.client_config(sc), scen.server_config(sc)
    Link(*scen.pair(sc, configs=configs)).handshake()      # whatever is computed once
    before = shared_state(*configs)
    strands = [strand(ctx, rng, sc, configs, i) for i in range(rng.randint(2, 9))]
    live = list(strands)
    steps = 0
    while live:
        steps += 1
        ctx.require(steps < 60000, 'connections never become quiet', len(live))
        st = rng.choice(live)
        watched = None
        if rng.random() < .15 and len(strands) > 1:
            watched = rng.choice([x for x in strands if x is not st])
            roots = [e.conn for e in watched.sios()]
            fp = fingerprint(*roots, skip=configs)
        for _ in range(rng.choice((1, 1, 2, 10))):
            more = st.step()
            if not more or st.hostile and st.steps > 60:
                live.remove(st)
                break
        if watched is not None:
            ctx.check(fingerprint(*roots, skip=configs) == fp, 'the state of a connection changes while another one is driven',
                      f'{watched.tag} by {st.tag}')
            ctx.count('states compared')
        if rng.random() < .02:
            strands.append(strand(ctx, rng, sc, configs, len(strands)))
            live.append(strands[-1])
    for st in strands:
        st.judge('interleaved')
    unmodified(ctx, before, configs, 'interleaved')
    ctx.seen('interleave', len(strands), sum(s.hostile for s in strands), scen.expected(sc)['suite'])


def run_sequence(spec, ctx):
    """ One after the other, dropped in the middle: the last one is as if alone. """
    rng = ctx.rng
    sc = scenario(rng)
    configs = scen.client_config(sc), scen.server_config(sc)
    Link(*scen.pair(sc, configs=configs)).handshake()
    before = shared_state(*configs)
    for i in range(12):
        st = strand(ctx, rng, sc, configs, i)
        drop = rng.choice((None, rng.randint(1, 15)))
        while st.step() and not (st.hostile and st.steps > 60):
            if drop is not None and st.steps > drop:
                break
        else:
            st.judge('in sequence')
    c, s = scen.pair(sc, configs=configs)
    st = Strand(ctx, rng, c, s, scen.expected(sc), False, 'the last one')
    while st.step():
        pass
    st.judge('in sequence')
    unmodified(ctx, before, configs, 'in sequence')
    ctx.seen('sequence', scen.expected(sc)['suite'], scen.expected(sc)['group'])


def run_threads(spec, ctx):
    rng = ctx.rng
    sc = scenario(rng)
    configs = scen.client_config(sc), scen.server_config(sc)
    if rng.random() < .5:
        Link(*scen.pair(sc, configs=configs)).handshake()
    before = shared_state(*configs)
    n = rng.choice((2, 4, 8))
    strands = [[strand(ctx, random.Random(rng.random()), sc, configs, f'{t}.{i}') for i in range(rng.randint(1, 4))]
               for t in range(n)]
    errors = []
    barrier = threading.Barrier(n)

    def body(mine):
        try:
            barrier.wait(20)
            for st in mine:
                while st.step() and not (st.hostile and st.steps > 60):
                    pass
        except Exception as exc:
            errors.append(f'{exc!r} {judge.trace(exc)}')

    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice((1e-6, 1e-5, 1e-4)))
    try:
        threads = [threading.Thread(target=body, args=(mine,), daemon=True) for mine in strands]
        for t in threads:
            t.start()
        for t in threads:
            t.join(50)
    finally:
        sys.setswitchinterval(old)
    ctx.require(not any(t.is_alive() for t in threads), 'connections in threads never become quiet', '')
    ctx.check(not errors, 'a connection raises next to others in threads', errors[:1])
    for mine in strands:
        for st in mine:
            st.judge('in threads')
            ctx.count('connections in threads')
    unmodified(ctx, before, configs, 'in threads')
    ctx.seen('threads', n, scen.expected(sc)['suite'], scen.expected(sc)['group'])


# -------------------------------------------------- identities and statuses

class Service:
    def __init__(self, answer):
        self.answer = answer

    def request(self, url, req):
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer

    def cache(self, until, req, res):
        pass

    def uncache(self, req):
        pass


def run_status(spec, ctx):
    """ What a connection knows of its peer (its name, its certificates, their statuses) is of no use to another one. """
    rng = ctx.rng
    other = 'other.siotls.localhost'
    nodes = [pki.leaf(via='inter', ocsp_url='http://ocsp.test/', hosts=(h,), n=i) for i, h in enumerate((pki.HOST, other))]
    inter, root = pki.inter(), pki.root()
    answers = lambda node: {'good': pki.ocsp_response(node, inter), 'revoked': pki.ocsp_response(node, inter, 'revoked'),
                            'down': OSError('network is down'), 'none': None}
    known = [answers(n) for n in nodes]
    client = scen.client_config(scen.simple(), trust_store=pki.store(root))
    node = nodes[0]
    server = scen.server_config(scen.simple(), private_key=node.key, certificate_chain=[node.cert, inter.cert])
    before = shared_state(client, server)
    live = []
    for i in range(rng.randint(5, 10)):
        how = rng.choice(('good', 'revoked', 'down', 'none', 'good'))
        if rng.random() < .5:
            asked = rng.random() < .5
            s = Sio(server, ocsp_service=Service(known[0][how]) if how != 'none' else None)
            c = Ref(ref13.RefClient(sni=pki.HOST.encode(), status=asked, lenient=True))
            live.append((Strand(ctx, rng, c, s), 'server', how, asked))
        else:
            at = rng.randrange(2)
            host = rng.choice((pki.HOST, other))
            staple = rng.choice((True, False)) and how in ('good', 'revoked')
            exts = {0: ref13.ext(ref13.X_STATUS, ref13.u8(1) + ref13.v24(known[at][how]))} if staple else {}
            s = Ref(ref13.RefServer([nodes[at].der, inter.der], nodes[at].key, entry_exts=exts, lenient=True))
            service = Service(known[at][how]) if how != 'none' and not staple else None
            c = Sio(client, server_hostname=host, ocsp_service=service)
            live.append((Strand(ctx, rng, c, s), 'client', how, (host == (pki.HOST, other)[at], staple)))
    done = list(live)
    together = rng.random() < .5
    for st, *_ in live:
        st.left = 0
    while live:
        x = rng.choice(live) if together else live[0]
        if not x[0].step():
            live.remove(x)
    story = [x[1:] for x in done]
    for st, side, how, more in done:
        ctx.count('identities judged')
        if side == 'server':
            ctx.check(st.c.connected and st.s.connected and not st.s.error, 'a connection fails next to others',
                      lambda: f'{side} {how} {story} {st.c.error!r} {st.s.error!r}')
            got = [b for _, xs in st.c.peer.server_cert for t, b in xs if t == ref13.X_STATUS]
            want = [ref13.u8(1) + ref13.v24(known[0]['good'])] if more and how == 'good' else []
            ctx.check(got == want, 'a connection staples what another one asked for', lambda: f'{how} asked={more} {len(got)} {story}')
        else:
            want = more[0] and how in ('good', 'none')
            ctx.check(st.c.connected == want, 'a server is judged by what was seen of another one',
                      lambda: f'{how} {more} {st.c.error!r} {story}')
    unmodified(ctx, before, (client, server), 'statuses')
    ctx.seen('status', together, *sorted({(side, how) for _, side, how, _ in done}))


# -------------------------------------------------------------- freshness

def unseed(rng):
    """ The state of the global generator must not matter. """
    random.seed(7)


def hello(sio):
    b = sio.out()
    msgs = b''
    p = 0
    while p + 5 <= len(b):
        t, v, n = struct.unpack('!BHH', b[p:p + 5])
        if t == ref13.HANDSHAKE:
            msgs += b[p + 5:p + 5 + n]
        p += 5 + n
    n = 4 + int.from_bytes(msgs[1:4], 'big')
    return msgs[:n]


class Collection:
    """ Values which must all be distinct, and look drawn at random. """
    def __init__(self, ctx):
        self.ctx, self.values, self.all = ctx, {}, {}

    def add(self, kind, value, who):
        value = bytes(value)
        old = self.values.setdefault(kind, {}).setdefault(value, who)
        self.ctx.check(old == who, f'the same {kind} is drawn twice', f'{old} {who} {value.hex()[:100]}')
        self.all.setdefault((kind, len(value)), []).append(value)
        self.ctx.count({'random': 'randoms compared', 'share': 'shares compared'}.get(kind.split(' ')[-1], 'secrets compared'))

    def uniform(self, kind):
        for (k, n), values in self.all.items():
            if k != kind or len(values) < 60:
                continue
            for i in range(n):
                col = [v[i] for v in values]
                # 60 draws out of 256 give some 53 distinct ones
                self.ctx.check(len(set(col)) > 25, f'a byte of the {kind} is not drawn at random', f'byte {i}: {sorted(set(col))[:20]}')
            for i in range(n):
                for j in range(i):
                    same = sum(v[i] == v[j] for v in values)
                    self.ctx.check(same < len(values) / 2, f'two bytes of the {kind} are related', f'{i} {j}')
            heads = {v[:n // 2] for v in values} if n >= 16 else set(values)
            tails = {v[n // 2:] for v in values} if n >= 16 else set(values)
            self.ctx.check(len(heads) == len(tails) == len(values), f'a half of the {kind} is drawn twice', '')


def run_fresh(spec, ctx):
    rng = ctx.rng
    groups = list(scen.FAST_GROUPS[:5])
    rng.shuffle(groups)
    sc = scen.simple(groups_c=groups, groups_s=groups, suites_c=[rng.choice(scen.SUITES)], suites_s=list(scen.SUITES))
    configs = scen.client_config(sc, log_keys=True), scen.server_config(sc, log_keys=True)
    col = Collection(ctx)
    for i in range(120):
        unseed(rng)
        if spec['side'] == 'client':
            c = Sio(configs[0], server_hostname=sc['host'])
            c.start()
            ch = ref13.parse_client_hello(hello(c)[4:])
            col.add('client random', ch['random'], i)
            for g, share in shares_of(ch):
                col.add(f'{g:#x} share', share, (i, g))
            if ch['session_id']:
                ctx.count('session ids')
        else:
            ref = Ref(scen.ref_client(sc, shares=[groups[0]]))
            s = Sio(configs[1])
            ref.start()
            s.start()
            s.feed(ref.out())
            sh = ref13.parse_server_hello(hello(s)[4:])
            col.add('server random', sh['random'], i)
            g, share = share_of(sh)
            col.add(f'{g:#x} share', share, i)
    col.uniform('client random')
    col.uniform('server random')
    for kind in ('0x1d share', '0x1e share'):
        col.uniform(kind)
    # whole connections
    for i in range(25):
        unseed(rng)
        with KeyLog() as kl:
            c, s = scen.pair(sc, configs=configs)
            Link(c, s).handshake()
        ctx.require(c.connected and s.connected, 'compatible handshake does not complete', f'{c.error!r} {s.error!r}')
        for label, secret in judge.all_secrets(kl).items():
            col.add('secret', secret, (i, label))
        ctx.count('connections')
    ctx.seen('fresh', spec['side'], sc['suites_c'][0], tuple(groups))


def shares_of(ch):
    return list(ch['shares'])


def share_of(sh):
    return sh['group'], sh['share']


def run_retry(spec, ctx):
    """ Across a retry the random stays and the share is fresh. """
    rng = ctx.rng
    groups = rng.sample(scen.FAST_GROUPS, 3)
    sc = scen.simple(groups_c=groups, groups_s=groups[::-1])
    configs = scen.client_config(sc), scen.server_config(sc)
    col = Collection(ctx)
    for i in range(6):
        unseed(rng)
        if i % 2:
            ref = Ref(scen.ref_server(sc, hrr_group=groups[-1]))
            c = Sio(configs[0], server_hostname=sc['host'])
            link = Link(c, ref).handshake()
            ctx.require(c.connected and ref.connected, 'compatible handshake does not complete', f'{c.error!r} {ref.error!r}')
            chs = ref.peer.chs
            ctx.check(len(chs) == 2 and chs[0]['random'] == chs[1]['random'], 'the random changes across a retry', '')
            col.add('client random', chs[0]['random'], i)
            first, second = dict(shares_of(chs[0])), dict(shares_of(chs[1]))
            for g, share in first.items():
                col.add('share', share, (i, 1, g))
            for g, share in second.items():
                col.add('share', share, (i, 2, g))
        else:
            ref = Ref(scen.ref_client(sc, shares=[groups[0]]))
            s = Sio(configs[1])
            link = Link(ref, s).handshake()
            ctx.require(s.connected and ref.connected, 'compatible handshake does not complete', f'{s.error!r} {ref.error!r}')
            hellos = [b for n, b, _ in ref.peer.rx_msgs if n in ('SH', 'HRR')]
            sh = [h for h in map(ref13.parse_server_hello, hellos) if h['random'] != ref13.HRR_RANDOM]
            ctx.check(len(hellos) == 2 and len(sh) == 1, 'a retry is answered by other hellos', len(hellos))
            col.add('server random', sh[0]['random'], i)
            col.add('share', share_of(sh[0])[1], (i, 0))
        ctx.count('retried hellos')
        ctx.count('connections')
    ctx.seen('retry', tuple(groups))


def run_fork(spec, ctx):
    """ Two processes which come from the same one draw different secrets. """
    rng = ctx.rng
    sc = scen.simple(groups_c=[0x1d, 0x17, 0x18], groups_s=[0x1d, 0x17, 0x18])
    cc, cs = scen.client_config(sc), scen.server_config(sc)
    Link(*scen.pair(sc, configs=(cc, cs))).handshake()
    unseed(rng)
    pipes = []
    for _ in range(3):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                if spec['side'] == 'client':
                    c = Sio(cc, server_hostname=sc['host'])
                    c.start()
                    ch = ref13.parse_client_hello(hello(c)[4:])
                    out = ch['random'] + b''.join(s for g, s in shares_of(ch))
                else:
                    ref = Ref(scen.ref_client(sc))
                    s = Sio(cs)
                    ref.start()
                    s.start()
                    s.feed(ref.out())
                    sh = ref13.parse_server_hello(hello(s)[4:])
                    out = sh['random'] + share_of(sh)[1]
                os.write(w, out)
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    col = Collection(ctx)
    for i, (pid, r) in enumerate(pipes):
        data = b''
        while piece := os.read(r, 4096):
            data += piece
        os.close(r)
        os.waitpid(pid, 0)
        ctx.require(len(data) > 60, 'no hello out of a forked process', len(data))
        col.add(f"{spec['side']} random", data[:32], i)
        col.add('share', data[32:64], i)
    ctx.count('forks', len(pipes))
    ctx.seen('fork', spec['side'])
