""" C10: keys follow the TLS 1.3 schedule and are only logged on request. """
import base64
import logging
import os
import re
import tempfile

from lib import judge, pki, ref13, scen
from lib.link import Link, Ref, Sio, openssl_client, openssl_server
from lib.monitor import KeyLog, Tap, tap_link

PID, LEVEL = 'C10', 'exploration'
RULE = ('distinct (role, peer, suite, group, retry, certificate type, logging) handshakes whose secrets were '
        'recomputed independently')
ASSUMPTIONS = ['secrets are looked for in the logs and on the wire as raw bytes, hexadecimal, base64 and '
               'Python literals']
MINIMUM = {'schedules recomputed': 400, 'finished recomputed': 300, 'key log lines judged': 2000,
           'silent connections': 80, 'log records searched': 2000}
LABELS = ('CLIENT_HANDSHAKE_TRAFFIC_SECRET', 'SERVER_HANDSHAKE_TRAFFIC_SECRET', 'CLIENT_TRAFFIC_SECRET_0',
          'SERVER_TRAFFIC_SECRET_0', 'EXPORTER_SECRET')
LINE = re.compile(r'^[A-Z_0-9]+ [0-9a-f]{64} (?:[0-9a-f]{64}|[0-9a-f]{96})$')


def cases(tier, seed):
    k = 4 if tier == 'quick' else 50
    out = [{'what': 'client', 'n': n} for n in range(70 * k)]
    out += [{'what': 'server', 'n': n} for n in range(70 * k)]
    out += [{'what': 'pair', 'n': n} for n in range(70 * k)]
    out += [{'what': 'crowd', 'n': n} for n in range(10 * k)]
    out += [{'what': 'broken', 'n': n} for n in range(30 * k)]
    out += [{'what': 'openssl', 'n': n} for n in range(10 * k)]
    out += [{'what': 'each', 'suite': s, 'group': g, 'hrr': h} for s in scen.SUITES
            for g in scen.FAST_GROUPS + scen.SLOW_GROUPS[:1 if tier == 'quick' else 4] for h in (False, True)]
    return out


def wish(asked):
    return {'log_keys': True} if asked else {}


class Everything(logging.Handler):
    """
    All that the library logs, at any level. Keys only go to the handlers
    of the key logger: this one must not see them.
    """
    def __init__(self):
        super().__init__(1)
        self.text = []
        self.setFormatter(logging.Formatter('%(name)s %(levelname)s %(message)s'))

    def emit(self, record):
        self.text.append(self.format(record) + ' ' + repr(record.args) + ' ' + repr(record.__dict__.get('extra')))

    def __enter__(self):
        root = logging.getLogger()
        self.old = [(lg, lg.level) for lg in (root, logging.getLogger('siotls'))]
        for lg, _ in self.old:
            lg.setLevel(1)
        root.addHandler(self)
        return self

    def __exit__(self, *exc):
        logging.getLogger().removeHandler(self)
        for lg, lvl in self.old:
            lg.setLevel(lvl)


def run_case(spec, ctx):
    with KeyLog() as kl, Everything() as ev:
        globals()['run_' + spec['what']](spec, ctx, kl, ev)


def no_leak(ctx, secrets, ev, *streams):
    text = '\n'.join(ev.text)
    ctx.count('log records searched', len(ev.text))
    wire = [bytes(s) for s in streams]
    low = text.lower()
    for name, s in secrets.items():
        if not s or len(s) < 12:
            continue
        shown = (s.hex() in low or base64.b64encode(s).decode().rstrip('=') in text or repr(s)[2:-1] in text
                 or str(int.from_bytes(s, 'big')) in text or ' '.join(f'{b:02x}' for b in s) in low)
        ctx.check(not shown, 'a secret leaves through the logs', name)
        for w in wire:
            ctx.check(s not in w and s.hex().encode() not in w, 'a secret leaves on the wire', name)
    ctx.count('secrets searched', len(secrets))


def all_of(sched, shared):
    out = {'shared': shared}
    for k in ('early', 'hs', 'master', 'c_hs', 's_hs', 'c_ap', 's_ap', 'exp'):
        v = getattr(sched, k, None)
        if v and k != 'early':
            out[k] = v
            if k in ('c_hs', 's_hs', 'c_ap', 's_ap'):
                r = ref13.Rec(sched.suite, v)
                out[k + ' key'], out[k + ' iv'] = r.key, r.iv
                out[k + ' fin'] = ref13.expand_label(sched.h, v, 'finished', b'', sched.suite.hlen)
    return out


def expect_lines(ctx, kl, random, sched, logging_sides, what):
    """ Each secret once per connection which asked for it. """
    want = dict(zip(LABELS, (sched.c_hs, sched.s_hs, sched.c_ap, sched.s_ap, sched.exp)))
    mine = []
    for line in kl.lines:
        ctx.count('key log lines judged')
        ctx.check(LINE.match(line), 'malformed key log line', line)
        if f' {random.hex()} ' in line:
            mine.append(line)
    should = sorted(f'{label} {random.hex()} {sec.hex()}' for label, sec in want.items()) * logging_sides
    got = sorted(mine)
    if sorted(should) != got:
        labels = [g.split(' ')[0] for g in got]
        for label in LABELS:
            n = labels.count(label)
            ctx.check(n == logging_sides, 'a secret is not logged exactly once', f'{what} {label} {n} times for {logging_sides}')
        ctx.check(set(labels) <= set(LABELS), 'a stray label is logged', labels)
        ctx.check(set(got) == set(should), 'a logged secret is not the one of the key schedule',
                  f'{what}\n got {got}\nwant {sorted(set(should))}')
    ctx.count('schedules recomputed')


def run_client(spec, ctx, kl, ev, sc=None, hrr=None):
    rng = ctx.rng
    sc = sc or scen.rand(rng, slow=rng.random() < .05, compatible=True)
    kw = {}
    if len(sc['groups_c']) > 1 and (rng.random() < .3 if hrr is None else hrr):
        kw = dict(hrr_group=sc['groups_c'][-1], groups=sc['groups_c'], cookie=rng.choice((None, os.urandom(9))))
    asked = rng.random() < .75
    ref = Ref(scen.ref_server(sc, layout=scen.layout(rng), cert_request=rng.random() < .15,
                              tickets=rng.choice((0, 1, 3)), **kw))
    c = Sio(scen.client_config(sc, **wish(asked)), server_hostname=sc['host'])
    link = Link(c, ref, *scen.segmenters(rng)).handshake()
    ctx.require(c.connected and ref.connected, 'compatible handshake does not complete', f'{c.error!r} {ref.error!r}')
    talk(ctx, link)
    p = ref.peer
    expect_lines(ctx, kl, p.chs[0]['random'], p.sched, int(asked), 'client')
    if not asked:
        ctx.check(not kl.lines, 'secrets are logged although nobody asked', kl.lines[:2])
        ctx.count('silent connections')
    ctx.count('finished recomputed')         # the reference peer verified the client's
    no_leak(ctx, all_of(p.sched, p.shared_key), ev, link.c2s)
    ctx.eval()
    ctx.seen('client', p.suite.name, p.group, bool(kw), sc['trust'], asked)
    ctx.sample({'role': 'client', 'suite': p.suite.name, 'lines': len(kl.lines), 'log records': len(ev.text)})


def run_server(spec, ctx, kl, ev, sc=None, hrr=None):
    rng = ctx.rng
    sc = sc or scen.rand(rng, slow=rng.random() < .05, compatible=True)
    want = scen.expected(sc)['group']
    others = [g for g in sc['groups_c'] if g != want]
    use = others and (rng.random() < .3 if hrr is None else hrr)
    asked = rng.random() < .75
    ref = Ref(scen.ref_client(sc, shares=others[:1] if use else [want], layout=scen.layout(rng),
                              session_id=os.urandom(rng.choice((0, 0, 32, 32, rng.randint(1, 31))))))
    s = Sio(scen.server_config(sc, **wish(asked)))
    link = Link(ref, s, *scen.segmenters(rng)).handshake()
    ctx.require(s.connected and ref.connected, 'compatible handshake does not complete', f'{s.error!r} {ref.error!r}')
    talk(ctx, link)
    p = ref.peer
    expect_lines(ctx, kl, p.random, p.sched, int(asked), 'server')
    if not asked:
        ctx.check(not kl.lines, 'secrets are logged although nobody asked', kl.lines[:2])
        ctx.count('silent connections')
    ctx.count('finished recomputed')
    key = scen.private_key(sc)
    secrets = all_of(p.sched, p.shared_key)
    secrets['private key'] = private_bytes(key)
    no_leak(ctx, secrets, ev, link.s2c)
    ctx.eval()
    ctx.seen('server', p.suite.name, p.group, bool(use), sc['server_certs'], asked)


def private_bytes(key):
    if hasattr(key, 'private_numbers'):
        n = key.private_numbers()
        v = getattr(n, 'private_value', None) or n.d
        return v.to_bytes((v.bit_length() + 7) // 8, 'big')
    return key.private_bytes_raw()


def talk(ctx, link):
    for e in (link.c, link.s):
        e.write(b'x' * ctx.rng.randrange(2000))
    link.run()
    for e in (link.c, link.s):
        if ctx.rng.random() < .5:
            e.close()
    link.run()


def run_pair(spec, ctx, kl, ev):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    a, b = rng.random() < .7, rng.random() < .7
    c, s = scen.pair(sc, wish(a), wish(b))
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.require(c.connected and s.connected, 'compatible handshake does not complete', f'{c.error!r} {s.error!r}')
    talk(ctx, link)
    ctx.eval()
    if not a and not b:
        ctx.check(not kl.lines, 'secrets are logged although nobody asked', kl.lines[:2])
        ctx.count('silent connections')
        return
    labels = [x.split(' ')[0] for x in kl.lines]
    for label in LABELS:
        ctx.check(labels.count(label) == a + b, 'a secret is not logged exactly once', f'{label} {labels}')
    ctx.check(len(set(kl.lines)) == len(LABELS), 'both sides do not log the same secrets', '\n'.join(sorted(kl.lines)))
    ctx.check(len({x.split(' ')[1] for x in kl.lines}) == 1, 'both sides do not log the same random', '')
    for x in kl.lines:
        ctx.check(LINE.match(x), 'malformed key log line', x)
    ctx.count('key log lines judged', len(kl.lines))
    tap = tap_link(link, judge.all_secrets(kl), mfl=sc['mfl'], asked=sc['mfl'])
    for p in tap.check_finished():
        ctx.violation('a Finished is not the one of the key schedule', p)
    ctx.count('finished recomputed', 2)
    ch = next(m for t, m, _ in tap.client.messages if t == ref13.CH)
    ctx.check(kl.lines[0].split(' ')[1] == ch[6:38].hex(), 'the log is not keyed by the client random', '')
    no_leak(ctx, {k: v for k, v in judge.all_secrets(kl).items()}, ev, link.c2s, link.s2c)
    ctx.seen('pair', tap.suite.name, scen.expected(sc)['group'], scen.expected(sc)['hrr'], a, b)


def run_each(spec, ctx, kl, ev):
    rng = ctx.rng
    other = 0x17 if spec['group'] != 0x17 else 0x1d
    groups = [other, spec['group']] if spec['hrr'] else [spec['group'], other]
    sc = scen.simple(suites_c=[spec['suite']], suites_s=[spec['suite']], groups_c=groups,
                     groups_s=[spec['group']])
    run_client(spec, ctx, kl, ev, sc, spec['hrr'])
    kl.lines.clear()
    ev.text.clear()
    run_server(spec, ctx, kl, ev, dict(sc), spec['hrr'])


def run_crowd(spec, ctx, kl, ev):
    """ Many connections at once, some of which log. """
    rng = ctx.rng
    links, logs = [], []
    sc = scen.rand(rng, compatible=True)
    cfg = {(side, log): (scen.client_config if side == 'c' else scen.server_config)(sc, log_keys=log)
           for side in 'cs' for log in (False, True)}
    for _ in range(rng.randint(3, 8)):
        a, b = rng.random() < .5, rng.random() < .5
        c = Sio(cfg['c', a], server_hostname=sc['host'])
        s = Sio(cfg['s', b])
        links.append(Link(c, s, *scen.segmenters(rng)))
        logs.append(a + b)
        links[-1].start()
    busy = list(links)
    while busy:
        link = rng.choice(busy)
        if not link.step():
            busy.remove(link)
    total = 0
    for link, n in zip(links, logs):
        ctx.require(link.c.connected and link.s.connected, 'compatible handshake does not complete', repr(link.c.error))
        ch = Tap(link.c2s, b'', {}, own=()).client.messages[0][1]
        mine = [x for x in kl.lines if x.split(' ')[1] == ch[6:38].hex()]
        ctx.check(len(mine) == 5 * n and len(set(mine)) == (5 if n else 0),
                  'a secret is not logged exactly once per connection that asked', f'{n} {len(mine)} {len(set(mine))}')
        total += len(mine)
        if not n:
            ctx.count('silent connections')
    ctx.check(total == len(kl.lines), 'stray lines in the key log', f'{total} {len(kl.lines)}')
    vals = {x.split(' ')[2] for x in kl.lines}
    ctx.check(len(vals) * 1 == len(set(kl.lines)), 'distinct connections share a secret', '')
    ctx.count('key log lines judged', len(kl.lines))
    ctx.eval()


def run_broken(spec, ctx, kl, ev):
    """ Handshakes which fail leak nothing either. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    asked = rng.random() < .5
    point = rng.choice(('SH', 'EE', 'CERT', 'CV', 'FIN'))

    def bad(p, m):
        b = bytearray(m)
        b[rng.randrange(4, len(b))] ^= 1 << rng.randrange(8)
        return [bytes(b)]

    if rng.random() < .6:
        ref = Ref(scen.ref_server(sc, script={point: bad}, lenient=True))
        sio = Sio(scen.client_config(sc, **wish(asked)), server_hostname=sc['host'])
        link = Link(sio, ref).handshake()
        random = ref.peer.chs[0]['random']
    else:
        ref = Ref(scen.ref_client(sc, script={'FIN': bad}, lenient=True))
        sio = Sio(scen.server_config(sc, **wish(asked)))
        link = Link(ref, sio).handshake()
        random, point = ref.peer.random, 'client FIN'
    p = ref.peer
    if not asked:
        ctx.check(not kl.lines, 'secrets are logged although nobody asked', kl.lines[:2])
        ctx.count('silent connections')
    elif p.sched and point not in ('SH',):
        want = {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': p.sched.c_hs, 'SERVER_HANDSHAKE_TRAFFIC_SECRET': p.sched.s_hs}
        for line in kl.lines:
            label, r, sec = line.split(' ')
            ctx.check(r == random.hex(), 'the log is not keyed by the client random', line)
            if label in want:
                ctx.check(bytes.fromhex(sec) == want[label], 'a logged secret is not the one of the key schedule', label)
        labels = [x.split(' ')[0] for x in kl.lines]
        for label in want:
            ctx.check(labels.count(label) == 1, 'a secret is not logged exactly once', f'{point} {labels}')
        if point != 'EE' and sio.error is not None:
            ctx.check(set(labels) == set(want), 'secrets of a handshake that failed are logged', f'{point} {labels}')
    if p.sched and point != 'SH':
        secrets = all_of(p.sched, p.shared_key)
        no_leak(ctx, secrets, ev, sio.tx)
        for exc in sio.errors:
            text = f'{exc!r} {exc} {exc.__cause__!r}'
            ctx.check(not any(v.hex() in text or repr(v)[2:-1] in text for k, v in secrets.items() if v and len(v) > 11),
                      'a secret leaves through an exception', text[:300])
    ctx.eval()
    ctx.seen('broken', point, asked)


def run_openssl(spec, ctx, kl, ev):
    """ The same secrets as OpenSSL logs. """
    rng = ctx.rng
    sc = scen.simple(kind=rng.choice(('p256', 'rsa', 'p384')), suites_c=[rng.choice(scen.SUITES[:3])],
                     groups_c=[rng.choice((0x1d, 0x17, 0x18))])
    sc['suites_s'], sc['groups_s'] = sc['suites_c'], sc['groups_c']
    node = scen.leaf_node(sc['kind'], 'root')
    fd, path = tempfile.mkstemp(dir=os.environ.get('SIOTLS_SCRATCH'))
    os.close(fd)
    role = rng.choice(('client', 'server'))
    if role == 'client':
        other = openssl_server([node], tmp=os.environ.get('SIOTLS_SCRATCH'))
        other.obj.context.keylog_filename = path
        sio = Sio(scen.client_config(sc, log_keys=True), server_hostname=sc['host'])
        link = Link(sio, other)
    else:
        other = openssl_client(None)
        other.obj.context.keylog_filename = path
        sio = Sio(scen.server_config(sc, log_keys=True))
        link = Link(other, sio)
    link.handshake()
    ctx.require(sio.connected and other.connected, 'compatible handshake does not complete with OpenSSL',
                f'{sio.error!r} {other.error!r}')
    with open(path) as f:
        theirs = {x.strip() for x in f if x.strip() and not x.startswith('#')}
    os.unlink(path)
    ctx.check(theirs == set(kl.lines), 'the key log differs from that of OpenSSL',
              f'{sorted(theirs)} {sorted(kl.lines)}')
    ctx.count('schedules recomputed')
    ctx.count('key log lines judged', len(kl.lines))
    ctx.eval()
    ctx.seen('openssl', role, sc['suites_c'], sc['groups_c'])
