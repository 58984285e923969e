""" C09: everything sent is well-formed, protected and within limits. """
import os

from siotls import TLSConfiguration, TLSError

from lib import judge, pki, ref13, scen
from lib.link import Link, Ref, Sio, alert_name
from lib.monitor import KeyLog, records, tap_link

PID, LEVEL = 'C09', 'exploration'
RULE = ('distinct (sender, peer, suite, fragment limit, content type, epoch, record size) combinations of '
        'records decrypted and judged')
ASSUMPTIONS = ['before a fragment limit is agreed the client already respects the one it asks for',
               'what is emitted is decrypted with the secrets siotls logs, whose correctness is C10']
MINIMUM = {'records judged': 8000, 'messages parsed': 3000, 'protected records': 5000, 'alerts judged': 60,
           'fragmented messages': 50}

R = ref13


def cases(tier, seed):
    k = 3 if tier == 'quick' else 40
    out = [{'what': 'pair', 'n': n} for n in range(120 * k)]
    out += [{'what': 'server', 'n': n} for n in range(120 * k)]
    out += [{'what': 'client', 'n': n} for n in range(120 * k)]
    out += [{'what': 'failing', 'n': n} for n in range(80 * k)]
    out += [{'what': 'sizes', 'mfl': m, 'suite': s, 'n': n} for m in scen.MFLS for s in scen.SUITES for n in range(k)]
    out += [{'what': 'bulky', 'n': n} for n in range(15 * k)]
    return out


def run_case(spec, ctx):
    with KeyLog() as kl:
        globals()['run_' + spec['what']](spec, ctx, kl)


# ------------------------------------------------------ what is emitted

class Whole(Sio):
    """ Every batch to send is made of whole records. """
    ctx = None

    def out(self):
        b = super().out()
        if b and self.ctx:
            recs, rest = records(b)
            self.ctx.check(not rest, 'a record is emitted in part', f'{len(rest)} bytes after {len(recs)} records')
        return b


def messages(ctx, side, who, ch_types=None, host=None):
    """ Strict parsers over everything a side said. """
    for t, msg, epoch in side.messages:
        ctx.count('messages parsed')
        name = R.HS_NAMES.get(t, t)
        want = {R.CH: 'clear', R.SH: 'clear', R.EE: 'hs', R.CERT: 'hs', R.CV: 'hs', R.FIN: 'hs', R.CR: 'hs'}
        ctx.check(want.get(t) == epoch, f'{name} is sent in the wrong epoch', f'{who} {epoch}')
        try:
            if t == R.CH:
                d = R.parse_client_hello(msg[4:])
                ctx.check(who == 'client' and d['legacy_version'] == 0x0303 and set(d['compression']) == {0}
                          and d['versions'] == [0x0304], 'hello not of TLS 1.3', str(d)[:300])
                ctx.check(len({x for x, _ in d['exts']}) == len(d['exts']), 'duplicated extension', '')
                ctx.check(R.X_PSK not in d['x'] and R.X_EARLY not in d['x'], 'pre-shared key offered', '')
                if host and host != pki.IP:
                    ctx.check(d.get('sni') in (host, host.encode()), 'the server name is not the requested one', str(d.get('sni')))
                else:
                    ctx.check(R.X_SNI not in d['x'], 'a server name is sent out of an address', str(d.get('sni')))
            elif t == R.SH:
                d = R.parse_server_hello(msg[4:])
                ctx.check(who == 'server' and d.get('version') == 0x0304, 'ServerHello not of TLS 1.3', '')
                ctx.check(set(d['x']) <= {R.X_VERSIONS, R.X_KEYSHARE}, 'stray extension in ServerHello', str(d['x']))
            elif t == R.EE:
                r = R.R(msg[4:])
                xs = R.parse_exts(r)
                r.end()
                if ch_types is not None:
                    ctx.check({x for x, _ in xs} <= ch_types, 'unsolicited extension in EncryptedExtensions',
                              f'{xs} {ch_types}')
            elif t == R.CERT:
                cx, entries = R.parse_certificate(msg[4:])
                ctx.check(cx == b'', 'certificate request context', cx)
                if who == 'server':
                    ctx.check(entries, 'empty server certificate', '')
                    for _, xs in entries:
                        if ch_types is not None:
                            ctx.check({x for x, _ in xs} <= ch_types, 'unsolicited certificate extension', str(xs)[:200])
            elif t == R.CV:
                r = R.R(msg[4:])
                r.u16()
                ctx.check(r.v16(), 'empty signature', '')
                r.end()
            elif t == R.FIN:
                ctx.check(len(msg) - 4 in (32, 48), 'Finished of a strange size', len(msg))
            else:
                ctx.violation(f'siotls sends {name}', who)
        except R.RefError as exc:
            ctx.violation(f'malformed {name}', f'{who}: {exc} {msg[:200].hex()}')


def judge_tap(ctx, tap, own, sent, what, host=None):
    """ sent: {side: [bytes which are only to be found protected]} """
    for who, m, d in tap.problems:
        ctx.violation(m, f'{what}: {who} {d}')
    ch_types = None
    for t, msg, _ in tap.client.messages:
        if t == R.CH:
            try:
                ch_types = set(R.parse_client_hello(msg[4:])['x'])
            except R.RefError:
                pass
    for side in (tap.client, tap.server):
        if side.name not in own:
            continue
        messages(ctx, side, side.name, ch_types, host)
        big = {}
        for r in side.records:
            ctx.count('records judged')
            if r['epoch'] != 'clear':
                ctx.count('protected records')
            ctx.seen(side.name, what, tap.suite.name if tap.suite else '-', tap.mfl, r.get('inner'), r['epoch'],
                     min(r['len'], 20000) // 256)
            if r.get('inner') == 22:
                big[r['epoch']] = big.get(r['epoch'], 0) + 1
        if any(n > 6 for n in big.values()):
            ctx.count('fragmented messages')
        ctx.count('alerts judged', len(side.alerts))


def no_clear_data(ctx, stream, secrets):
    stream = bytes(stream)
    for token in secrets:
        if len(token) >= 16:
            for i in range(0, len(token) - 16, max(1, len(token) // 8)):
                ctx.check(token[i:i + 16] not in stream, 'application data appears in clear on the wire', token[:16].hex())


SIZES = (0, 1, 2, 100, 255, 494, 495, 496, 511, 512, 513, 1023, 1024, 4078, 4079, 4080, 4095, 4096, 4097, 8175,
         16366, 16367, 16368, 16383, 16384, 16385, 33000)


def chat(ctx, ends, link, sent):
    rng = ctx.rng
    for _ in range(rng.randint(0, 6)):
        e = rng.choice(ends)
        if not e.connected:
            continue
        data = os.urandom(rng.choice(SIZES))
        try:
            e.write(data)
        except TLSError:
            continue
        sent.append(data)
        if rng.random() < .5:
            link.run()
    r = rng.random()
    if r < .5:
        for e in ends:
            if rng.random() < .6 and (not isinstance(e, Sio) or e.connected):
                e.close()
                if rng.random() < .5:
                    link.run()
    link.run()


def run_pair(spec, ctx, kl):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    c, s = scen.pair(sc, dict(log_keys=True), dict(log_keys=rng.random() < .5))
    for e in (c, s):
        e.__class__, e.ctx = Whole, ctx
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.require(c.connected and s.connected, 'compatible handshake does not complete', f'{c.error!r} {s.error!r}')
    sent = []
    chat(ctx, (c, s), link, sent)
    tap = tap_link(link, judge.all_secrets(kl), mfl=sc['mfl'], asked=sc['mfl'])
    judge_tap(ctx, tap, ('client', 'server'), sent, 'pair', sc['host'])
    ctx.check(bytes(tap.client.app) + bytes(tap.server.app) != b'' or not b''.join(sent), 'no data on the wire', '')
    no_clear_data(ctx, link.c2s + link.s2c, sent)
    ctx.eval()
    ctx.sample({'peer': 'siotls', 'limit': sc['mfl'], 'records': len(tap.client.records) + len(tap.server.records)})


def strict(ctx, ref, what):
    ctx.check(ref.error is None, 'an independent peer rejects what siotls sends', f'{what}: {ref.error!r}')


def run_server(spec, ctx, kl):
    """ a siotls server before a strict independent client """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    want = scen.expected(sc)['group']
    others = [g for g in sc['groups_c'] if g != want]
    shares = rng.choice(([want], rng.sample(others, len(others)) and others[:1] or [want]))
    shares = [g for g in sc['groups_c'] if g in shares]
    ref = Ref(scen.ref_client(sc, shares=shares, layout=scen.layout(rng), status=rng.random() < .3,
                              session_id=os.urandom(rng.choice((0, 0, 32, 32, rng.randint(1, 31)))), send_ccs=rng.choice((False, True, 'late'))))
    s = Whole(scen.server_config(sc, log_keys=True))
    s.ctx = ctx
    link = Link(ref, s, *scen.segmenters(rng)).handshake()
    ctx.require(s.connected and ref.connected, 'compatible handshake does not complete', f'{s.error!r} {ref.error!r}')
    sent = []
    for _ in range(rng.randint(0, 3)):
        if sc['hb_s']:
            n = rng.choice((0, 1, 100, min(sc['mfl'], 16384) - 40))
            ref.peer.put(R.HEARTBEAT, b'\x01' + R.u16(n) + os.urandom(n) + bytes(16))
    chat(ctx, (ref, s), link, sent)
    strict(ctx, ref, 'server')
    tap = tap_link(link, judge.all_secrets(kl), mfl=sc['mfl'], asked=sc['mfl'], own=('server',))
    judge_tap(ctx, tap, ('server',), sent, 'server')
    no_clear_data(ctx, link.s2c, sent)
    ctx.eval()


def run_client(spec, ctx, kl):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    kw = {}
    if len(sc['groups_c']) > 1 and rng.random() < .3:
        kw = dict(hrr_group=rng.choice(sc['groups_c'][1:]), groups=sc['groups_c'],
                  cookie=rng.choice((None, os.urandom(rng.choice((1, 32, 3000))))))
    accept = rng.random() < .7
    ref = Ref(scen.ref_server(sc, layout=scen.layout(rng), accept_mfl=accept, cert_request=rng.random() < .2,
                              send_ccs=rng.random() < .7, tickets=rng.choice((0, 2)),
                              early_app=rng.choice((b'', b'early')), **kw))
    c = Whole(scen.client_config(sc, log_keys=True), server_hostname=sc['host'])
    c.ctx = ctx
    link = Link(c, ref, *scen.segmenters(rng)).handshake()
    ctx.require(c.connected and ref.connected, 'compatible handshake does not complete', f'{c.error!r} {ref.error!r}')
    sent = []
    chat(ctx, (c, ref), link, sent)
    strict(ctx, ref, 'client')
    tap = tap_link(link, judge.all_secrets(kl), mfl=sc['mfl'] if accept else 16384, asked=sc['mfl'], own=('client',))
    judge_tap(ctx, tap, ('client',), sent, 'client', sc['host'])
    no_clear_data(ctx, link.c2s, sent)
    ctx.eval()


def run_failing(spec, ctx, kl):
    """ What goes out of connections that break, at any point. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=rng.choice((True, True, False)))
    logs = rng.choice(('client', 'server'))
    c, s = scen.pair(sc, dict(log_keys=logs == 'client'), dict(log_keys=logs == 'server'))
    for e in (c, s):
        e.__class__, e.ctx = Whole, ctx
    nth, seen = rng.randrange(1, 4), [0]
    way = rng.choice(('c2s', 's2c'))

    def intercept(d, data):
        if d == way:
            seen[0] += 1
            if seen[0] == nth:
                b = bytearray(data)
                for _ in range(rng.choice((1, 1, 4))):
                    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                return bytes(b)
        return data

    link = Link(c, s, *scen.segmenters(rng), intercept=intercept).handshake()
    sent = []
    if c.connected and s.connected:
        chat(ctx, (c, s), link, sent)
    for who, end in (('client', c), ('server', s)):
        # each side on its own: the streams no longer match one another
        if who != logs:
            continue
        tap, side = judge.own_tap(end, kl, asked=sc['mfl'] if who == 'client' else None)
        for w, m, d in tap.problems:
            ctx.violation(f'{m} (failing connection)', f'{who} {d}')
        ctx.count('records judged', len(side.records))
        ctx.count('alerts judged', len(side.alerts))
        fatal = [a for a in side.alerts if a[0] == 2]
        ctx.check(len(fatal) <= 1, 'several fatal alerts', fatal)
    ctx.eval()
    ctx.seen('failing', way, nth, alert_name(c.error), alert_name(s.error))


def run_sizes(spec, ctx, kl):
    rng = ctx.rng
    sc = scen.simple(mfl=spec['mfl'], suites_c=[spec['suite']], suites_s=[spec['suite']])
    c, s = scen.pair(sc, dict(log_keys=True))
    for e in (c, s):
        e.__class__, e.ctx = Whole, ctx
    link = Link(c, s).handshake()
    m = spec['mfl']
    sent = []
    for n in sorted({*SIZES, *(m * f - d for f in (1, 2) for d in range(15, 21)), *(min(m, 4096) * f - d for f in (1, 3)
                     for d in (16, 17, 18))}):
        for e in (c, s):
            data = os.urandom(max(0, n))
            e.write(data)
            sent.append(data)
            link.run()
    for e in (c, s):
        e.close()
    link.run()
    tap = tap_link(link, judge.all_secrets(kl), mfl=m, asked=m)
    judge_tap(ctx, tap, ('client', 'server'), sent, 'sizes', sc['host'])
    ctx.check(bytes(tap.client.app) == b''.join(sent[::2]) and bytes(tap.server.app) == b''.join(sent[1::2]),
              'the data on the wire is not what was written', f'{m} {spec["suite"]:#x}')
    ctx.eval(len(sent))


def run_bulky(spec, ctx, kl):
    """ Messages above the fragment limit, up to above 16384 bytes. """
    rng = ctx.rng
    mfl = rng.choice(scen.MFLS)
    n = rng.choice((2, 10, 40, 120))
    leaf = pki.leaf('p256', 'inter')
    pad = pki.make('filler', pki.key('p256', 'filler'), pki.root(), ca=True,
                   sans=tuple(f'filler{i}.test' for i in range(rng.choice((1, 60)))))
    from siotls.iana import MaxFragmentLengthOctets
    cc = TLSConfiguration('client', log_keys=True, max_fragment_length=MaxFragmentLengthOctets(mfl))
    cs = TLSConfiguration('server', log_keys=True, private_key=leaf.key,
                          certificate_chain=[leaf.cert, pki.inter().cert] + [pad.cert] * n)
    host = '.'.join(['a' * 60] * rng.choice((1, 4))) + '.test'
    c, s = Whole(cc, server_hostname=host), Whole(cs)
    c.ctx = s.ctx = ctx
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    ctx.require(c.connected and s.connected, 'big messages are not exchanged', f'{c.error!r} {s.error!r}')
    sent = []
    chat(ctx, (c, s), link, sent)
    tap = tap_link(link, judge.all_secrets(kl), mfl=mfl, asked=mfl)
    judge_tap(ctx, tap, ('client', 'server'), sent, 'bulky', host)
    ctx.count('fragmented messages')
    ctx.eval()
