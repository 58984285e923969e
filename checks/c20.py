""" C20: the hello is retried once, for a good reason, and as a whole. """
import hashlib
import os
import struct

from siotls import TLSError

from lib import ref13, scen
from lib.link import Link, Ref, Sio, alert_name
from lib.monitor import records
from lib.ref13 import (
    CH, HANDSHAKE, HRR_RANDOM, SH, X_ALPN, X_COOKIE, X_GROUPS, X_HEARTBEAT, X_KEYSHARE, X_MFL, X_PADDING, X_SIGALGS, X_VERSIONS,
    ext, hs, list16, u8, u16, v8, v16)

PID, LEVEL = 'C20', 'exploration'
RULE = ('distinct (role, kind of retry or of its violation, groups, shares, cookie, place) handshakes judged, from the bytes of '
        'both hellos')
ASSUMPTIONS = [
    'the server does not compare the parts of the second hello it does not depend on: what it selected must still be offered, the '
    'random and the suite must be the same, and the whole is authenticated by Finished',
    'a retry which only brings a cookie may be refused',
    'a second hello which shares more groups than the requested one may be refused',
]
MINIMUM = {'retries by siotls servers': 400, 'no retry needed': 150, 'second hellos compared': 400, 'cookies echoed': 200,
           'refused by clients': 600, 'refused by servers': 500, 'tampered': 250, 'wrong transcripts refused': 150, 'kept': 60}
SECOND = ('second-hrr', 'second-hrr-other', 'unsupported', 'unknown-group', 'shared', 'suite', 'hrr-suite', 'group-original',
          'group-other', 'no-extension', 'cookie-only', 'hrr-after-sh', 'sh-no-share', 'sh-is-hrr')
CH2 = ('random', 'suite-gone', 'group-gone', 'sigalgs-gone', 'no-share', 'empty-shares', 'other-share', 'short-share', 'long-share',
       'same', 'version', 'no-groups', 'no-sigalgs', 'versions-gone', 'third')
KEPT = ('padding', 'more-suites', 'more-groups', 'more-sigs', 'more-shares')
TRANSCRIPTS = ('plain', 'no-hrr', 'no-hello', 'hash', 'type', 'second-only', 'other-hello')


def cases(tier, seed):
    k = 6 if tier == 'quick' else 60
    out = [{'what': 'second', 'n': n} for n in range(160 * k)]
    out += [{'what': 'client', 'how': h, 'n': n} for h in SECOND for n in range(16 * k)]
    out += [{'what': 'asks', 'n': n} for n in range(200 * k)]
    out += [{'what': 'server', 'how': h, 'n': n} for h in CH2 for n in range(14 * k)]
    out += [{'what': 'kept', 'how': h, 'n': n} for h in KEPT for n in range(8 * k)]
    out += [{'what': 'transcript', 'role': r, 'how': h, 'n': n} for r in ('client', 'server') for h in TRANSCRIPTS for n in range(5 * k)]
    out += [{'what': 'pair', 'n': n} for n in range(140 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


# ---- messages
def body_of(msg):
    return msg[4:]


def parse(msg):
    return ref13.parse_client_hello(body_of(msg))


def build(d):
    return hs(CH, u16(d['legacy_version']) + d['random'] + v8(d['session_id']) + list16(d['suites'])
              + v8(bytes(d['compression'])) + v16(b''.join(ext(t, b) for t, b in d['exts'])))


def swap(d, t, b):
    """ The extension replaced (None: removed). """
    d['exts'] = [(x, y if x != t else b) for x, y in d['exts'] if x != t or b is not None]
    return d


def retry(session_id, suite, group=None, cookie=None, versions=True):
    e = b''
    if versions:
        e += ext(X_VERSIONS, u16(0x0304))
    if group is not None:
        e += ext(X_KEYSHARE, u16(group))
    if cookie is not None:
        e += ext(X_COOKIE, v16(cookie))
    return hs(SH, u16(0x0303) + HRR_RANDOM + v8(session_id) + u16(suite) + u8(0) + v16(e))


def hellos(stream):
    """ The handshake messages in clear of a wire. """
    data = b''.join(b for t, _, b in records(stream)[0] if t == HANDSHAKE)
    out = []
    while len(data) >= 4:
        n = 4 + int.from_bytes(data[1:4], 'big')
        if len(data) < n:
            break
        out.append(data[:n])
        data = data[n:]
    return out


def many(rng, lo=2):
    """ A scenario whose client supports several groups. """
    while True:
        sc = scen.rand(rng, compatible=True)
        if len(sc['groups_c']) >= lo:
            return sc


def compare(ctx, first, second, group, cookie):
    """ The second hello of a siotls client is the first, but. """
    a, b = parse(first), parse(second)
    for k in ('legacy_version', 'random', 'session_id', 'suites', 'compression'):
        ctx.check(a[k] == b[k], f'the second hello has another {k}', f'{a[k]!r} {b[k]!r}')
    drop = (X_KEYSHARE, X_COOKIE, X_PADDING)
    ax, bx = ([(t, v) for t, v in d['exts'] if t not in drop] for d in (a, b))
    ctx.check(ax == bx, 'the second hello has other extensions', f'{ax} {bx}')
    ctx.check([g for g, _ in b['shares']] == [group], 'the second hello does not share the requested group alone',
              f'{b["shares"]} for {group:#x}')
    old = [k for _, k in a['shares']]
    ctx.check(all(k not in old for _, k in b['shares']), 'the second hello shares a former key', '')
    ctx.check(b.get('cookie') == cookie, 'the cookie is not echoed' if cookie else 'a cookie comes out of nowhere',
              lambda: f'{(b.get("cookie") or b"")[:40]!r} for {(cookie or b"")[:40]!r}')
    ctx.check('cookie' not in a, 'the first hello has a cookie', '')
    ctx.count('second hellos compared')
    if cookie:
        ctx.count('cookies echoed')


def run_second(spec, ctx):
    rng = ctx.rng
    sc = many(rng)
    # one offered group which the client does not share at first
    group = rng.choice(sc['groups_c'][1:])
    cookie = rng.choice((None, os.urandom(1), os.urandom(rng.choice((2, 32, 255, 256, 4000))), bytes(7),
                         os.urandom(rng.choice((16000, 16384, 20000, 60000))) if rng.random() < .4 else b'\xff' * 33))
    s = Ref(scen.ref_server(sc, hrr_group=group, groups=sc['groups_c'], cookie=cookie, layout=scen.layout(rng), alpn=None,
                            send_ccs=rng.random() < .7))
    c = Sio(scen.client_config(sc), server_hostname=sc['host'])
    link = Link(c, s, *scen.segmenters(rng))
    link.handshake()
    shared = [g for g, _ in s.peer.chs[0]['shares']] if s.peer.chs else []
    if group in shared:
        ctx.count('already shared')
        ctx.check(c.connected, 'handshake fails', f'{c.error!r} {s.error!r}')
        return
    hh = hellos(c.tx)
    ctx.require(len(hh) == 2, 'the client does not answer a retry with one second hello', f'{len(hh)} {c.error!r} {s.error!r}')
    compare(ctx, *hh, group, cookie)
    ctx.require(c.connected and s.connected, 'a retried handshake fails', f'{c.error!r} {s.error!r}')
    ctx.check(int(c.conn.nconfig.key_exchange) == group, 'the group reported is not the retried one', f'{c.conn.nconfig.key_exchange} {group:#x}')
    ctx.seen('second', group, size(cookie), sc['mfl'], bool(sc['alpn_c']), tuple(sc['server_certs']))
    ctx.sample({'retried for': hex(group), 'cookie': len(cookie or b''), 'first shared': [hex(g) for g in shared]})


def size(b):
    return -1 if b is None else len(b).bit_length()


def client_refuses(ctx, c, s, why, hello=1):
    ctx.check(isinstance(c.error, TLSError) and alert_name(c.error) not in (None, 'close_notify'),
              f'the client does not refuse {why}', f'{c.error!r} {c.connected} {len(hellos(c.tx))}')
    ctx.check(not c.connected and c.conn.is_post_handshake(), f'the client goes on after {why}', repr(c.error))
    ctx.check(len(hellos(c.tx)) == hello, f'the client sends another hello in spite of {why}', len(hellos(c.tx)))
    ctx.check(not any(n == 'FIN' for n, _, _ in s.peer.rx_msgs), f'the client finishes in spite of {why}', '')
    fatal = [r for r in records(c.tx)[0] if r[0] == 21]
    # in clear, unless the keys are in place
    ctx.check(len(fatal) == 1 or s.peer.alerts_in or s.peer.suite, f'no alert is sent for {why}', repr(c.error))
    ctx.count('refused by clients')


def run_client(spec, ctx):
    rng, how = ctx.rng, spec['how']
    sc = many(rng, 3 if how in ('second-hrr-other', 'group-other') else 2)
    if how == 'suite':
        sc['suites_c'] = scen.some(rng, scen.SUITES, 2)
        sc['suites_s'] = sc['suites_c'][:]
    group = rng.choice(sc['groups_c'][1:])
    cookie = rng.choice((None, os.urandom(20)))
    script, kw = {}, {}
    hello = 2

    def replaced(make):
        """ A message which takes the place of the one the server would send. """
        return lambda peer, msg: [make(peer, msg)]

    def ids(peer):
        return peer.chs[0]['session_id'], peer.suite.code
    if how in ('second-hrr', 'second-hrr-other', 'sh-is-hrr'):
        def make(peer, msg):
            g = {'second-hrr': group, 'second-hrr-other': rng.choice([x for x in sc['groups_c'] if x != group])}.get(how)
            if how == 'sh-is-hrr':
                # a complete hello, but for its random
                return msg[:6] + HRR_RANDOM + msg[38:]
            return retry(*ids(peer), g, rng.choice((None, cookie, os.urandom(5))))
        script['SH'] = replaced(make)
    elif how in ('unsupported', 'unknown-group', 'shared', 'hrr-suite', 'no-extension', 'cookie-only'):
        hello = 1

        def make(peer, msg):
            sid, suite = ids(peer)
            shared = [g for g, _ in peer.chs[0]['shares']]
            if how == 'unsupported':
                other = [g for g in ref13.GROUPS if g not in sc['groups_c']] or [0x1b]
                return retry(sid, suite, rng.choice(other), cookie)
            if how == 'unknown-group':
                return retry(sid, suite, rng.choice((0, 1, 0x1a, 0x2a2a, 0x11ec, 0xffff)), cookie)
            if how == 'shared':
                return retry(sid, suite, rng.choice(shared), cookie)
            if how == 'hrr-suite':
                other = [x for x in scen.SUITES if x not in sc['suites_c']] or [0x1306]
                return retry(sid, rng.choice([*other, 0xc02f, 0x00ff]), group, cookie)
            if how == 'no-extension':
                return retry(sid, suite, versions=rng.random() < .7)
            return retry(sid, suite, cookie=cookie or os.urandom(9))
        script['HRR'] = replaced(make)
    elif how == 'suite':
        def make(peer, msg):
            other = rng.choice([x for x in sc['suites_c'] if x != peer.suite.code])
            return msg[:39 + msg[38]] + u16(other) + msg[41 + msg[38]:]
        script['SH'] = replaced(make)
    elif how in ('group-original', 'group-other', 'sh-no-share'):
        def make(peer, msg):
            g = peer.chs[0]['shares'][0][0] if how == 'group-original' else rng.choice(
                [x for x in sc['groups_c'] if x not in (group, peer.chs[0]['shares'][0][0])] or [0x1b])
            xs = [(X_VERSIONS, u16(0x0304))]
            if how != 'sh-no-share':
                xs.append((X_KEYSHARE, u16(g) + v16(ref13.GROUPS[g].generate()[1])))
            n = 4 + 2 + 32 + 1 + msg[38] + 3
            return hs(SH, msg[4:n] + v16(b''.join(ext(*x) for x in xs)))
        script['SH'] = replaced(make)
    elif how == 'hrr-after-sh':
        place = rng.choice(('EE', 'CERT', 'FIN'))
        first = rng.random() < .5
        if first:
            kw['hrr_group'] = None
            hello = 1
        script[place] = lambda peer, msg: [('wire', retry(peer.chs[0]['session_id'], peer.suite.code, group, cookie), b''), msg]
    kw = {'hrr_group': group, **kw}
    s = Ref(scen.ref_server(sc, groups=sc['groups_c'], cookie=cookie, script=script, lenient=True, alpn=None,
                            layout=scen.layout(rng), **kw))
    c = Sio(scen.client_config(sc), server_hostname=sc['host'])
    Link(c, s, *scen.segmenters(rng)).handshake()
    if group in [g for g, _ in s.peer.chs[0]['shares']] and hello == 2:
        ctx.count('already shared')
        return
    if how == 'cookie-only' and c.error is None:
        hh = hellos(c.tx)
        ctx.check(len(hh) == 2, 'a retry which brings a cookie is neither answered nor refused', len(hh))
        ctx.check(parse(hh[1]).get('cookie') is not None and parse(hh[1])['shares'] == parse(hh[0])['shares'],
                  'a retry which brings a cookie changes the shares', '')
        return
    client_refuses(ctx, c, s, f'a bad retry ({how})', hello)
    ctx.seen('client', how, group, size(cookie), alert_name(c.error))


def run_asks(spec, ctx):
    """ When a siotls server asks, and how. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    exp = scen.expected(sc)
    common = sc['groups_c']
    shares = rng.choice((
        [], [exp['group']], [g for g in common if g != exp['group']][:rng.choice((1, 3))], list(common),
        [g for g in common if g != exp['group']] + [exp['group']], rng.sample(common, rng.randint(0, len(common)))))
    shares = [g for g in common if g in shares]
    kw = {}
    if rng.random() < .3:          # codepoints nobody knows
        grease = rng.choice((0x2a2a, 0x11ec, 0x1b, 0xfe00))
        kw['groups'] = [grease, *common]
        if rng.random() < .6:
            shares = [grease, *shares]
    c = Ref(scen.ref_client(sc, shares=shares, session_id=os.urandom(rng.choice((0, 0, 1, 32, rng.randint(2, 31)))), layout=scen.layout(rng), **kw))
    s = Sio(scen.server_config(sc))
    Link(c, s, *scen.segmenters(rng)).handshake()
    hh = [h for h in hellos(s.tx) if h[0] == SH]
    asked = [h for h in hh if h[6:38] == HRR_RANDOM]
    why = f'group {exp["group"]:#x} shared {shares} supported {sc["groups_c"]}'
    ctx.require(c.connected and s.connected, 'handshake fails', f'{c.error!r} {s.error!r} {why}')
    if exp['group'] in shares:
        ctx.check(not asked, 'the server asks for a share it got', why)
        ctx.count('no retry needed')
    else:
        ctx.check(len(asked) == 1, 'the server does not ask once for the share it lacks', f'{len(asked)} {why}')
        d = ref13.parse_server_hello(asked[0][4:])
        ctx.check(d.get('group') == exp['group'], 'the server asks for another group', f'{d.get("group")} {why}')
        ctx.check(d['session_id'] == c.peer.session_id, 'the retry does not echo the session id', '')
        ctx.check(d['suite'] == exp['suite'] and d.get('version') == 0x0304, 'the retry selects something else', d)
        ctx.check(set(d['x']) <= {X_VERSIONS, X_KEYSHARE, X_COOKIE}, 'the retry has unexpected extensions', list(d['x']))
        ctx.check(c.peer.sh['suite'] == d['suite'] and c.peer.group == d['group'], 'the hello selects something else than the retry', '')
        ctx.check(hh[0] == asked[0] and len(hh) == 2, 'the retry is not the first message', len(hh))
        ccs = [t for t, _, b in records(s.tx)[0] if t == 20]
        ctx.check(len(ccs) <= 1, 'more than one change_cipher_spec is sent', len(ccs))
        ctx.count('retries by siotls servers')
    ctx.seen('asks', exp['group'], tuple(shares), len(sc['groups_c']), bool(kw))


def retried(rng, mutate, sc=None, **kw):
    """ A siotls server which asks a reference client, whose second hello goes through mutate. """
    if sc is None:
        sc = many(rng)
    exp = scen.expected(sc)
    shares = [g for g in sc['groups_c'] if g != exp['group']][:rng.choice((0, 1, 2))]
    done = []

    def second(peer, msg):
        done.append(msg)
        new = mutate(peer, msg)
        return new if isinstance(new, list) else [new]
    c = Ref(scen.ref_client(sc, shares=shares, layout=scen.layout(rng), lenient=True, script={'CH2': second}, **kw))
    s = Sio(scen.server_config(sc))
    Link(c, s, *scen.segmenters(rng)).handshake()
    return sc, exp, c, s, done


def run_server(spec, ctx):
    rng, how = ctx.rng, spec['how']
    sc = many(rng)
    exp = scen.expected(sc)
    # others in common, which a server that starts over would select
    common = lambda k, ks: [x for x in sc[k] if x in sc[ks]]

    def mutate(peer, msg):
        d = parse(msg)
        if how == 'random':
            b = bytearray(d['random'])
            b[rng.choice((0, 31, rng.randrange(32)))] ^= rng.choice((1, 0x80, 0xff))
            d['random'] = rng.choice((bytes(b), os.urandom(32), bytes(32)))
        elif how == 'suite-gone':
            d['suites'] = [x for x in scen.SUITES if x != exp['suite']] if rng.random() < .7 else [0x1306]
        elif how == 'group-gone':
            swap(d, X_GROUPS, list16([g for g in ref13.GROUPS if g != exp['group']] if rng.random() < .5 else
                                     [g for g in sc['groups_c'] if g != exp['group']] or [0x1b]))
        elif how == 'sigalgs-gone':
            swap(d, X_SIGALGS, list16([x for x in scen.SIGALGS if x != exp['sig']]))
        elif how == 'no-share':
            swap(d, X_KEYSHARE, None)
        elif how == 'empty-shares':
            swap(d, X_KEYSHARE, v16(b''))
        elif how == 'other-share':
            g = rng.choice([x for x in sc['groups_c'] if x != exp['group']])
            swap(d, X_KEYSHARE, v16(u16(g) + v16(ref13.GROUPS[g].generate()[1])))
        elif how in ('short-share', 'long-share'):
            k = d['shares'][0][1]
            swap(d, X_KEYSHARE, v16(u16(exp['group']) + v16(k[:-1] if how == 'short-share' else k + b'\0')))
        elif how == 'same':
            return peer.sent_chs[0]
        elif how == 'version':
            swap(d, X_VERSIONS, v8(u16(0x0303)))
        elif how == 'versions-gone':
            swap(d, X_VERSIONS, None)
        elif how == 'no-groups':
            swap(d, X_GROUPS, None)
        elif how == 'no-sigalgs':
            swap(d, X_SIGALGS, None)
        elif how == 'third':
            return [('wire', peer.sent_chs[0], b''), msg]
        return build(d)
    sc, exp, c, s, done = retried(rng, mutate, sc)
    ctx.require(bool(done), 'the server did not ask', f'{c.error!r} {s.error!r}')
    why = f'a second hello which is wrong ({how})'
    ctx.check(isinstance(s.error, TLSError) and alert_name(s.error) not in (None, 'close_notify'), f'the server accepts {why}',
              f'{s.error!r} {s.connected}')
    hh = [h for h in hellos(s.tx) if h[0] == SH]
    ctx.check(len(hh) == 1, f'the server goes on with {why}', f'{len(hh)} hellos')
    ctx.check(not s.connected and not c.connected, f'a connection comes out of {why}', '')
    alerts = [b for t, _, b in records(s.tx)[0] if t == 21]
    ctx.check(len(alerts) == 1 and alerts[0][0] == 2, f'no fatal alert is sent for {why}', alerts)
    ctx.count('refused by servers')
    ctx.seen('server', how, exp['group'], exp['suite'], alert_name(s.error))


def run_kept(spec, ctx):
    """ What was selected before the retry stays so, whatever is offered then. """
    rng, how = ctx.rng, spec['how']
    sc = many(rng)
    sc['suites_s'], sc['groups_s'] = rng.sample(scen.SUITES, len(scen.SUITES)), rng.sample(scen.FAST_GROUPS, len(scen.FAST_GROUPS))
    exp = scen.expected(sc)

    def mutate(peer, msg):
        d = parse(msg)
        if how == 'padding':
            d['exts'].insert(rng.randrange(len(d['exts'])), (X_PADDING, bytes(rng.choice((0, 1, 500)))))
        elif how == 'more-suites':
            peer.suites = list(scen.SUITES)
            d['suites'] = [*[x for x in scen.SUITES if x not in d['suites']], *d['suites']]
        elif how in ('more-groups', 'more-shares'):
            more = [g for g in scen.FAST_GROUPS if g not in sc['groups_c']] if how == 'more-groups' else []
            swap(d, X_GROUPS, list16([*more, *sc['groups_c']]))
            out = []
            for g in [*more, *sc['groups_c']]:
                if g not in peer.privs:
                    peer.privs[g], peer.pubs[g] = ref13.GROUPS[g].generate()
                out.append(u16(g) + v16(peer.pubs[g]))
            peer.share_groups = [*more, *sc['groups_c']]
            swap(d, X_KEYSHARE, v16(b''.join(out)))
        else:
            peer.sigalgs = list(scen.SIGALGS)
            swap(d, X_SIGALGS, list16(scen.SIGALGS))
        return build(d)
    sc, exp, c, s, done = retried(rng, mutate, sc)
    ctx.require(bool(done), 'the server did not ask', f'{c.error!r} {s.error!r}')
    if s.error is None:
        ctx.check(c.connected and s.connected, 'the server neither accepts nor refuses a second hello', f'{c.error!r}')
        got = c.peer.sh['suite'], c.peer.sh['group'], c.peer.scheme
        ctx.check(got[0] == exp['suite'], 'the suite changes upon a retry', f'{got[0]:#x} {exp["suite"]:#x}')
        ctx.check(got[1] == exp['group'], 'the group changes upon a retry', f'{got[1]:#x} {exp["group"]:#x}')
        ctx.count('kept')
    else:
        ctx.check(isinstance(s.error, TLSError) and not s.connected, 'the server fails over a second hello', repr(s.error))
        ctx.check(how != 'padding', 'padding a second hello is refused', repr(s.error))
    ctx.seen('kept', how, exp['group'], s.error is None)


def run_transcript(spec, ctx):
    """ A peer which authenticates something else than the whole retried handshake. """
    rng, role, how = ctx.rng, spec['role'], spec['how']
    sc = many(rng)

    def corrupt(peer, msg):
        """ msgs: [message_hash, HRR], CH2 is to come. """
        first, hrr = peer.msgs[0], peer.msgs[-1]
        ch1 = getattr(peer, 'ch_msg1', None) or peer.sent_chs[0]
        if how == 'plain':
            peer.msgs = [ch1, hrr]
        elif how == 'no-hrr':
            peer.msgs = [first]
        elif how == 'no-hello':
            peer.msgs = [hrr]
        elif how == 'hash':
            b = bytearray(first)
            b[rng.randrange(4, len(b))] ^= 1 << rng.randrange(8)
            peer.msgs = [bytes(b), hrr]
        elif how == 'type':
            peer.msgs = [bytes([rng.choice((0, 1, 2, 253))]) + first[1:], hrr]
        elif how == 'second-only':
            peer.msgs = []
        else:
            other = bytearray(ch1)
            other[rng.randrange(6, 38)] ^= 1
            peer.msgs = [hs(ref13.MSGHASH, hashlib.new(peer.suite.hash, bytes(other)).digest()), hrr]

    if role == 'client':
        group = rng.choice(sc['groups_c'][1:])
        state = []

        def at_sh(peer, msg):
            ch2 = peer.msgs.pop()
            corrupt(peer, msg)
            peer.msgs.append(ch2)
            state.append(1)
            return [msg]
        s = Ref(scen.ref_server(sc, hrr_group=group, groups=sc['groups_c'], cookie=rng.choice((None, b'cookie')), lenient=True,
                                alpn=None, layout=scen.layout(rng), script={'SH': at_sh}))
        c = Sio(scen.client_config(sc), server_hostname=sc['host'])
        Link(c, s, *scen.segmenters(rng)).handshake()
        if group in [g for g, _ in s.peer.chs[0]['shares']]:
            return
        sio = c
    else:
        state = []

        def mutate(peer, msg):
            corrupt(peer, msg)
            state.append(1)
            return msg
        sc, exp, c, s, done = retried(rng, mutate, sc)
        sio = s
    ctx.require(bool(state), 'no retry', f'{c.error!r} {s.error!r}')
    ctx.check(not sio.connected, f'a peer which authenticates something else ({how}) is accepted', '')
    if role == 'client':
        ctx.check(isinstance(sio.error, TLSError), f'a peer which authenticates something else ({how}) is not refused', repr(sio.error))
    else:
        # the reference cannot even read the server's flight
        ctx.check(not c.connected and c.error is not None, 'both sides agree on a wrong transcript', how)
    ctx.count('wrong transcripts refused')
    ctx.seen('transcript', role, how)


def run_pair(spec, ctx):
    """ Two siotls endpoints through somebody who alters the retried hellos. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    # both support at least two groups and prefer different ones
    gs = rng.sample(scen.FAST_GROUPS, 3)
    sc['groups_c'], sc['groups_s'] = [gs[0], gs[1], gs[2]], [gs[1], gs[0]]
    op = rng.choice(('none', 'ch1', 'hrr', 'ch2', 'induce', 'cookie', 'reflect'))
    seen = {'c2s': 0, 's2c': 0}
    touched = []
    cfg_c, cfg_s = scen.client_config(sc), scen.server_config(sc)
    c, s = Sio(cfg_c, server_hostname=sc['host']), Sio(cfg_s)
    buf = {'c2s': b'', 's2c': b''}

    def change(d, rng):
        """ A change which neither side can notice on its own. """
        ways = ['session', 'shuffle', 'add']
        ways += [w for w, t in (('alpn', X_ALPN), ('hb', X_HEARTBEAT), ('mfl', X_MFL)) if t in d['x']]
        w = rng.choice(ways)
        if w == 'session':
            d['session_id'] = os.urandom(32)
        elif w == 'shuffle':
            i = rng.randrange(len(d['exts']) - 1)
            d['exts'][i], d['exts'][i + 1] = d['exts'][i + 1], d['exts'][i]
        elif w == 'add':
            d['exts'].insert(0, (rng.choice((X_PADDING, 0x2a2a, 0xfe0d)), b''))
        else:
            t = {'alpn': X_ALPN, 'hb': X_HEARTBEAT, 'mfl': X_MFL}[w]
            swap(d, t, None)
        return w

    def pack(msg):
        return b''.join(b'\x16\x03\x03' + struct.pack('!H', len(msg[i:i + 512])) + msg[i:i + 512] for i in range(0, len(msg), 512))

    def intercept(direction, data):
        """ Hellos are held until complete, altered, and sent on. """
        if touched and touched[-1] == 'done':
            return data
        buf[direction] += data
        recs, rest = records(buf[direction])
        out = b''
        hello = b''
        for i, (t, v, body) in enumerate(recs):
            if t != HANDSHAKE:
                if not hello:
                    out += bytes([t]) + u16(v) + v16(body)
                continue
            hello += body
            n = 4 + int.from_bytes(hello[1:4], 'big') if len(hello) >= 4 else 1 << 30
            if len(hello) < n:
                continue
            msg, extra = hello[:n], hello[n:]
            hello = b''
            seen[direction] += 1
            new = alter(direction, seen[direction], msg)
            out += pack(new + extra)
            if seen[direction] == 2 and direction == 's2c':
                # what follows is protected
                tail = b''.join(bytes([t]) + u16(v) + v16(b) for t, v, b in recs[i + 1:])
                buf[direction] = b''
                touched.append('done')
                return out + tail + rest
        buf[direction] = (pack_raw(hello) if hello else b'') + rest
        return out

    def pack_raw(hello):
        return b'\x16\x03\x03' + v16(hello) if len(hello) < 65536 else b''

    def alter(direction, i, msg):
        if op == 'ch1' and direction == 'c2s' and i == 1:
            d = parse(msg)
            touched.append(change(d, rng))
            return build(d)
        if op == 'ch2' and direction == 'c2s' and i == 2:
            d = parse(msg)
            touched.append(change(d, rng))
            return build(d)
        if op == 'hrr' and direction == 's2c' and i == 1 and msg[6:38] == HRR_RANDOM:
            # another session id, or another order of the extensions
            d = ref13.parse_server_hello(msg[4:])
            touched.append('hrr')
            xs = list(reversed(d['exts'])) if rng.random() < .5 and len(d['exts']) > 1 else d['exts']
            sid = os.urandom(32) if xs == d['exts'] else d['session_id']
            return hs(SH, u16(0x0303) + HRR_RANDOM + v8(sid) + u16(d['suite']) + b'\0' + v16(b''.join(ext(*x) for x in xs)))
        if op == 'cookie':
            # added to the retry, removed from the second hello
            if direction == 's2c' and i == 1:
                d = ref13.parse_server_hello(msg[4:])
                touched.append('cookie')
                return retry(d['session_id'], d['suite'], d['group'], b'planted')
            if direction == 'c2s' and i == 2:
                d = parse(msg)
                return build(swap(d, X_COOKIE, None))
        if op == 'induce' and direction == 'c2s':
            # the client is led to another group, which it supports
            if i == 1:
                touched.append('induce')
                d = parse(msg)
                return build(swap(d, X_GROUPS, list16([gs[2], gs[1]])))
        if op == 'reflect' and direction == 'c2s' and i == 2:
            touched.append('reflect')
            d = parse(msg)
            return build(swap(d, X_COOKIE, v16(b'unasked'))) if X_COOKIE in d['x'] else build({**d, 'exts': [(X_COOKIE, v16(b'unasked')), *d['exts']]})
        return msg

    link = Link(c, s, *scen.segmenters(rng), intercept=intercept)
    link.handshake()
    asked = [h for h in hellos(s.tx) if h[0] == SH and h[6:38] == HRR_RANDOM]
    n_ch = len([h for h in hellos(c.tx) if h[0] == CH])
    ctx.check(len(asked) <= 1, 'a server asks more than once', len(asked))
    ctx.check(n_ch <= 2, 'a client says hello more than twice', n_ch)
    if op == 'none':
        ctx.require(c.connected and s.connected, 'a retried handshake fails', f'{c.error!r} {s.error!r}')
        ctx.check(len(asked) == 1 and n_ch == 2, 'no retry although it is needed', f'{len(asked)} {n_ch}')
        hh = hellos(c.tx)
        compare(ctx, *hh[:2], gs[1], None)
        ctx.check(c.conn.nconfig.key_exchange == s.conn.nconfig.key_exchange == gs[1], 'the sides report different groups', '')
    else:
        real = [t for t in touched if t != 'done']
        ctx.require(bool(real), 'nothing was altered', op)
        ctx.check(not c.connected and not s.connected, f'an altered retry is accepted ({op})', f'{real} {c.connected} {s.connected}')
        ctx.check(c.error is not None or s.error is not None, f'an altered retry is not noticed ({op})', real)
        ctx.count('tampered')
    ctx.seen('pair', op, tuple(touched), tuple(gs[:2]))
