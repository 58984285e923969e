""" C18: the HTTP status service and its cache. """
import importlib
import os
import socket
import sys
import threading
import time
import urllib.error
from datetime import UTC, datetime, timedelta

from siotls import TLSConfiguration

from lib import pki, ref13, scen
from lib.link import Link, Ref, Sio
from lib.pki import HOST
from lib.responder import Responder, Trap, http

PID, LEVEL = 'C18', 'exploration'
RULE = ('distinct (kind of history, order of the limits, size of the pool, time zone, state of the entry) requests, and distinct '
        '(answer or redirection, framing, size) exchanges judged')
ASSUMPTIONS = [
    'the limit of a response is a naive UTC time, as the TLS states give it',
    'a response without Content-Length is oversized when its body is',
    'the entry just cached may be kept although it expires first',
    'threads may exceed the number of entries by their own number for an instant',
]
MINIMUM = {'served from the cache': 6000, 'fetched': 4000, 'expired not served': 250, 'discarded not served': 800,
           'evictions judged': 1500, 'entries at most': 60, 'refused answers': 250, 'accepted answers': 150,
           'refused urls': 150, 'redirections': 150, 'concurrent requests': 800, 'staples judged': 100}
LIMIT, BODY = 64, 20480
WALL = {'quick': 500}


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = [{'what': 'history', 'n': n} for n in range(80 * k)]
    out += [{'what': 'evict', 'order': o, 'drops': d, 'n': n} for o in ('up', 'down', 'random', 'ties', 'late-first')
            for d in (0, 1) for n in range(6 * k)]
    out += [{'what': 'answer', 'n': n} for n in range(32 * k)]
    out += [{'what': 'url', 'n': n} for n in range(24 * k)]
    out += [{'what': 'threads', 'n': n} for n in range(12 * k)]
    out += [{'what': 'tls', 'role': r, 'n': n} for r in ('client', 'server') for n in range(16 * k)]
    return out


def utcnow():
    return datetime.now(UTC).replace(tzinfo=None)


def run_case(spec, ctx):
    tz = ctx.rng.choice(('UTC', 'JST-9', 'PST8', 'XXX12', 'XXX-14'))
    before = os.environ.get('TZ')
    os.environ['TZ'] = tz
    time.tzset()
    for name in ('http_proxy', 'HTTP_PROXY', 'all_proxy', 'ALL_PROXY'):
        os.environ.pop(name, None)
    try:
        sys.modules.pop('siotls.ocsp_over_http', None)
        globals()['run_' + spec['what']](spec, ctx, importlib.import_module('siotls.ocsp_over_http'), tz)
    finally:
        if before is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = before
        time.tzset()
    ctx.eval()


def slow(exc):
    """ The one second timeout of the service hit on a busy machine. """
    while exc is not None:
        if isinstance(exc, TimeoutError) or isinstance(getattr(exc, 'reason', None), TimeoutError):
            return True
        exc = exc.__cause__
    return False


class Model:
    """ Everything that may still be served for each request, and the judge of what is. """
    def __init__(self, ctx, svc, label):
        self.ctx, self.svc, self.label = ctx, svc, label
        self.held = {}            # request -> {response: until}
        self.gone = {}            # request -> {response: why}
        self.cached = 0           # calls to cache
        self.answers = {}
        self.tag = 0
        self.web = Responder(self.answer)

    def answer(self, hit):
        self.tag += 1
        body = b'fetched %d ' % self.tag + self.ctx.rng.randbytes(8)
        self.answers[body] = hit
        return http(body)

    def close(self):
        self.web.close()

    def cache(self, until, req, res):
        self.cached += 1
        self.svc.cache(until, req, res)
        self.held.setdefault(req, {})[res] = until
        self.gone.get(req, {}).pop(res, None)

    def drop(self, req, why):
        for res in self.held.pop(req, {}):
            self.gone.setdefault(req, {})[res] = why

    def uncache(self, req):
        self.svc.uncache(req)
        self.drop(req, 'discarded')

    def request(self, req, must=None):
        """ Whether it came from the cache. """
        ctx = self.ctx
        for _ in range(5):
            mark, t0 = len(self.web.hits), utcnow()
            try:
                res = self.svc.request(self.web.base + '/status', req)
            except (OSError, urllib.error.URLError) as exc:
                if slow(exc):
                    ctx.count('slow responder')
                    self.drop(req, 'fetched meanwhile')
                    continue
                raise
            t1 = utcnow()
            break
        hits = self.web.hits[mark:]
        if hits:
            ctx.count('fetched')
            ctx.check(len(hits) == 1, 'the responder is asked more than once', len(hits))
            hit = hits[0]
            ctx.check(res in self.answers and self.answers[res] is hit, 'what is returned is not what the responder answered', res)
            ctx.check((hit.method, hit.path, hit.body) == ('POST', '/status', req),
                      'the responder is asked something else', f'{hit.method} {hit.path} {hit.body!r} {req!r}')
            ctx.check(hit.header('Content-Type') == 'application/ocsp-request'
                      and hit.header('Host') == f'127.0.0.1:{self.web.port}', 'the request is mislabelled', hit.headers)
            for r, until in self.held.get(req, {}).items():
                if until <= t1:
                    ctx.count('expired not served')
            if req in self.gone and not self.held.get(req):
                ctx.count('discarded not served')
            if must:
                live = [u for u in self.held.get(req, {}).values() if u > t1 + timedelta(milliseconds=200)]
                ctx.check(len(live) != 1 or len(self.held[req]) > 1, must, f'{live} now {t1}')
            self.drop(req, 'expired, evicted or discarded before')
            self.seen(req, 'fetched')
            return False
        ctx.count('served from the cache')
        until = self.held.get(req, {}).get(res)
        if until is None:
            why = self.gone.get(req, {}).get(res)
            if why is None:
                why = next((f'of another request ({q!r} for {req!r})' for q, d in [*self.held.items(), *self.gone.items()]
                            if res in d), 'never cached')
                ctx.require(False, 'a response which was not cached for that request is served', f'{why}: {res!r}')
            ctx.require(False, 'a discarded response is served', f'{why}: {res!r}')
        ctx.check(t0 < until, 'an expired response is served', f'{until} at {t0}')
        for r, u in list(self.held[req].items()):
            if u <= t0:
                self.gone.setdefault(req, {})[r] = 'expired'
                del self.held[req][r]
        self.seen(req, 'cached')
        return True

    def seen(self, req, how):
        self.ctx.seen(*self.label, how, len(self.held.get(req, ())), bool(self.gone.get(req)))


def reqs(rng, n):
    """ Requests which look alike: prefixes of one another, empty tails, same hash buckets. """
    base = rng.randbytes(20)
    out = set()
    while len(out) < n:
        kind = rng.randrange(3)
        out.add(base + rng.randbytes(8) if kind == 0 else base[:rng.randint(1, 20)] + bytes([rng.randrange(256)])
                if kind == 1 else rng.randbytes(30))
    return sorted(out, key=lambda _: rng.random())


def run_history(spec, ctx, svc, tz):
    rng = ctx.rng
    size = rng.choice((1, 3, 12, 70, 200))
    pool = reqs(rng, size)
    m = Model(ctx, svc, ('history', size, tz))
    soon = []
    try:
        for i in range(rng.choice((100, 250))):
            req = rng.choice(pool)
            op = rng.random()
            now = utcnow()
            if op < .45:
                kind = rng.random()
                if kind < .5:
                    until = now + timedelta(seconds=rng.choice((60, 3600, 10 ** 7, rng.randint(10, 10 ** 6))))
                elif kind < .7:
                    until = now + timedelta(milliseconds=rng.randint(5, 60))
                    soon.append(until)
                elif kind < .9:
                    until = now - timedelta(seconds=rng.choice((0, 1, 59, 3600, 40000, 10 ** 6)))
                else:
                    until = now.replace(microsecond=0) + timedelta(hours=rng.choice((-13, -10, -8, 8, 9, 10, 13)))
                m.cache(until, req, rng.choice((b'cached %d' % i, b'\0' + rng.randbytes(200))) + b'%d' % i)
            elif op < .55:
                m.uncache(req)
            else:
                m.request(req, 'a current response is fetched again although there is room' if m.cached <= LIMIT else None)
            if soon and rng.random() < .1:
                wait = (max(soon) - utcnow()).total_seconds()
                if wait > 0:
                    time.sleep(wait)
                soon.clear()
        live = sum(m.request(r) for r in pool)
        ctx.check(live <= LIMIT, f'more than {LIMIT} responses are kept', live)
        ctx.count('entries at most')
    finally:
        m.close()


def run_evict(spec, ctx, svc, tz):
    """ Which ones leave when the cache is full. """
    rng, order = ctx.rng, spec['order']
    total = rng.choice((80, 130, 200))
    pool = reqs(rng, total)
    t = utcnow().replace(microsecond=0) + timedelta(days=1)
    step = list(range(1, total + 1))
    if order == 'down':
        step.reverse()
    elif order == 'random':
        rng.shuffle(step)
    elif order == 'ties':
        step = [rng.randint(1, 6) for _ in step]
    elif order == 'late-first':
        step = [s + (10 ** 5 if i < LIMIT // 2 else 0) for i, s in enumerate(rng.sample(step, total))]
    scale = rng.choice((timedelta(microseconds=1), timedelta(seconds=1), timedelta(days=1)))
    m = Model(ctx, svc, ('evict', order, spec['drops'], total))
    live, most = {}, 0
    exact = None if spec['drops'] or order == 'ties' else set()
    try:
        for i, (req, s) in enumerate(zip(pool, step)):
            until = t + s * scale
            m.cache(until, req, b'response %d' % i)
            live[req] = until
            if i < LIMIT - 2 and rng.random() < .9:
                continue
            gone = {r: u for r, u in live.items()
                    if not m.request(r, 'a current response is fetched again although there is room'
                                     if m.cached <= LIMIT else None)}
            for r in gone:
                del live[r]
            ctx.check(len(live) <= LIMIT, f'more than {LIMIT} responses are kept', len(live))
            most = max(most, len(live))
            others = [u for r, u in live.items() if r != req]
            ctx.count('evictions judged', len(gone))
            ctx.check(not gone or not others or max(gone.values()) <= min(others),
                      'another response than the one expiring first is evicted', f'{sorted(gone.values())} kept {min(others, default=0)}')
            if exact is not None:
                ctx.check(len(live) >= min(i + 1, LIMIT - 1), 'responses are evicted although there is room',
                          f'{len(live)} after {i + 1}')
            for r in gone:
                if rng.random() < .2:                     # back again, with another limit
                    u = t + rng.randint(1, total) * scale
                    m.cache(u, r, b'again %d ' % i + r)
                    live[r] = u
                    exact = None
            if spec['drops'] and rng.random() < .5:
                for r in rng.sample(sorted(live), min(len(live), rng.choice((1, 1, 2, 40)))):
                    m.uncache(r)
                    del live[r]
                    if rng.random() < .5:
                        u = t + rng.randint(1, total) * scale
                        m.cache(u, r, b'fresh %d ' % i + r)
                        live[r] = u
        ctx.count('entries at most')
        ctx.check(exact is None or most >= LIMIT - 1, 'the cache keeps few responses', most)
    finally:
        m.close()


GOOD, BAD, ANY = 'returned', 'refused', 'either'


def answers(rng):
    """ (what, bytes or iterator, body, verdict) """
    body = rng.randbytes(rng.choice((1, 3, 471, 1999, 2000, 5000, BODY - 1, BODY)))
    big = rng.randbytes(rng.choice((BODY + 1, BODY + 2, 2 * BODY, 100_000)))
    framing = rng.choice(('length', 'close', 'chunked'))
    yield f'plain {framing}', http(body, framing=framing), body, GOOD
    yield f'no type {framing}', http(body, ctype=None, framing=framing), body, ANY
    yield f'empty {framing}', http(b'', framing=framing), b'', ANY
    yield f'oversized {framing}', http(big, framing=framing), big, BAD
    for t in ('text/html', 'application/ocsp-request', 'application/octet-stream', 'text/plain; application/ocsp-response',
              'xapplication/ocsp-response', 'application/ocsp-response2', 'application/ocsp', '*/*'):
        yield f'type {t} {framing}', http(body, ctype=t, framing=framing), body, BAD
    for t in ('application/ocsp-response; charset=x', 'Application/OCSP-Response'):
        yield f'type {t}', http(body, ctype=t), body, ANY
    for code in ('400 Bad Request', '404 Not Found', '403 no', '500 Oops', '503 Later', '304 Not Modified', '407 Proxy'):
        yield f'status {code}', http(body, status=code, framing=framing), body, BAD
    for n in (BODY + 1, 2 * BODY, 10 ** 9, 2 ** 63, 2 ** 64 + 5, 10 ** 30, -1, -2, -BODY, -10 ** 9):
        yield f'announces {n}', http(body, framing=n), body, BAD
    for n in ('abc', '1e3', '0x10'):
        yield f'announces {n}', http(body, framing=n), body, ANY
    n = rng.randrange(len(body) + 1)
    yield 'more than announced', http(body, framing=n), body[:n], ANY
    yield 'less than announced', http(body[:n], framing=len(body)), None, ANY
    yield 'two types', http(body, ctype=None, extra=['Content-Type: text/html', 'Content-Type: application/ocsp-response']), body, ANY

    def endless(head, chunk):
        yield head
        for _ in range(4096):
            yield chunk
    yield 'endless close', endless(http(b'', framing='close'), rng.randbytes(16384)), None, BAD
    yield 'endless chunks', endless(http(b'', framing='chunked')[:-5], b'2000\r\n' + rng.randbytes(8192) + b'\r\n'), None, BAD
    yield 'endless length', endless(http(b'', framing=10 ** 12), rng.randbytes(16384)), None, BAD
    yield 'not http', rng.randbytes(300), None, BAD
    yield 'nothing', b'', None, BAD


def run_answer(spec, ctx, svc, tz):
    rng = ctx.rng
    out = []
    web = Responder(lambda hit: out[0])
    try:
        for what, raw, body, verdict in answers(rng):
            out[:] = [raw]
            req = rng.randbytes(rng.choice((1, 40, 300)))
            mark = len(web.hits)
            try:
                res, exc = svc.request(f'{web.base}/{rng.randrange(9)}', req), None
            except Exception as e:
                res, exc = None, e
                if slow(e):
                    ctx.count('slow responder')
                    continue
            kind = what.split(' ')[0]
            if verdict is GOOD:
                ctx.check(exc is None, f'a sound answer is refused ({kind})', f'{what} {exc!r}')
            if verdict is BAD:
                ctx.check(exc is not None, f'an unsound answer is returned ({kind})', f'{what} -> {len(res or b"")} bytes')
                ctx.count('refused answers')
            if exc is None:
                ctx.check(isinstance(res, bytes) and len(res) <= BODY, 'an oversized body is returned', f'{what} {len(res)}')
                if body is not None:
                    ctx.check(res == body, f'what is returned is not what the responder answered ({kind})',
                              f'{what} {len(res)} {len(body)}')
                else:
                    ctx.check(raw.endswith(res), 'what is returned is not what the responder answered (cut)', what)
                ctx.count('accepted answers')
            ctx.check(len(web.hits) <= mark + 2, 'the responder is asked again and again', what)
            if what.startswith('endless') and len(web.hits) > mark:
                time.sleep(.02)
                ctx.check(web.hits[mark].sent < 30 << 20, 'an endless answer is read on', f'{what} {web.hits[mark].sent}')
            ctx.seen('answer', what, verdict, len(body or b''), exc is None)
    finally:
        web.close()


_watch = None


def _hook(event, args):
    w = _watch
    if w is None or threading.get_ident() != w['thread']:
        return
    if event == 'socket.connect':
        w['contacts'].append(args[1])
    elif event == 'open' and isinstance(args[0], str) and w['canary'] in args[0]:
        w['contacts'].append(args[0])
    elif event in ('ftplib.connect', 'subprocess.Popen', 'os.system'):
        w['contacts'].append((event, *args[1:3]))


_installed = []


def watch(canary):
    global _watch
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(True)
    _watch = {'thread': threading.get_ident(), 'contacts': [], 'canary': canary}
    return _watch


def run_url(spec, ctx, svc, tz):
    """ Where it connects to, observed through audit events and traps. """
    global _watch
    rng = ctx.rng
    canary = f'/tmp/siotls-c18-{os.getpid()}-{rng.getrandbits(32)}'
    with open(canary, 'wb') as f:
        f.write(b'canary')
    trap = Trap()
    steps = {}

    def answer(hit):
        return steps.get(hit.path) or http(b'answer of ' + hit.path.encode())
    web, other = Responder(answer), Responder(answer)
    allowed = {('127.0.0.1', web.port), ('127.0.0.1', other.port)}
    traps = [f'https://127.0.0.1:{trap.port}/', f'HTTPS://127.0.0.1:{trap.port}/a', f'ftp://127.0.0.1:{trap.port}/x',
             f'file://{canary}', f'FILE://{canary}', f'file://localhost{canary}', 'data:application/ocsp-response,canary',
             f'local_file://{canary}', f'ws://127.0.0.1:{trap.port}/', f'httpx://127.0.0.1:{trap.port}/',
             f'ldap://127.0.0.1:{trap.port}/cn=x', f'unknown:http://127.0.0.1:{trap.port}/']

    def go(url, must, what, hits=None):
        w = watch(canary)
        mark = len(web.hits) + len(other.hits)
        req = rng.randbytes(20)
        try:
            res, exc = svc.request(url, req), None
        except Exception as e:
            res, exc = None, e
        finally:
            globals()['_watch'] = None
        if exc is not None and slow(exc):
            ctx.count('slow responder')
            return
        bad = [c for c in w['contacts'] if c not in allowed]
        ctx.check(not bad and not trap.caught(), f'something else than an http url is contacted ({what})', f'{url} {bad}')
        ctx.check(b'canary' not in (res or b''), f'something else than an http url is read ({what})', url)
        if must is BAD:
            ctx.check(exc is not None, f'an answer is returned for an unacceptable url ({what})', f'{url} {res!r}')
        if must is GOOD:
            ctx.check(exc is None, f'an http url is refused ({what})', f'{url} {exc!r}')
        if exc is None and what != 'cached':
            ctx.check(res.startswith(b'answer of '), 'what is returned is not what the responder answered', f'{url} {res!r}')
        n = len(web.hits) + len(other.hits) - mark
        ctx.check(hits is None or n == hits, f'the responder is asked {"again" if n else "nothing"} ({what})', f'{url} {n}')
        ctx.check(n < 30, f'redirections never end ({what})', n)
        ctx.seen('url', what, url.split(':')[0], exc is None)

    try:
        for url in traps:
            go(url, BAD, 'direct', 0)
            ctx.count('refused urls')
        for url in ('', 'http', 'http:', 'http://', 'http:///status', '//127.0.0.1/', f'127.0.0.1:{web.port}',
                    f'127.0.0.1:{web.port}/x', '/status', canary):
            go(url, BAD, 'malformed', 0)
            ctx.count('refused urls')
        for url in (web.base, web.base + '/', web.base + '/a/b?c=d', web.base.replace('http', 'HTTP') + '/up',
                    f'http://localhost:{web.port}/name'):
            go(url, GOOD if 'localhost' not in url else ANY, 'http')
        # an empty request
        w = watch(canary)
        try:
            svc.request(web.base + '/empty', b'')
            ctx.check(False, 'an empty request is answered', '')
        except Exception:
            ctx.check(not w['contacts'], 'an empty request is sent', w['contacts'])
        _watch = None
        # through redirections
        for code in rng.sample((301, 302, 303, 307, 308), 3):
            for target in rng.sample(traps, 5):
                p = f'/r{rng.getrandbits(40)}'
                steps[p] = http(b'answer of nobody', status=f'{code} Moved', extra=[f'Location: {target}'],
                                ctype=rng.choice(('application/ocsp-response', 'text/html')))
                hop = rng.choice((0, 0, 1))
                if hop:
                    q = f'/h{rng.getrandbits(40)}'
                    steps[q] = http(b'', status='302 Found', extra=[f'Location: {rng.choice((web, other)).base}{p}'])
                    p = q
                # an underscore makes it a relative reference, which is http
                go(web.base + p, ANY if '_' in target.split(':')[0] else BAD, f'redirection {code}' + (' twice' if hop else ''))
                ctx.count('redirections')
            p = f'/g{rng.getrandbits(40)}'
            to = rng.choice((f'{other.base}/end', '/end', f'//127.0.0.1:{other.port}/end', f'HTTP://127.0.0.1:{web.port}/end'))
            steps[p] = http(b'', status=f'{code} Moved', extra=[f'Location: {to}'])
            go(web.base + p, ANY, f'redirection {code} to http')
            ctx.count('redirections')
        steps['/loop'] = http(b'', status='302 Found', extra=[f'Location: {web.base}/loop'])
        go(web.base + '/loop', BAD, 'loop')
        # a response cached for the request needs no url at all
        until = utcnow() + timedelta(hours=1)
        for url in rng.sample(traps, 2) + [web.base + '/cached']:
            r = rng.randbytes(9)
            svc.cache(until, r, b'answer of cache')
            w = watch(canary)
            try:
                got = svc.request(url, r)
            except ValueError:
                got = None
            finally:
                _watch = None
            ctx.check(not w['contacts'] and not trap.caught(), 'a responder is contacted although the response is cached', url)
            ctx.check(got in (None, b'answer of cache'), 'what is served was not cached for that request', got)
    finally:
        _watch = None
        web.close()
        other.close()
        trap.close()
        os.unlink(canary)


def run_threads(spec, ctx, svc, tz):
    """
    Threads hammer few requests. Each logs [start, end] of its operations;
    what was served is judged afterwards from the log.
    """
    rng = ctx.rng
    pool = reqs(rng, rng.choice((2, 5, 80)))
    log, fails, answered = [], [], {}
    tick = [0]
    lock = threading.Lock()

    def answer(hit):
        with lock:
            tick[0] += 1
            body = b'fetched %d ' % tick[0]
        answered[body] = hit.body
        return http(body)
    web = Responder(answer)
    n = rng.choice((2, 4, 8))
    rounds = 60
    seeds = [rng.getrandbits(40) for _ in range(n)]
    barrier = threading.Barrier(n)

    def work(k):
        import random
        r = random.Random(seeds[k])
        barrier.wait()
        for i in range(rounds):
            req = r.choice(pool)
            op = r.random()
            t0 = time.monotonic()
            u0 = utcnow()
            try:
                if op < .4:
                    until = u0 + timedelta(milliseconds=r.choice((-50, 1, 3, 10, 10 ** 6, 10 ** 6 + r.randrange(1000))))
                    res = b'cached %d %d' % (k, i)
                    svc.cache(until, req, res)
                    log.append(('cache', req, res, until, t0, time.monotonic()))
                elif op < .55:
                    svc.uncache(req)
                    log.append(('uncache', req, None, None, t0, time.monotonic()))
                else:
                    res = svc.request(web.base, req)
                    log.append(('request', req, res, u0, t0, time.monotonic()))
            except Exception as exc:
                if not slow(exc):
                    fails.append((('cache', 'uncache', 'request')[(op >= .4) + (op >= .55)], repr(exc)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice((1e-6, 1e-5, 1e-3)))
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        ctx.check(not any(t.is_alive() for t in ts), 'threads are stuck', '')
    finally:
        sys.setswitchinterval(old)
    try:
        for op, exc in fails:
            ctx.check(False, f'{op} fails among threads', exc)
        cached = {e[2]: e for e in log if e[0] == 'cache'}
        drops = [e for e in log if e[0] == 'uncache']
        for e in log:
            if e[0] != 'request':
                continue
            ctx.count('concurrent requests')
            _, req, res, u0, t0, t1 = e
            if res in answered:
                ctx.check(answered[res] == req, 'what is returned answers another request', '')
                continue
            c = cached.get(res)
            ctx.require(c is not None and c[1] == req, 'a response which was not cached for that request is served', repr(res))
            ctx.check(u0 < c[3], 'an expired response is served', f'{c[3]} at {u0}')
            ctx.check(not any(d[1] == req and c[5] < d[4] and d[5] < t0 for d in drops), 'a discarded response is served', '')
            ctx.count('concurrent hits')
        live = 0
        for r in pool:
            mark = len(web.hits)
            try:
                svc.request(web.base, r)
            except Exception as exc:
                ctx.check(slow(exc), 'request fails after threads', repr(exc))
                continue
            live += len(web.hits) == mark
        ctx.check(live <= LIMIT + n, f'more than {LIMIT} responses are kept', live)
        ctx.seen('threads', n, len(pool), tz)
    finally:
        web.close()


def run_tls(spec, ctx, svc, tz):
    """ The service behind real connections: what is stapled, or verified with. """
    rng, role = ctx.rng, spec['role']
    state = {'status': b''}
    web = Responder(lambda hit: http(state['status']) if state['status'] else http(b'', status='503 Later'))
    root = pki.root(0)
    inter = pki.make('c18 inter', pki.key('p256', 'c18i'), root, ca=True, path_length=0)
    leaf = pki.make('leaf', pki.key('p256', 'leaf0'), inter, sans=(HOST,), eku=pki.SERVER_AUTH,
                    ocsp_url=f'{web.base}/{rng.getrandbits(30)}')
    config = (TLSConfiguration('server', private_key=leaf.key, certificate_chain=[leaf.cert, inter.cert]) if role == 'server'
              else TLSConfiguration('client', trust_store=pki.store(root)))
    best = []          # statuses which may be used without asking: (der, until)

    def connect():
        if role == 'server':
            s = Sio(config, ocsp_service=svc)
            c = Ref(ref13.RefClient(sni=HOST.encode(), status=True, layout=scen.layout(rng)))
            Link(c, s).handshake()
            ctx.require(c.connected and s.connected, 'handshake fails because of the status', f'{c.error!r} {s.error!r}')
            st = [b for t, b in c.peer.server_cert[0][1] if t == ref13.X_STATUS]
            return st[0][4:] if st else None
        c = Sio(config, server_hostname=HOST, ocsp_service=svc)
        s = Ref(ref13.RefServer([leaf.der, inter.der], leaf.key, layout=scen.layout(rng), lenient=True))
        Link(c, s).handshake()
        return c.connected
    try:
        for _ in range(8):
            kind = rng.choice(('good', 'good', 'short', 'expired', 'revoked', 'garbage', 'down', 'other'))
            now = pki.now()
            if kind == 'good':
                state['status'] = pki.ocsp_response(leaf, inter, nxt=now + timedelta(seconds=rng.choice((30, 3600))))
            elif kind == 'short':
                state['status'] = pki.ocsp_response(leaf, inter, nxt=now.replace(microsecond=0) + timedelta(seconds=1))
            elif kind == 'expired':
                state['status'] = pki.ocsp_response(leaf, inter, this=now - timedelta(hours=3), nxt=now - timedelta(seconds=2))
            elif kind == 'revoked':
                state['status'] = pki.ocsp_response(leaf, inter, 'revoked')
            elif kind == 'other':
                state['status'] = pki.ocsp_response(pki.make('sib', pki.key('p256', 'sib'), inter, sans=(HOST,)), inter)
            else:
                state['status'] = rng.randbytes(50) if kind == 'garbage' else b''
            mark, t0 = len(web.hits), utcnow()
            got = connect()
            t1 = utcnow()
            hits = len(web.hits) - mark
            ctx.count('staples judged')
            ctx.check(hits <= 1, 'the responder is asked more than once for a connection', hits)
            if t1 - t0 > timedelta(seconds=.9):
                ctx.count('slow responder')          # may have timed out
                svc.uncache(web.hits[-1].body) if web.hits else None
                best.clear()
                continue
            current = [(d, u) for d, u in best if u > t0]
            if hits == 0:
                ctx.require(bool(current), 'no responder is asked although no current status was cached', f'{kind} {best}')
                if role == 'server':
                    ctx.check(got in [d for d, _ in current], 'what is stapled is neither cached nor fresh', kind)
                else:
                    ctx.check(got is True, 'a connection is refused in spite of a good cached status', kind)
            else:
                sure = [u for _, u in best if u > t1]
                ctx.check(not sure, 'a current status is fetched again', f'{sure} {t1}')
                best.clear()
                good = kind in ('good', 'short')
                if kind == 'short' and u_of(state['status']) < utcnow() + timedelta(milliseconds=50):
                    good = None
                if role == 'server':
                    ctx.check(good is None or got == (state['status'] if good else None), 'what is stapled is not what is sound',
                              f'{kind} {got!r}')
                else:
                    ctx.check(good is None or got is good, f'verdict does not follow the status ({kind})', f'{got}')
                if good is not False:
                    best.append((state['status'], u_of(state['status'])))
                    if good is None:
                        time.sleep(.1)
            ctx.seen('tls', role, kind, hits, bool(current))
            if kind == 'short' and rng.random() < .7:
                wait = (u_of(state['status']) - utcnow()).total_seconds()
                if wait > 0:
                    time.sleep(wait + .01)
    finally:
        web.close()


def u_of(der):
    from cryptography.x509 import ocsp
    return ocsp.load_der_ocsp_response(der).next_update_utc.replace(tzinfo=None)
