""" C22: the demo server answers every client correctly and keeps serving. """
import contextlib
import ctypes
import email.utils
import http
import io
import ipaddress
import os
import re
import shutil
import signal
import socket
import ssl
import struct
import subprocess
import sys
import threading
import time

from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat

from siotls import TLSConfiguration, TLSConnection, TLSError
from siotls.utils import make_http11_request, make_http11_response

from lib import pki, ref13, scen
from lib.mutate import mutate
from lib.link import Ref

PID, LEVEL = 'C22', 'exploration'
RULE = ('distinct (key, client, kind of request, status) exchanges and (misbehaviour, client which follows) pairs against the '
        'real server process')
ASSUMPTIONS = [
    'a request reaches the server in one piece and fits in a record, but for the requests in pieces which are a known finding',
    'one client is served at a time: a client may hold the server for as long as it stays connected and keeps talking, the '
    'property is about what happens once it left or went silent',
    'requests which are not clearly of one kind (odd spaces, absolute form, query strings) may get any of the statuses which fit',
]
MINIMUM = {'servers': 20, 'requests answered': 700, 'misbehaviours': 500, 'pages': 250, 'refusals': 250,
           'verified by OpenSSL': 150, 'bundled client': 40, 'bundled client, command line': 15, 'kinds of misbehaviour': 20, 'helper messages': 2500}
WALL = {'quick': 400}
SERVE = 30


def cases(tier, seed):
    k = 1 if tier == 'quick' else 14
    out = [{'what': 'serve', 'n': n} for n in range(40 * k)]
    out += [{'what': 'pieces', 'n': n} for n in range(2 * k)]
    out += [{'what': 'cli', 'n': n} for n in range(2 * k)]
    out += [{'what': 'http', 'n': n} for n in range(40 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


# ---------------------------------------------------------------- server
def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Server:
    """ The real server, in a process of its own. """
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.dir = os.path.join(os.environ['SIOTLS_SCRATCH'], f'server-{os.getpid()}-{rng.getrandbits(40):x}')
        os.mkdir(self.dir)
        self.host = str(ipaddress.IPv4Address(0x7f000000 + rng.randint(2, 0xfffffd)))
        self.kind = rng.choice(('p256', 'p256', 'p384', 'rsa', 'p521'))
        self.node = pki.leaf(self.kind, rng.choice(('root', 'inter')), hosts=('localhost', 'ip:' + self.host))
        self.chain = os.path.join(self.dir, 'chain.pem')
        self.key = os.path.join(self.dir, 'key.pem')
        with open(self.chain, 'wb') as f:
            for node in pki.chain(self.node):
                f.write(node.cert.public_bytes(Encoding.PEM))
        with open(self.key, 'wb') as f:
            f.write(self.node.key.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
        anchor = self.node
        while anchor.issuer is not None:
            anchor = anchor.issuer
        self.anchor = anchor
        self.ca = os.path.join(self.dir, 'ca.pem')
        with open(self.ca, 'wb') as f:
            f.write(anchor.cert.public_bytes(Encoding.PEM))
        self.ssl = {}
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        self.options = rng.choice(([], [], ['-v'], ['-s'], ['--keylogfile', os.path.join(self.dir, 'keylog')]))
        self.proc = None
        self.held = []
        self.start()

    def start(self):
        for attempt in range(5):
            with socket.socket() as s:
                s.bind((self.host, 0))
                self.port = s.getsockname()[1]
            self.proc = subprocess.Popen(
                command('server', *self.options, '--host', self.host, '--port', str(self.port),
                        '--tlscert', self.chain, '--tlskey', self.key),
                stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, cwd=self.dir, env=environment(),
                preexec_fn=die_with_parent)
            end = time.monotonic() + 2 * SERVE
            while time.monotonic() < end and self.proc.poll() is None:
                try:
                    socket.create_connection((self.host, self.port), timeout=SERVE).close()
                except OSError:
                    time.sleep(.02)
                else:
                    self.ctx.count('servers')
                    return
            if b'Address already in use' not in self.tail(4000):
                break
            self.ctx.count('port taken')
        self.ctx.require(False, 'the server does not start', lambda: self.tail())

    def tail(self, n=1500):
        self.log.flush()
        with open(os.path.join(self.dir, 'log'), 'rb') as f:
            return f.read()[-n:]

    def alive(self):
        return self.proc.poll() is None

    def stop(self):
        for s in self.held:
            s.close()
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        if self.proc:
            self.proc.wait()
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def connect(self, timeout=SERVE):
        s = socket.create_connection((self.host, self.port), timeout=timeout)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    def openssl(self, alpn=('http/1.1',), trust=True, version=None):
        key = (tuple(alpn or ()), trust, version)
        if key not in self.ssl:
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            if version is None:
                c.minimum_version = ssl.TLSVersion.TLSv1_3
            else:
                c.minimum_version = c.maximum_version = version
            c.load_verify_locations(cafile=self.ca if trust else os.path.join(self.dir, 'other.pem'))
            if alpn:
                c.set_alpn_protocols(list(alpn))
            self.ssl[key] = c
        return self.ssl[key]


def environment():
    env = dict(os.environ, PYTHONPATH=os.environ.get('SIOTLS_SRC', '/repo/src'))
    env.pop('SIOTLS_VERIF_STAGE', None)
    return env


def command(*args):
    return [sys.executable, '-B', '-m', 'siotls', *args]


@contextlib.contextmanager
def server(ctx, rng):
    s = None
    try:
        s = Server(ctx, rng)
        with open(os.path.join(s.dir, 'other.pem'), 'wb') as f:
            f.write(pki.root(7).cert.public_bytes(Encoding.PEM))
        yield s
        ctx.check(s.alive(), 'the server stopped', lambda: f'{s.proc.poll()} {s.tail()}')
    finally:
        if s:
            s.stop()


# ---------------------------------------------------------------- requests
TOKEN = re.compile(rb"[!#$%&'*+\-.^_`|~0-9A-Za-z]+\Z")
DATE = re.compile(r'(Mon|Tue|Wed|Thu|Fri|Sat|Sun), \d\d (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) \d{4} \d\d:\d\d:\d\d GMT\Z')


class Malformed(Exception):
    pass


def parse_response(data, now=None):
    head, sep, body = data.partition(b'\r\n\r\n')
    if not sep:
        raise Malformed('no end of the headers')
    lines = head.split(b'\r\n')
    if any(b'\n' in line or b'\r' in line for line in lines):
        raise Malformed('bare line ending')
    m = re.match(rb'HTTP/1\.1 (\d{3}) ([\t \x21-\x7e]*)\Z', lines[0])
    if not m:
        raise Malformed(f'status line {lines[0]!r}')
    status = int(m[1])
    if m[2].decode() != http.HTTPStatus(status).phrase:
        raise Malformed(f'phrase {lines[0]!r}')
    headers = {}
    for line in lines[1:]:
        name, sep, value = line.partition(b':')
        if not sep or not TOKEN.match(name):
            raise Malformed(f'header {line!r}')
        headers.setdefault(name.decode().lower(), []).append(value.strip(b' \t').decode('latin-1'))
    lengths = headers.get('content-length', [])
    if len(lengths) != 1 or not re.match(r'\d+\Z', lengths[0]):
        raise Malformed(f'content-length {lengths}')
    if int(lengths[0]) != len(body):
        raise Malformed(f'content-length {lengths[0]} for {len(body)} bytes')
    for date in headers.get('date', []):
        if not DATE.match(date):
            raise Malformed(f'date {date!r}')
        if now is not None and abs(email.utils.parsedate_to_datetime(date).timestamp() - now) > 120:
            raise Malformed(f'date {date!r} at {now}')
    return status, headers, body


def headers(rng):
    out = ''
    for _ in range(rng.choice((0, 1, 1, 3, 30))):
        name = rng.choice(('Host', 'User-Agent', 'Accept', 'Cookie', 'X-' + rng.randbytes(4).hex()))
        out += f'{name}: {rng.choice(("localhost", "*/*", "a=b; c=d", "été", rng.randbytes(rng.randint(0, 150)).hex()))}\r\n'
    return out


def a_request(rng):
    """ (kind, request, statuses, whether it has a body) """
    version = rng.choice(('HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0'))
    tail = f'\r\n{headers(rng)}\r\n'
    kind = rng.choice(('root',) * 7 + ('path', 'path', 'path', 'method', 'method', 'both', 'query', 'odd spaces', 'no version',
                      'one word', 'four words', 'no line', 'binary', 'undecodable', 'undecodable', 'latin header', 'unicode path'))
    if kind == 'root':
        body = rng.choice(('', '', '', 'x' * rng.randint(1, 3000), 'é' * rng.randint(1, 500)))
        return kind, f'GET / {version}{tail}{body}', (200,)
    if kind == 'path':
        path = rng.choice(('/x', '/index.html', '//', '/.', '/../../../etc/passwd', '/%2f', '/' + 'a' * rng.randint(1, 4000), '*', 'x',
                           '/ '.strip() + '-', '/favicon.ico', '/robots.txt'))
        return kind, f'GET {path} {version}{tail}', (404,) if path.startswith('/') else (404, 400)
    if kind == 'query':
        return kind, f'GET {rng.choice(("/?", "/?a=b", "https://localhost/", "/#a"))} {version}{tail}', (200, 404, 400)
    if kind == 'method':
        method = rng.choice(('POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'TRACE', 'PATCH', 'CONNECT'))
        return kind + ' ' + method, f'{method} / {version}{tail}' + ('a=b' if method in ('POST', 'PUT') else ''), (405, 501)
    if kind == 'both':
        return kind, f'{rng.choice(("POST", "DELETE", "PUT"))} /x {version}{tail}', (404, 405, 501)
    if kind == 'odd spaces':
        return kind, rng.choice((f'GET  /  {version}', f'GET\t/ {version}', f' GET / {version}', f'GET / {version} ')) + tail, (200, 400)
    if kind == 'no version':
        return kind, f'GET /{tail}', (400, 505)
    if kind == 'one word':
        return kind, rng.choice(('GET', 'hello', '/')) + tail, (400,)
    if kind == 'four words':
        return kind, f'GET / {version} {rng.choice(("x", "HTTP/1.1", "/ GET"))}{tail}', (400,)
    if kind == 'no line':
        return kind, rng.choice(('\r\n', '\r\n\r\n', ' \r\n', '\x00', '\n', ' ')), (400,)
    if kind == 'binary':
        return kind, bytes(b & 0x7f for b in rng.randbytes(rng.randint(1, 2000))).replace(b' ', b'_').replace(b'\t', b'_'), (400, 405, 404, 501)
    if kind == 'undecodable':
        return kind, b'\xff\xfe' + rng.randbytes(rng.randint(0, 2000)), (400,)
    if kind == 'latin header':
        return kind, f'GET / {version}\r\nX-A: '.encode() + b'\xe9t\xe9\r\n\r\n', (200, 400)
    return kind, f'GET /{rng.choice(("é", "日本", "🎉"))} {version}{tail}', (404, 400)


# ---------------------------------------------------------------- clients
class Failed(Exception):
    """ The server did not do its part. """


def read_all(recv):
    out = b''
    while True:
        data = recv(65536)
        if not data:
            return out
        out += data
        if len(out) > 1 << 20:
            raise Failed('endless answer')


def c_openssl(srv, rng, raw):
    alpn = rng.choice((('http/1.1',), ('http/1.0',), ('h2', 'http/1.1'), None))
    ctx = srv.openssl(alpn)
    with srv.connect() as s, ctx.wrap_socket(s, server_hostname=rng.choice(('localhost', srv.host)),
                                             suppress_ragged_eofs=False) as w:
        if alpn and w.selected_alpn_protocol() not in alpn:
            raise Failed(f'ALPN {w.selected_alpn_protocol()!r} among {alpn}')
        w.sendall(raw)
        out = read_all(w.recv)
    srv.ctx.count('verified by OpenSSL')
    return out


def c_siotls(srv, rng, raw):
    config = TLSConfiguration('client', trust_store=pki.store(srv.anchor), alpn=['http/1.1'],
                              max_fragment_length=rng.choice(limits(raw)))
    conn = TLSConnection(config, server_hostname=rng.choice(('localhost', srv.host)))
    with srv.connect() as s, conn.wrap(s) as w:
        w.write(raw)
        return read_all(lambda n: w.read())


def limits(raw):
    """ The fragment limits under which the request is a single record. """
    return [n for n in (512, 1024, 2048, 4096) if len(raw) <= n - 20] + [16384] * 2


def c_ref(srv, rng, raw):
    limit = rng.choice(limits(raw))
    plain = rng.random() < .5       # then all the client sends fits in one read of the server
    client = ref13.RefClient(layout=None if plain else scen.layout(rng), suites=rng.choice(((0x1301,), (0x1302, 0x1303), (0x1303, 0x1301))),
                             groups=rng.choice(((0x1d,), (0x17, 0x1d), (0x1e, 0x18, 0x17), (0x19, 0x1d))), shares=rng.choice((None, None, ())),
                             alpn=rng.choice((None, [b'http/1.1'], [b'x', b'http/1.0'])),
                             mfl={512: 1, 1024: 2, 2048: 3, 4096: 4}.get(limit),
                             session_id=rng.choice((b'', rng.randbytes(32), rng.randbytes(rng.randint(1, 31)))), send_ccs=rng.choice((False, True)))
    with srv.connect() as s:
        end = Ref(client)
        shake(end, s)
        cut = rng.choice((1, 30, 1000)) if limit == 16384 and plain else len(raw)
        if len(raw) / cut > 50:
            cut = len(raw)
        for i in range(0, len(raw), cut):       # in a single send
            client.put(23, raw[i:i + cut], rng.choice((0, 1, 17)) if cut < len(raw) else 0)
        if plain and len(client.outbuf) + 300 <= limit and rng.random() < .4:
            end.close()
        wire = client.out()
        s.sendall(wire)
        how = f'{len(raw)} bytes by {cut} in {len(wire)}, {plain} {limit} {client.hrr is not None} {client.send_ccs} {client.sent_close}'
        srv.how = how
        while not client.peer_closed:
            data = s.recv(rng.choice((65536, 100)))
            if not data:
                raise Failed('truncated')
            end.feed(data)
            check_end(end)
        return end.take()


def check_end(end):
    if end.error:
        raise Failed(f'{end.error!r}')
    if [a for a in end.peer.alerts_in if a[1] != 'close_notify']:
        raise Failed(f'alerts {end.peer.alerts_in}')


def shake(end, s):
    end.start()
    s.sendall(end.out())
    while not end.connected:
        data = s.recv(65536)
        if not data:
            raise Failed('end of stream in the handshake')
        end.feed(data)
        check_end(end)
        s.sendall(end.out())


def c_curl(srv, rng, raw):
    curl = shutil.which('curl')
    env = dict(os.environ)
    env.pop('OPENSSL_CONF', None)
    r = subprocess.run([curl, '-q', '-s', '-i', '--http1.1', '--noproxy', '*', '--cacert', srv.ca, '--max-time', str(SERVE),
                        f'https://{srv.host}:{srv.port}/'],
                       stdin=subprocess.DEVNULL, capture_output=True, env=env, cwd=srv.dir, check=False)
    if r.returncode:
        raise Failed(f'curl: {r.returncode} {r.stderr[:200]}')
    return r.stdout


def c_bundled(srv, rng, raw):
    import logging

    import siotls.trust_store
    from siotls.examples import simple_client
    log, out = logging.getLogger('siotls.examples'), io.StringIO()
    before = log.level, logging.root.manager.disable
    saved = siotls.trust_store.get_system_store, getattr(simple_client, 'get_system_store', None)
    siotls.trust_store.get_system_store = simple_client.get_system_store = lambda: pki.store(srv.anchor)
    try:
        log.setLevel(logging.INFO)
        logging.disable(logging.NOTSET)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            simple_client.connect(srv.host, srv.port, check_certificate=rng.random() < .7)
    finally:
        log.setLevel(before[0])
        logging.disable(before[1])
        siotls.trust_store.get_system_store = saved[0]
        simple_client.get_system_store = saved[1]
    srv.ctx.count('bundled client')
    return out.getvalue().removesuffix('\n').encode()


def c_command(srv, rng, raw):
    r = subprocess.run(command('client', '--insecure', '--host', srv.host, '--port', str(srv.port)), stdin=subprocess.DEVNULL,
                       capture_output=True, env=environment(), cwd=srv.dir, check=False, timeout=2 * SERVE,
                       preexec_fn=die_with_parent)
    if r.returncode:
        raise Failed(f'the command failed: {r.returncode} {r.stderr[-500:]}')
    srv.ctx.count('bundled client, command line')
    return r.stdout.removesuffix(b'\n')


CLIENTS = {'openssl': c_openssl, 'siotls': c_siotls, 'ref': c_ref, 'bundled': c_bundled, 'command': c_command}
if shutil.which('curl'):
    CLIENTS['curl'] = c_curl
FIXED = ('curl', 'bundled', 'command')      # they only ask for the root


def exchange(srv, rng, ctx, name, history):
    kind, raw, statuses = ('root', '', (200,)) if name in FIXED else a_request(rng)
    raw = raw.encode() if isinstance(raw, str) else raw
    note = f'{name}: {kind} {raw[:60]!r} after {history[-4:]} with {srv.kind}'
    for attempt in range(3):
        start = time.monotonic()
        try:
            data = CLIENTS[name](srv, rng, raw)
            break
        except (OSError, ssl.SSLError, TLSError, Failed, subprocess.TimeoutExpired) as exc:
            ctx.require(srv.alive(), 'the server stopped', lambda: f'{srv.proc.poll()} {history[-4:]} {srv.tail()}')
            # the server gives its client a second: a client which was
            # kept from running for that long may try again
            slow = time.monotonic() - start > .7
            ctx.count('slow exchanges', slow)
            ctx.require(slow and attempt < 2, 'a correct client is not served',
                        lambda: f'{type(exc).__name__}: {exc}; {getattr(srv, "how", "")}; {note}; {srv.tail(700)}')
    now = time.time()
    try:
        status, _, body = parse_response(data, now)
    except (Malformed, ValueError) as exc:
        ctx.require(False, 'malformed response', f'{exc}: {data[:300]!r} {note}')
    ctx.require(status in statuses, 'wrong status', f'{status} rather than {statuses}: {note}')
    if status == 200:
        ctx.check(body, 'the page is empty', note)
        ctx.count('pages')
    else:
        ctx.count('refusals')
    ctx.count('requests answered')
    ctx.seen(srv.kind, name, kind, status)


# ---------------------------------------------------------------- misbehaviours
def reset(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    s.close()


def leave(s, rng):
    how = rng.choice(('close', 'reset', 'shut', 'wait'))
    if how == 'reset':
        reset(s)
    elif how == 'shut':
        s.shutdown(socket.SHUT_WR)
        swallow(s, .3)
        s.close()
    elif how == 'wait':
        swallow(s, 1.3)
        s.close()
    else:
        s.close()
    return how


def swallow(s, timeout):
    """ Read until the server hangs up, or for some time. """
    end = time.monotonic() + timeout
    out = b''
    try:
        while (left := end - time.monotonic()) > 0:
            s.settimeout(left)
            data = s.recv(65536)
            if not data:
                break
            out += data
    except OSError:
        pass
    return out


def push(s, data):
    with contextlib.suppress(OSError):
        s.settimeout(1)
        s.sendall(data)


def hello(rng, **kw):
    c = ref13.RefClient(suites=(0x1303, 0x1301), groups=(0x1d,), alpn=rng.choice((None, [b'http/1.1'])), **kw)
    return c


def m_nothing(srv, rng):
    s = srv.connect()
    return leave(s, rng)


def m_garbage(srv, rng):
    s = srv.connect()
    push(s, rng.randbytes(rng.choice((1, 5, 6, 100, 5000, 60000))))
    return leave(s, rng)


def m_plain(srv, rng):
    s = srv.connect()
    push(s, rng.choice((b'GET / HTTP/1.1\r\nHost: localhost\r\n\r\n', b'SSH-2.0-x\r\n', b'\x80\x2e\x01\x03\x01', b'EHLO x\r\n')))
    return leave(s, rng)


def m_tls12(srv, rng):
    with contextlib.suppress(OSError):
        with srv.connect() as s:
            srv.openssl(version=ssl.TLSVersion.TLSv1_2).wrap_socket(s, server_hostname='localhost').close()


def m_untrusting(srv, rng):
    with contextlib.suppress(OSError):
        with srv.connect() as s:
            srv.openssl(trust=False).wrap_socket(s, server_hostname='localhost').close()


def m_wrong_name(srv, rng):
    with contextlib.suppress(OSError):
        with srv.connect() as s:
            srv.openssl().wrap_socket(s, server_hostname='other.localhost').close()


def m_alpn(srv, rng):
    with contextlib.suppress(OSError):
        with srv.connect() as s:
            srv.openssl(alpn=('h2', 'spdy')).wrap_socket(s, server_hostname='localhost').close()


def m_nothing_in_common(srv, rng):
    s = srv.connect()
    c = rng.choice((ref13.RefClient(suites=(0x1399,)), ref13.RefClient(groups=(0x9999,), shares=()),
                    ref13.RefClient(sigalgs=(0x0401,)), ref13.RefClient(versions=(0x0303,)), ref13.RefClient(versions=None),
                    ref13.RefClient(server_cert_types=(1,))))
    c.start()
    push(s, c.out())
    return leave(s, rng)


def m_cut_hello(srv, rng):
    s = srv.connect()
    c = hello(rng)
    c.start()
    data = c.out()
    push(s, data[:rng.randrange(1, len(data))])
    return leave(s, rng)


def m_bad_hello(srv, rng):
    s = srv.connect()
    c = hello(rng)
    msg = mutate(rng, c.client_hello())
    push(s, b''.join(struct.pack('!BHH', 22, 0x301, len(m)) + m for m in [msg[i:i + 16384] for i in range(0, len(msg), 16384)]))
    return leave(s, rng)


def m_half(srv, rng):
    """ Leaves upon the flight of the server, or answers it with nonsense. """
    s = srv.connect()
    c = hello(rng)
    c.start()
    push(s, c.out())
    with contextlib.suppress(OSError):
        s.settimeout(5)
        s.recv(100)
    how = rng.choice(('leave', 'alert', 'garbage', 'hello'))
    if how == 'alert':
        push(s, struct.pack('!BHHBB', 21, 0x303, 2, 2, rng.randrange(256)))
    elif how == 'garbage':
        push(s, struct.pack('!BHH', 23, 0x303, 200) + rng.randbytes(200))
    elif how == 'hello':
        c.start()
        push(s, c.out())
    return how + leave(s, rng)


def m_bad_finished(srv, rng):
    s = srv.connect()
    c = hello(rng, script={'FIN': lambda peer, msg: [rng.choice((msg[:-1] + bytes([msg[-1] ^ 1]), msg + b'\0', ref13.hs(20, b''),
                                                                 ref13.hs(24, b'\0'), msg[:7]))]})
    end = Ref(c)
    with contextlib.suppress(OSError, Failed):
        shake(end, s)
        swallow(s, .05)
    return leave(s, rng)


def shaken(srv, rng):
    s = srv.connect()
    end = Ref(hello(rng))
    try:
        shake(end, s)
    except BaseException:
        s.close()
        raise
    return s, end


def m_silent(srv, rng):
    s, end = shaken(srv, rng)
    how = rng.choice(('leave', 'notify', 'notify'))
    if how == 'notify':
        end.close()
        push(s, end.out())
    return how + leave(s, rng)


def m_stay(srv, rng):
    """ Stays connected, silent, while the others are served. """
    how = rng.choice(('nothing', 'part', 'hello', 'shaken', 'closed', 'partial record'))
    if how in ('nothing', 'part', 'hello'):
        s = srv.connect()
        c = hello(rng)
        c.start()
        data = c.out()
        push(s, {'nothing': b'', 'part': data[:50], 'hello': data}[how])
    else:
        s, end = shaken(srv, rng)
        if how == 'closed':
            end.close()
            push(s, end.out())
        elif how == 'partial record':
            push(s, b'\x17\x03\x03\x01\x00abc')
    srv.held.append(s)
    if len(srv.held) > 3:
        srv.held.pop(0).close()
    return how


def m_late_garbage(srv, rng):
    s, end = shaken(srv, rng)
    how = rng.choice(('raw', 'alert', 'heartbeat', 'handshake', 'empty', 'oversized', 'ccs', 'many'))
    if how == 'raw':
        push(s, rng.randbytes(rng.choice((1, 5, 100, 20000))))
    elif how == 'alert':
        end.peer.put(21, bytes([rng.choice((1, 2, 7)), rng.randrange(256)]))
    elif how == 'heartbeat':
        end.peer.put(24, rng.choice((b'\1\0\5hello' + bytes(16), b'\1\xff\xff', b'')))
    elif how == 'handshake':
        end.peer.put(22, rng.choice((ref13.hs(24, b'\0'), ref13.hs(1, b''), ref13.hs(99, b'x'), b'\x16')))
    elif how == 'empty':
        for _ in range(rng.choice((1, 50))):
            end.peer.put(23, b'')
    elif how == 'oversized':
        end.peer.outbuf += struct.pack('!BHH', 23, 0x303, 0xffff) + rng.randbytes(20000)
    elif how == 'ccs':
        end.peer.outbuf += b'\x14\x03\x03\x00\x01\x01' * 40
    else:
        for _ in range(3):
            end.write(rng.randbytes(16000))
    push(s, end.out())
    return how + leave(s, rng)


def m_no_answer_wanted(srv, rng):
    """ Asks and leaves without reading the answer. """
    s, end = shaken(srv, rng)
    end.write(rng.choice((b'GET / HTTP/1.1\r\n\r\n', b'POST / HTTP/1.1\r\n\r\n', b'\xff\xff\xff')))
    how = rng.choice(('alert', 'twice', 'ask'))
    if how == 'alert':
        end.peer.send_alert('internal_error')
    elif how == 'twice':
        end.write(b'GET /x HTTP/1.1\r\n\r\n')
    push(s, end.out())
    if rng.random() < .5:
        reset(s)
        return how + 'reset'
    return how + leave(s, rng)


def m_undecodable(srv, rng):
    """ A request no one can decode, whose answer is waited for. """
    s, end = shaken(srv, rng)
    end.write(b'\xff\xfe\xfd')
    push(s, end.out())
    swallow(s, 1.5)
    return leave(s, rng)


def m_queue(srv, rng):
    """ Several clients wait in line and leave in any order. """
    socks = []
    for _ in range(rng.randint(2, 4)):
        s = socket.socket()
        s.setblocking(False)
        with contextlib.suppress(OSError):
            s.connect((srv.host, srv.port))
        socks.append(s)
    time.sleep(rng.choice((0, .05, .2)))
    rng.shuffle(socks)
    for s in socks:
        with contextlib.suppress(OSError):
            if rng.random() < .4:
                s.send(rng.randbytes(10))
        if rng.random() < .5:
            reset(s)
        else:
            s.close()


def m_drip(srv, rng):
    """ Sends its hello byte by byte, then leaves. """
    s = srv.connect()
    c = hello(rng)
    c.start()
    data = c.out()
    for i in range(rng.randint(5, 40)):
        push(s, data[i:i + 1])
    return leave(s, rng)


def m_flood(srv, rng):
    """ Keeps the server busy for a while. """
    s, end = shaken(srv, rng)
    stop = time.monotonic() + .15
    with contextlib.suppress(OSError):
        s.settimeout(1)
        while time.monotonic() < stop:
            end.peer.put(23, b'')
            s.sendall(end.out())
    return leave(s, rng)


def m_other_cert(srv, rng):
    """ Raw public keys, client certificates, odd extensions. """
    s = srv.connect()
    c = hello(rng, server_cert_types=rng.choice(((2,), (2, 0), (0,), (1, 2))), client_cert_types=rng.choice((None, (0,), (2,))),
              status=rng.random() < .5, heartbeat=rng.choice((None, 1, 2)), mfl=rng.choice((None, 1, 2, 3, 4, 9)))
    with contextlib.suppress(OSError, Failed):
        shake(Ref(c), s)
    return leave(s, rng)


def m_sslv3_records(srv, rng):
    s = srv.connect()
    c = hello(rng)
    c.start()
    data = bytearray(c.out())
    data[0] = rng.choice((20, 21, 23, 24, 25, 0, 255))
    push(s, bytes(data))
    return leave(s, rng)


def m_lonely_alert(srv, rng):
    s = srv.connect()
    push(s, struct.pack('!BHHBB', 21, 0x303, 2, rng.choice((1, 2)), rng.choice((0, 0, 10, 40, 90, 255))))
    return leave(s, rng)


def m_mutated_flight(srv, rng):
    """ Whatever handshake messages instead of the Finished. """
    s = srv.connect()
    what = rng.choice((ref13.hs(11, ref13.v8(b'') + ref13.v24(b'')), ref13.hs(15, ref13.u16(0x0403) + ref13.v16(b'x')),
                       ref13.hs(5, b''), ref13.hs(4, b'x'), ref13.hs(2, b''), ref13.hs(254, b'')))
    c = hello(rng, script={'FIN': lambda peer, msg: [mutate(rng, what), msg]})
    with contextlib.suppress(OSError, Failed):
        shake(Ref(c), s)
        swallow(s, .05)
    return leave(s, rng)


MISBEHAVIOURS = {n[2:]: f for n, f in globals().copy().items() if n.startswith('m_')}


def run_serve(spec, ctx):
    rng = ctx.rng
    history = []
    names = list(MISBEHAVIOURS)
    rng.shuffle(names)
    with server(ctx, rng) as srv:
        for step in range(22):
            for _ in range(rng.choice((0, 1, 1, 2))):
                what = names[(len(history)) % len(names)] if rng.random() < .7 else rng.choice(names)
                try:
                    how = MISBEHAVIOURS[what](srv, rng)
                except (OSError, Failed) as exc:
                    how = f'{type(exc).__name__}'
                    ctx.count('misbehaviours cut short')
                history.append(f'{what}/{how}')
                ctx.count('misbehaviours')
                ctx.seen('after', what, how)
                ctx.require(srv.alive(), 'the server stopped', lambda: f'{srv.proc.poll()} {history[-4:]} {srv.tail()}')
            name = rng.choice(('openssl',) * 6 + ('siotls',) * 3 + ('ref',) * 4 + ('bundled',) * 2 + ('curl',))
            if step == 11:
                name = 'command'
            if name not in CLIENTS:
                name = 'openssl'
            exchange(srv, rng, ctx, name, history)
        ctx.count('kinds of misbehaviour', len({h.partition('/')[0] for h in history}) if spec['n'] < 4 else 0)
        ctx.sample({'key': srv.kind, 'history': history[:20]})


def run_pieces(spec, ctx):
    """ A request which comes in two records, the second one late. """
    rng = ctx.rng
    raw = b'GET / HTTP/1.1\r\nHost: localhost\r\n\r\n'
    with server(ctx, rng) as srv:
        exchange(srv, rng, ctx, 'openssl', [])
        for at in (2, 5, rng.randrange(1, 14), rng.randrange(15, len(raw) - 1)):
            with srv.connect() as s, srv.openssl().wrap_socket(s, server_hostname='localhost', suppress_ragged_eofs=False) as w:
                w.sendall(raw[:at])
                try:
                    w.settimeout(.4)
                    early = w.recv(65536)
                except TimeoutError:
                    early = b''
                with contextlib.suppress(OSError):
                    w.settimeout(SERVE)
                    w.sendall(raw[at:])
                data = early
                with contextlib.suppress(OSError):
                    data += read_all(w.recv)
            try:
                status = parse_response(data)[0]
            except (Malformed, ValueError) as exc:
                ctx.require(False, 'malformed response', f'{exc}: {data[:200]!r} {at}')
            whole = b'\r\n' in raw[:at]
            ctx.check(status in (200, 400), 'wrong status', f'{status} for a GET in two pieces, at {at}')
            ctx.check(status == 200 or whole, 'a GET whose request line comes in two records, received apart, is answered 400',
                      f'{status}, cut at {at}')
            ctx.check(status == 200 or not whole, 'wrong status', f'{status} for a GET whose headers come late, at {at}')
            ctx.count('in pieces')
            ctx.seen('pieces', srv.kind, status, whole)
            exchange(srv, rng, ctx, 'openssl', ['pieces'])


def run_cli(spec, ctx):
    """ The commands fail when they should, with an exit status. """
    rng = ctx.rng

    def run(*args):
        r = subprocess.run(command(*args), stdin=subprocess.DEVNULL, capture_output=True, env=environment(), cwd=srv.dir, check=False,
                           timeout=2 * SERVE, preexec_fn=die_with_parent)
        ctx.count('commands')
        return r
    with server(ctx, rng) as srv:
        r = run('client', '--host', srv.host, '--port', str(srv.port))
        ctx.check(r.returncode != 0 and b'Hello' not in r.stdout and b'HTTP/1' not in r.stdout,
                  'the client trusts an unknown authority', f'{r.returncode} {r.stdout[:200]} {r.stderr[-300:]}')
        exchange(srv, rng, ctx, 'openssl', ['untrusting command'])
        r = run('server', '--host', srv.host, '--port', str(srv.port), '--tlscert', srv.chain, '--tlskey', srv.dir + '/missing')
        ctx.check(r.returncode not in (0, None), 'a server without key succeeds', r.returncode)
        r = run('client', '--insecure', '--host', srv.host, '--port', '1')
        ctx.check(r.returncode not in (0, None), 'a client without server succeeds', r.returncode)
        exchange(srv, rng, ctx, 'command', ['commands'])


def text(rng):
    n = rng.choice((0, 1, 10, 1000, 70000)) if rng.random() < .1 else rng.randint(0, 60)
    alphabet = rng.choice(('ab', 'aé', 'aé日🎉', '\r\n:', '\x00\x7f\t', '{}{body}%'))
    return ''.join(rng.choice(alphabet) for _ in range(n))


def run_http(spec, ctx):
    from datetime import datetime, timedelta, timezone
    rng = ctx.rng
    codes = [s.value for s in http.HTTPStatus]
    for _ in range(70):
        body = text(rng)
        code = rng.choice(codes)
        when = rng.choice((None, None, rng.randint(0, 2**32), rng.randint(0, 2**31) + .75))
        now = None
        if when is not None:
            now = datetime.fromtimestamp(when, timezone(timedelta(minutes=rng.randint(-720, 720))))
        data = make_http11_response(code, body, *rng.choice(((), (None,))) if now is None else (now,)).encode()
        note = f'{code} {body[:50]!r} {when}'
        try:
            status, headers, got = parse_response(data, time.time() if when is None else None)
        except (Malformed, ValueError) as exc:
            ctx.check(False, 'malformed response', f'{exc} {note}')
            continue
        ctx.check(status == code and got == body.encode(), 'a response says something else', note)
        if when is not None:
            date = email.utils.parsedate_to_datetime(headers['date'][0]).timestamp()
            ctx.check(date == int(when), 'wrong date', f'{headers["date"]} {note}')
        method = rng.choice(('GET', 'POST', 'PUT', 'HEAD'))
        host = rng.choice(('localhost', '127.0.0.1', 'a.example:8446'))
        path = rng.choice(('/', '/a?b=c', '/%20', '*', '/{x}'))
        data = make_http11_request(host, method, path, body).encode()
        head, _, got = data.partition(b'\r\n\r\n')
        lines = head.split(b'\r\n')
        note = f'{method} {path} {host} {body[:50]!r}'
        ctx.check(lines[0] == f'{method} {path} HTTP/1.1'.encode(), 'wrong request line', f'{lines[0]} {note}')
        fields = [line.partition(b':') for line in lines[1:]]
        ctx.check(all(sep and TOKEN.match(name) and b'\n' not in name + value for name, sep, value in fields), 'malformed request',
                  f'{lines} {note}')
        fields = [(name.lower(), value.strip()) for name, _, value in fields]
        ctx.check([v for n, v in fields if n == b'host'] == [host.encode()], 'wrong host', f'{lines} {note}')
        lengths = [v for n, v in fields if n == b'content-length']
        ctx.check(got == body.encode() and lengths == [b'%d' % len(body.encode())], 'wrong length', f'{lengths} {note}')
        ctx.count('helper messages')
        ctx.seen('helpers', code, method, len(body) > 60)
