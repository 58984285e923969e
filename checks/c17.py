""" C17: the socket wrapper preserves the guarantees over real sockets. """
import contextlib
import socket
import ssl
import struct
import threading

from siotls import TLSConnection, TLSError

from lib import pki, ref13, scen
from lib.link import Ref, alert_name, openssl_client, openssl_server

PID, LEVEL = 'C17', 'exploration'
RULE = ('distinct (role, peer, kind of socket, partial sends, short reads, fragment limit, ending) sessions whose every '
        'byte was compared')
ASSUMPTIONS = [
    'end of stream and close cannot be told apart by the callers of read, which the property does not ask for',
    'a send which fails is not retried by the wrapper: what is judged then is that the failure is not hidden',
    'the socket is used through send, sendall, sendmsg, recv or recv_into',
]
MINIMUM = {'sessions': 1200, 'bytes compared': 4_000_000, 'reads judged': 4000, 'short reads': 5000, 'partial sends': 400,
           'ends of stream': 60, 'resets': 60, 'timeouts': 60, 'alerts before an error': 150, 'contexts left': 800, 'eager data': 200,
           'kernel sessions': 60}
WALL = {'quick': 500}


def cases(tier, seed):
    k = 3 if tier == 'quick' else 40
    out = [{'what': 'memory', 'role': r, 'n': n} for r in ('client', 'server') for n in range(240 * k)]
    out += [{'what': 'cut', 'role': r, 'n': n} for r in ('client', 'server') for n in range(30 * k)]
    out += [{'what': 'kernel', 'n': n} for n in range(20 * k)]
    out += [{'what': 'openssl', 'role': r, 'n': n} for r in ('client', 'server') for n in range(5 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


class Starved(Exception):
    """ recv on a socket the peer has nothing more to say to. """


class Memory:
    """
    A blocking socket whose other end is a reference peer, driven when it
    is read from. What the peer does once it is left with nothing to
    answer comes from the script.
    """
    def __init__(self, ctx, rng, end, script):
        self.ctx, self.rng, self.end, self.script = ctx, rng, end, list(script)
        self.inbound = bytearray()       # not received yet
        self.outbound = bytearray()      # all that was sent
        self.fed = 0
        self.received = 0                # bytes out of recv
        self.marks = []                  # (wire offset, application bytes complete)
        self.produced = 0
        self.app_sent = bytearray()
        self.app_read = 0                # bytes the caller of read got
        self.eof = self.reset = False
        self.sends = rng.choice((1, 7, 100, 1000, 1 << 20))
        self.reads = rng.choice((1, 5, 100, 3000, 1 << 20))
        self.watch = False
        self.ended = None                # how, for the caller of read
        self.broken_pipe = False
        self.done = []
        self.eager = rng.choice((b'', b'', b'', rng.randbytes(rng.randint(1, 400))))

    # ---- what the code under test uses
    def send(self, data, flags=0):
        data = bytes(data)
        if self.broken_pipe:
            raise BrokenPipeError(32, 'Broken pipe')
        n = len(data)
        if self.sends < n:
            n = self.rng.randint(1, self.sends)
            self.ctx.count('partial sends')
        self.outbound += data[:n]
        return n

    def sendall(self, data, flags=0):
        if self.broken_pipe:
            raise BrokenPipeError(32, 'Broken pipe')
        self.outbound += bytes(data)

    def sendmsg(self, buffers, *args):
        return self.send(b''.join(map(bytes, buffers)))

    def recv(self, n, flags=0):
        self.ctx.check(n > 0, 'reads nothing from its socket', n)
        if self.watch:
            done = max((app for off, app in self.marks if off <= self.received), default=0)
            self.ctx.check(done <= self.app_read, 'a read waits although there is data to return',
                           lambda: f'{done} bytes arrived, {self.app_read} were returned')
        if self.eof and not self.inbound:
            return b''
        while not self.inbound:
            self.pump()
            if self.inbound:
                break
            if self.eof:
                self.ctx.count('ends of stream')
                return b''
            if self.reset:
                self.ctx.count('resets')
                raise ConnectionResetError(104, 'Connection reset by peer')
            if not self.script:
                raise Starved
            self.act(self.script.pop(0))
        k = min(n, len(self.inbound))
        if self.reads < k:
            k = self.rng.randint(1, self.reads)
            self.ctx.count('short reads')
        out = bytes(self.inbound[:k])
        del self.inbound[:k]
        self.received += k
        return out

    def recv_into(self, buffer, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buffer))
        buffer[:len(data)] = data
        return len(data)

    def __getattr__(self, name):
        if name in ('settimeout', 'setblocking', 'setsockopt', 'shutdown', 'close', 'getsockopt', 'gettimeout'):
            return lambda *a: self.done.append(name)
        raise AttributeError(name)

    # ---- the peer
    def pump(self):
        if self.fed < len(self.outbound):
            data = bytes(self.outbound[self.fed:])
            self.fed += len(data)
            self.end.feed(data)
        self.take()

    def take(self):
        if self.eager and self.end.peer.write_epoch == 'app' and not self.end.error:
            # data which follows the peer's Finished at once
            data, self.eager = self.eager, b''
            self.act(('data', [data], 0))
            self.ctx.count('eager data')
            return
        b = self.end.out()
        self.inbound += b
        self.produced += len(b)

    def act(self, action):
        peer, kind = self.end.peer, action[0]
        if kind == 'data':
            for chunk in action[1]:
                peer.put(ref13.APPDATA, chunk, action[2])
                self.app_sent += chunk
                self.take()
                self.marks.append((self.produced, len(self.app_sent)))
        elif kind == 'heartbeat':
            peer.put(ref13.HEARTBEAT, ref13.u8(1) + ref13.v16(action[1]) + bytes(16), 0)
        elif kind == 'ticket':
            peer.send_ticket()
        elif kind == 'close':
            peer.close()
            self.ended = 'close'
        elif kind == 'eof':
            self.eof = True
            self.ended = self.ended or 'eof'
        elif kind == 'reset':
            self.reset = True
            self.ended = self.ended or 'reset'
        elif kind == 'garbage':
            peer.outbuf += action[1]
            self.ended = 'garbage'
        elif kind == 'stray':
            peer.put(ref13.HANDSHAKE, b'\x14\0\0\x20' + bytes(32), 0)
            self.ended = 'stray'
        elif kind == 'alert':
            peer.send_alert(action[1])
            self.ended = 'alert'
        elif kind == 'half':
            # a part of a record, and nothing more
            peer.put(ref13.APPDATA, b'?' * 100, 0)
            b = self.end.out()
            cut = action[1] % (len(b) - 1) + 1
            self.inbound += b[:cut]
            self.produced += cut
            self.eof = True
            self.ended = self.ended or 'eof'
        elif kind == 'timeout':
            self.ctx.count('timeouts')
            raise TimeoutError('timed out')
        else:
            raise AssertionError(action)
        self.take()


def endpoints(rng, role, sc, sock_script, ctx, **kw):
    if role == 'client':
        end = Ref(scen.ref_server(sc, layout=scen.layout(rng), lenient=True, tickets=rng.choice((0, 1, 2)), **kw))
        conn = TLSConnection(scen.client_config(sc), server_hostname=sc['host'])
    else:
        end = Ref(scen.ref_client(sc, layout=scen.layout(rng), lenient=True, **kw))
        conn = TLSConnection(scen.server_config(sc))
    if role == 'server':
        end.start()
    return conn, end, Memory(ctx, rng, end, sock_script)


def script(rng, role, mfl, hb):
    """ What the peer does once the handshake is over. """
    out = []
    for _ in range(rng.randint(0, 8)):
        r = rng.random()
        if r < .6:
            n = rng.choice((1, 1, 2, 5, 40))
            out.append(('data', [rng.randbytes(rng.choice((0, 1, 10, 300, min(mfl, 4000) - 30))) for _ in range(n)],
                        rng.choice((0, 0, 20))))
        elif r < .7 and hb:
            out.append(('heartbeat', rng.randbytes(rng.choice((1, 20)))))
        elif r < .8 and role == 'client':
            out.append(('ticket',))
        elif r < .95:
            out.append(('timeout',))
    end = rng.choice((('close',), ('close', 'eof'), ('close', 'reset'), ('eof',), ('reset',), ('garbage', 'eof'), ('stray', 'eof'),
                      ('alert', 'eof'), ('half',), ('close', 'garbage', 'eof')))
    for e in end:
        out.append({'garbage': ('garbage', b'\x17\3\3\0\x30' + rng.randbytes(48)), 'alert': ('alert', 'internal_error'),
                    'half': ('half', rng.randint(0, 10000))}.get(e, (e,)))
    return out


def run_memory(spec, ctx):
    """ Reads, writes and endings in any order against a model. """
    rng, role = ctx.rng, spec['role']
    sc = scen.rand(rng, compatible=True)
    hb = sc['hb_c'] if role == 'client' else sc['hb_s'] and sc['hb_c']
    conn, end, sock = endpoints(rng, role, sc, script(rng, role, sc['mfl'], hb), ctx)
    peer = end.peer
    sent, got, failure, opened = bytearray(), bytearray(), None, False
    events = []
    silent = [0]
    sio_wrap = conn.wrap(sock)

    def write():
        data = rng.randbytes(rng.choice((0, 1, 100, 3000, 17000, 40000)))
        sio_wrap.write(data)
        sent.extend(data)

    def read():
        sock.watch = True
        try:
            data = sio_wrap.read()
        except TLSError as exc:
            sock.pump()
            told = [a[1] for a in peer.alerts_in]
            if sock.ended in ('garbage', 'stray'):
                ctx.check(told[-1:] == [alert_name(exc)], 'an error reaches the caller before its alert is sent',
                          f'{role} {exc!r} {told}')
            raise
        finally:
            sock.watch = False
        ctx.count('reads judged')
        got.extend(data)
        sock.app_read = len(got)
        return data

    left = None
    body_error = None
    try:
        with sio_wrap as s:
            opened = True
            ctx.check(s is not None and conn.is_connected(), 'the handshake is not over in the context', '')
            sio_wrap = s
            empty = 0
            retries = 0
            for _ in range(400):
                if rng.random() < .3 and failure is None and sock.ended in (None, 'close', 'eof'):
                    write()
                    if rng.random() < .5:
                        sock.pump()
                else:
                    try:
                        data = read()
                    except TimeoutError:
                        retries += 1
                        continue
                    except Starved:
                        break
                    if not data:
                        empty += 1
                        ctx.check(sock.ended is not None or sock.eof, 'an empty read although nothing ended', events)
                        if empty > 3:
                            break
                    else:
                        ctx.check(not empty, 'data is read after an empty read', f'{len(data)}')
            if rng.random() < .2:
                body_error = KeyError('from the body')
                raise body_error
        left = True
    except Starved:
        ctx.violation('the wrapper waits for bytes which will never come', f'{role} {sock.ended} {sock.script} {sc}')
    except KeyError as exc:
        ctx.check(exc is body_error, 'an error of the body is hidden', repr(exc))
        left = True
    except TLSError as exc:
        failure = exc
    except ConnectionResetError as exc:
        failure = exc
    except TimeoutError:
        ctx.violation('a timeout during a read breaks the handshake', '')
    sock.fed and sock.pump()
    if sock.fed < len(sock.outbound):
        sock.pump()
    why = f'{role} ended={sock.ended} {failure!r} {sc}'
    ctx.require(opened, 'the handshake fails', why)
    # what came before the end was returned
    expected = bytes(sock.app_sent)
    ctx.check(expected.startswith(bytes(got)), 'data is altered', why)
    if sock.ended in ('close', 'eof') or failure is None:
        if sock.ended in ('close', 'eof'):
            ctx.check(bytes(got) == expected, 'data received before the end is lost',
                      lambda: f'{why} {len(got)} of {len(expected)}')
    if sock.ended in ('garbage', 'stray', 'alert', 'reset') and isinstance(failure, Exception):
        # it may come along with the error: it is still there for who asks
        with contextlib.suppress(Exception):
            rest = conn.data_to_read()
            ctx.check(bytes(got) + bytes(rest) == expected, 'data received before an error is lost',
                      lambda: f'{why} {len(got)}+{len(rest)} of {len(expected)}')
    ctx.count('bytes compared', len(got) + len(sent))
    # what was written arrived
    if sock.ended != 'alert':
        ctx.check(bytes(peer.app_in) == bytes(sent), 'written data is lost or altered', lambda: f'{why} {len(peer.app_in)} of {len(sent)}')
    names = [a[1] for a in peer.alerts_in]
    if failure is not None and isinstance(failure, TLSError):
        if sock.ended in ('garbage', 'stray'):
            ctx.check(names and names[-1] == alert_name(failure), 'an error reaches the caller before its alert is sent',
                      f'{why} {names}')
            ctx.count('alerts before an error')
        if sock.ended in ('eof', 'close', None):
            ctx.violation('an error although nothing wrong was received', why)
    elif failure is None and left and sock.ended != 'alert' and 'garbage' not in str(sock.ended):
        ctx.check(names == ['close_notify'], 'leaving the context does not send one close_notify', f'{why} {names}')
        ctx.count('contexts left')
    elif sock.ended == 'alert':
        ctx.check(not [n for n in names if n != 'close_notify'], 'an alert is answered', f'{why} {names}')
    if end.error is not None and sock.ended not in ('alert',):
        ctx.check('decrypt' not in str(end.error) and 'deprot' not in str(end.error), 'what is sent cannot be read', f'{why} {end.error!r}')
    # and from now on: empty reads
    if sock.ended in ('close', 'eof') and failure is None:
        for _ in range(3):
            try:
                data = sio_wrap.read()
            except Exception as exc:
                ctx.violation('a read past the end does not return empty', f'{why} {exc!r}')
                break
            ctx.check(not data, 'a read past the end does not return empty', why)
    ctx.count('sessions')
    ctx.seen(role, sock.ended, sock.sends, sock.reads, sc['mfl'], type(failure).__name__)


def run_cut(spec, ctx):
    """ An end of stream, a reset, garbage or an alert at any byte of the handshake. """
    rng, role = ctx.rng, spec['role']
    sc = scen.simple(mfl=rng.choice(scen.MFLS), kind=rng.choice(('p256', 'rsa', 'ed25519')), via='inter')
    conn, end, sock = endpoints(rng, role, sc, [('eof',)], ctx)
    total = [0]
    limit = rng.choice((0, 1, 5, 50, rng.randint(1, 3000)))
    what = rng.choice(('eof', 'reset', 'garbage', 'alert'))
    sock.eager = b''

    def take():
        b = end.out()
        room = max(0, limit - sock.produced)
        if len(b) > room:
            b = b[:room]
            sock.inbound += b
            sock.produced += len(b)
            if what == 'eof':
                sock.eof = True
            elif what == 'reset':
                sock.reset = True
            elif what == 'garbage':
                sock.inbound += rng.randbytes(40000)
                sock.eof = True
            else:
                if end.peer.write is None and not b:
                    sock.inbound += b'\x15\3\3\0\2\2\x28'
                sock.eof = True
            sock.ended = what
            sock.take = lambda: end.out()
            return
        sock.inbound += b
        sock.produced += len(b)
    sock.take = take
    error = None
    w = conn.wrap(sock)
    try:
        with w:
            ok = conn.is_connected()
            first = None
            if not ok:
                # the end of the stream does not raise: reads are empty and writes impossible
                ctx.check(not w.read(), 'data is read out of a handshake which was cut', '')
                try:
                    w.write(b'secret')
                except TLSError:
                    pass
                else:
                    ctx.violation('data is written on a handshake which was cut', f'{role} {what} {limit}')
    except (TLSError, ConnectionResetError, BrokenPipeError) as exc:
        error = exc
    except Starved:
        ctx.violation('the wrapper waits for bytes which will never come', f'{role} {what} {limit}')
        return
    sock.take = lambda: end.out()
    if sock.fed < len(sock.outbound):
        end.feed(bytes(sock.outbound[sock.fed:]))
    names = [a[1] for a in end.peer.alerts_in]
    why = f'{role} {what} at {limit} {error!r} {names}'
    if isinstance(error, TLSError) and sock.ended in ('eof', 'garbage') and what == 'garbage':
        # the alert is on the wire, in clear or under keys the peer may not have
        from lib.monitor import records
        recs, rest = records(sock.outbound)
        ctx.check(recs and not rest and (names[-1:] == [alert_name(error)] or recs[-1][0] in (21, 23)),
                  'an error reaches the caller before its alert is sent', why)
        ctx.count('alerts before an error')
    if what == 'eof' and sock.ended == 'eof':
        ctx.check(error is None or isinstance(error, TLSError), 'the end of the stream is not handled', why)
    ctx.count('sessions')
    ctx.seen('cut', role, what, min(limit, 1000) // 50, type(error).__name__)


# --------------------------------------------------------- kernel sockets

class Choppy(socket.socket):
    """ A genuine socket which takes and gives a few bytes at a time. """
    chop = (1 << 30, 1 << 30)
    rng = ctx = None

    def send(self, data, *a):
        k = self.rng.randint(1, self.chop[0])
        if k < len(data):
            self.ctx.count('partial sends')
        return super().send(memoryview(data)[:k], *a)

    def sendall(self, data, *a):
        data = memoryview(bytes(data))
        while data:
            data = data[self.send(data):]

    def recv(self, n, *a):
        k = self.rng.randint(1, self.chop[1])
        if k < n:
            self.ctx.count('short reads')
        return super().recv(min(n, k), *a)

    def recv_into(self, buf, nbytes=0, *a):
        n = min(nbytes or len(buf), self.rng.randint(1, self.chop[1]))
        return super().recv_into(buf, n, *a)


def sockets(ctx, rng, choppy=True):
    kind = rng.choice(('unix', 'tcp'))
    if kind == 'unix':
        a, b = socket.socketpair()
    else:
        with socket.socket() as listener:
            listener.bind(('127.0.0.1', 0))
            listener.listen(1)
            a = socket.create_connection(listener.getsockname())
            b, _ = listener.accept()
    out = []
    for s in (a, b):
        if rng.random() < .7:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4608)
        if rng.random() < .4:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2304)
        if choppy and rng.random() < .7:
            s = Choppy(s.family, s.type, s.proto, fileno=s.detach())
            s.rng, s.ctx = rng, ctx
            s.chop = rng.choice(((1000, 1000), (50000, 700), (3000, 50000), (300, 300)))
        s.settimeout(60)
        out.append(s)
    return kind, out


def talker(wrapper_or_ssl, plan, mine, result, name, ending, raw):
    """ plan: [(who, bytes)]: every turn one writes and the other reads it all. """
    try:
        for who, data in plan:
            if who == mine:
                if isinstance(wrapper_or_ssl, ssl.SSLSocket):
                    wrapper_or_ssl.sendall(data)
                else:
                    wrapper_or_ssl.write(data)
            else:
                got = bytearray()
                while len(got) < len(data):
                    piece = wrapper_or_ssl.read()
                    if not piece:
                        break
                    got += piece
                result.setdefault('got', []).append((bytes(got) == data, len(got), len(data)))
        if mine == ending[0]:
            if ending[1] == 'eof':
                raw.shutdown(socket.SHUT_WR)
            elif ending[1] == 'reset':
                raw.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                raw.close()
        else:
            result['after'] = bytes(wrapper_or_ssl.read())
    except Exception as exc:
        result['error'] = exc


def drain(sock):
    """ So that the other end is not blocked by what nobody reads. """
    with contextlib.suppress(OSError):
        sock.shutdown(socket.SHUT_WR)
    with contextlib.suppress(OSError):
        while sock.recv(65536):
            pass


def make_plan(rng):
    first = rng.randint(0, 1)
    return [('cs'[(first + i) % 2], rng.randbytes(rng.choice((1, 100, 5000, 70000, 200000)))) for i in range(rng.randint(1, 6))]


def run_kernel(spec, ctx):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    kind, (a, b) = sockets(ctx, rng)
    plan = make_plan(rng)
    ending = (rng.choice('cs'), rng.choice(('context', 'context', 'eof')))
    c = TLSConnection(scen.client_config(sc), server_hostname=sc['host'])
    s = TLSConnection(scen.server_config(sc))
    results = {'c': {}, 's': {}}

    def side(conn, sock, mine):
        try:
            with conn.wrap(sock) as w:
                talker(w, plan, mine, results[mine], spec['n'], ending, sock)
            results[mine]['left'] = True
        except (OSError, TLSError) as exc:
            results[mine]['error'] = exc
        drain(sock)
    run_threads(ctx, [(side, (c, a, 'c')), (side, (s, b, 's'))], (a, b))
    judge_kernel(ctx, results, plan, ending, f'{kind} {ending} {[(w, len(d)) for w, d in plan]} {sc}')
    ctx.count('sessions')
    ctx.count('kernel sessions')
    ctx.seen('kernel', kind, *ending, type(a).__name__, type(b).__name__, sc['mfl'])


def run_threads(ctx, jobs, socks):
    threads = [threading.Thread(target=f, args=args, daemon=True) for f, args in jobs]
    for t in threads:
        t.start()
    for t in threads:
        t.join(100)
    alive = any(t.is_alive() for t in threads)
    for s in socks:
        with contextlib.suppress(OSError):
            s.close()
    ctx.require(not alive, 'a session over genuine sockets never ends', '')


def judge_kernel(ctx, results, plan, ending, why, sides='cs'):
    for mine in sides:
        r = results[mine]
        cut = mine == ending[0] and ending[1] == 'eof' and isinstance(r.get('error'), OSError)
        ctx.check('error' not in r or cut, 'a session over genuine sockets fails', lambda: f'{why} {mine} {r}')
        want = [d for w, d in plan if w != mine]
        ctx.check([g[0] for g in r.get('got', [])] == [True] * len(want), 'data is lost or altered over genuine sockets',
                  lambda: f'{why} {mine} {r.get("got")}')
        ctx.count('bytes compared', sum(map(len, want)))
        ctx.count('reads judged', len(want))
        if mine != ending[0]:
            ctx.check(r.get('after') == b'', 'a read past the end does not return empty', f'{why} {mine} {r.get("after")!r}')
        ctx.count('contexts left')


def run_openssl(spec, ctx):
    rng, role = ctx.rng, spec['role']
    sc = scen.simple(kind=rng.choice(('p256', 'rsa')), via='inter', suites_c=[0x1301, 0x1302, 0x1303], suites_s=[0x1301, 0x1302, 0x1303],
                     mfl=rng.choice(scen.MFLS))
    kind, (a, b) = sockets(ctx, rng, choppy=False)
    mine = 'c' if role == 'client' else 's'
    other = 's' if mine == 'c' else 'c'
    sock = Choppy(a.family, a.type, a.proto, fileno=a.detach())
    sock.rng, sock.ctx, sock.chop = rng, ctx, rng.choice(((1000, 1000), (50000, 700), (1 << 30, 1 << 30)))
    sock.settimeout(60)
    plan = make_plan(rng)
    ending = (rng.choice('cs'), 'context')
    results = {'c': {}, 's': {}}
    chain = pki.chain(scen.leaf_node(sc['kind'], sc['via']))
    if role == 'client':
        conn = TLSConnection(scen.client_config(sc), server_hostname=sc['host'])
        octx = openssl_server(chain).obj.context
    else:
        conn = TLSConnection(scen.server_config(sc))
        octx = openssl_client().obj.context

    def ours():
        try:
            with conn.wrap(sock) as w:
                talker(w, plan, mine, results[mine], spec['n'], ending, sock)
        except (OSError, TLSError) as exc:
            results[mine]['error'] = exc
        drain(sock)

    def theirs():
        try:
            o = octx.wrap_socket(b, server_side=role == 'client')
            talker(o, plan, other, results[other], spec['n'], ending, b)
            results[other]['unwrapped'] = True
            with contextlib.suppress(OSError, ssl.SSLError):
                o.unwrap()
            drain(b)
        except Exception as exc:
            results[other]['error'] = exc
    run_threads(ctx, [(ours, ()), (theirs, ())], (sock, b))
    judge_kernel(ctx, results, plan, ending, f'openssl {role} {kind} {ending} {[(w, len(d)) for w, d in plan]}')
    ctx.count('sessions')
    ctx.count('kernel sessions')
    ctx.seen('openssl', role, kind, *ending, sc['mfl'])
