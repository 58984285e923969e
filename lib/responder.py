""" A loopback HTTP server whose every answer is chosen by its owner. """
import socket
import threading


class Hit:
    def __init__(self, method, path, version, headers, body):
        self.method, self.path, self.version, self.headers, self.body = method, path, version, headers, body
        self.sent = 0

    def header(self, name):
        got = [v for k, v in self.headers if k.lower() == name.lower()]
        return got[0] if len(got) == 1 else (None if not got else got)


def http(body, status='200 OK', ctype='application/ocsp-response', framing='length', extra=()):
    """ A response: framing is length, close, chunked or the announced length. """
    out = [f'HTTP/1.1 {status}'.encode()]
    if ctype is not None:
        out.append(b'Content-Type: ' + ctype.encode())
    if framing == 'length':
        out.append(b'Content-Length: %d' % len(body))
    elif framing == 'chunked':
        out.append(b'Transfer-Encoding: chunked')
        cut = [body[i:i + 1000] for i in range(0, len(body), 1000)]
        body = b''.join(b'%x\r\n%s\r\n' % (len(c), c) for c in cut) + b'0\r\n\r\n'
    elif framing != 'close':
        out.append(b'Content-Length: ' + str(framing).encode())
    out += [x.encode() for x in extra]
    return b'\r\n'.join(out) + b'\r\n\r\n' + body


class Responder:
    """
    answer(hit) gives bytes, or an iterator of bytes sent until the client is
    gone. Connections are answered once then closed.
    """
    def __init__(self, answer):
        self.answer, self.hits, self.errors = answer, [], []
        self.sock = socket.create_server(('127.0.0.1', 0), backlog=64)
        self.port = self.sock.getsockname()[1]
        self.base = f'http://127.0.0.1:{self.port}'
        self.lock = threading.Lock()
        self.stopped = False
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while not self.stopped:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            if self.stopped:
                s.close()
                return
            threading.Thread(target=self.serve, args=(s,), daemon=True).start()

    def serve(self, s):
        hit = None
        try:
            with s:
                s.settimeout(20)
                f = s.makefile('rb')
                line = f.readline().decode('latin-1').strip().split(' ')
                if len(line) != 3:
                    self.errors.append(line)
                    return
                headers = []
                while (h := f.readline().decode('latin-1').strip()):
                    k, _, v = h.partition(':')
                    headers.append((k.strip(), v.strip()))
                hit = Hit(*line, headers, b'')
                n = hit.header('Content-Length')
                if isinstance(n, str) and n.isdigit():
                    hit.body = f.read(int(n))
                with self.lock:
                    self.hits.append(hit)
                    out = self.answer(hit)
                for b in ([out] if isinstance(out, bytes) else out):
                    s.sendall(b)
                    hit.sent += len(b)
                s.shutdown(socket.SHUT_WR)
                s.settimeout(1)
                while s.recv(4096):
                    pass
        except OSError:
            pass

    def close(self):
        self.stopped = True
        try:
            socket.create_connection(('127.0.0.1', self.port), 1).close()
        except OSError:
            pass
        self.sock.close()


class Trap:
    """ A listener nobody should ever connect to. """
    def __init__(self):
        self.sock = socket.create_server(('127.0.0.1', 0))
        self.sock.setblocking(False)
        self.port = self.sock.getsockname()[1]

    def caught(self):
        try:
            self.sock.accept()[0].close()
        except BlockingIOError:
            return False
        return True

    def close(self):
        self.sock.close()
