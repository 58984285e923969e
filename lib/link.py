"""
Endpoints behind one interface, and the link which carries bytes between two of
them under a chosen segmentation, recording everything.

Endpoint interface:
    start()            the first flight of a client
    feed(bytes)        deliver bytes; exceptions are recorded in .error
    out()              bytes to put on the wire
    write(data)        application data to send
    take()             application data readable now
    connected, failed, error
"""
import os
import ssl
import tempfile

import siotls
from siotls import TLSConfiguration, TLSConnection, TLSError

from . import ref13


class Unowned(Exception):
    """ A buffer changed hands, and the one who gave it still writes in it. """


class Sio:
    """ A siotls connection, driven through its public methods only. """
    hold = False      # look at the buffers after they changed hands

    def __init__(self, config, **kw):
        self.held = []             # what it returned: the object, and what was in it
        self.conn = TLSConnection(config, **kw)
        self.side = config.side
        self.error = None          # first exception out of receive_data
        self.errors = []
        self.late_errors = []      # those once the peer closed, which are no failure
        self.rx = bytearray()      # everything it was given
        self.tx = bytearray()      # everything it emitted
        self.closed_rx = False

    def start(self):
        self.conn.initiate_connection()

    def feed(self, data):
        if not data:
            return
        self.rx += data
        closed = self.error is None and self.conn.is_post_handshake() and not self.conn.is_connected()
        try:
            self._lend(self.conn.receive_data, data)
        except Exception as exc:      # judged by the checks
            if closed and isinstance(exc, TLSError):
                self.late_errors.append(exc)
                return
            self.errors.append(exc)
            if self.error is None:
                self.error = exc

    def _lend(self, method, data):
        """ The caller may do what it wants with its buffer afterwards. """
        if not self.hold or not isinstance(data, bytearray):
            return method(data)
        copy = bytes(data)
        try:
            method(data)
        finally:
            if data != copy:
                raise Unowned(f"{method.__name__} writes in its caller's buffer")
            data[:] = b'\xa5' * len(data)

    def _own(self, buf):
        b = bytes(buf)
        if self.hold:
            self.look()
            if b:
                self.held = [*self.held[-15:], (buf, b)]
        return b

    def look(self):
        for buf, b in self.held:
            if buf != b:
                raise Unowned(f'{len(b)} bytes which were handed over are {len(buf)} others afterwards')

    def out(self):
        b = self._own(self.conn.data_to_send())
        self.tx += b
        return b

    def write(self, data):
        self._lend(self.conn.send_data, data)

    def take(self):
        return self._own(self.conn.data_to_read())

    def close(self):
        self.conn.close_sending_end()

    @property
    def connected(self):
        return self.conn.is_connected()

    @property
    def post_handshake(self):
        return self.conn.is_post_handshake()

    @property
    def failed(self):
        return self.error is not None or (self.conn.is_post_handshake() and not self.conn.is_connected())

    def alert_name(self):
        """ Description of the alert carried by the raised error, if any. """
        return alert_name(self.error)


def alert_name(exc):
    desc = getattr(exc, 'description', None)
    if desc is None:
        return None
    return ref13.ALERTS.get(int(desc), int(desc))


class Ref:
    """ A ref13 peer. RefError is recorded, and answered by its alert. """
    def __init__(self, peer):
        self.peer = peer
        self.side = peer.side
        self.error = None
        self.rx, self.tx = bytearray(), bytearray()
        self._read = 0

    def start(self):
        if self.side == 'client':
            self.peer.start()

    def feed(self, data):
        self.rx += data
        if self.error is None:
            try:
                self.peer.feed(data)
            except ref13.RefError as exc:
                self.error = exc
                if exc.alert:
                    self.peer.send_alert(exc.alert)

    def out(self):
        b = self.peer.out()
        self.tx += b
        return b

    def write(self, data):
        self.peer.send_app(data)

    def take(self):
        b = bytes(self.peer.app_in[self._read:])
        self._read = len(self.peer.app_in)
        return b

    def close(self):
        self.peer.close()

    @property
    def connected(self):
        return self.peer.connected and self.error is None and not self.peer.failed_by_peer

    @property
    def failed(self):
        return self.error is not None or bool(self.peer.failed_by_peer)


class OpenSSL:
    """ The standard library's ssl module over memory BIOs. """
    def __init__(self, ctx, server_side, server_hostname=None):
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.obj = ctx.wrap_bio(self.inb, self.outb, server_side=server_side,
                                server_hostname=server_hostname)
        self.side = 'server' if server_side else 'client'
        self.connected = False
        self.error = None
        self.eof = False
        self.rx, self.tx = bytearray(), bytearray()
        self.app = bytearray()

    def _pump(self):
        if self.error:
            return
        try:
            if not self.connected:
                self.obj.do_handshake()
                self.connected = True
            while True:
                d = self.obj.read(65536)
                if not d:
                    self.eof = True
                    break
                self.app += d
        except (ssl.SSLWantReadError, ssl.SSLWantWriteError):
            pass
        except ssl.SSLZeroReturnError:
            self.eof = True
        except ssl.SSLError as exc:
            self.error = exc

    def start(self):
        self._pump()

    def feed(self, data):
        self.rx += data
        self.inb.write(data)
        self._pump()

    def out(self):
        b = self.outb.read()
        self.tx += b
        return b

    def write(self, data):
        if data:
            self.obj.write(data)

    def take(self):
        b = bytes(self.app)
        self.app.clear()
        return b

    def close(self):
        try:
            self.obj.unwrap()
        except (ssl.SSLWantReadError, ssl.SSLError):
            pass

    @property
    def failed(self):
        return self.error is not None


class Segmenter:
    """ How bytes are cut between two endpoints. """
    MODES = ('whole', 'byte', 'small', 'mixed', 'split5', 'big')

    def __init__(self, rng, mode='whole'):
        self.rng, self.mode = rng, mode

    def cut(self, data):
        m, rng, p, n = self.mode, self.rng, 0, len(data)
        if m == 'whole':
            if n:
                yield data
            return
        while p < n:
            if m == 'byte':
                k = 1
            elif m == 'small':
                k = rng.randint(1, 12)
            elif m == 'split5':
                k = rng.choice((1, 4, 5, 6))
            elif m == 'big':
                k = rng.randint(1000, 40000)
            else:
                k = rng.choice((1, 2, 5, 16, 100, 1000, 17000)) if rng.random() < .7 else n
            yield data[p:p + k]
            p += k


class Link:
    def __init__(self, client, server, seg_c=None, seg_s=None, max_rounds=400, intercept=None):
        self.c, self.s = client, server
        whole = Segmenter(None)
        self.seg_c, self.seg_s = seg_c or whole, seg_s or whole
        self.max_rounds = max_rounds
        self.intercept = intercept       # fn(direction, bytes) -> bytes
        self.c2s, self.s2c = bytearray(), bytearray()
        self.rounds = 0

    def start(self):
        if isinstance(self.s, Sio):
            self.s.start()
        self.c.start()

    def step(self):
        """ Carry what is pending once in each direction. """
        moved = False
        for src, dst, seg, log, d in ((self.c, self.s, self.seg_c, self.c2s, 'c2s'),
                                      (self.s, self.c, self.seg_s, self.s2c, 's2c')):
            data = src.out()
            if data:
                moved = True
                log += data
                if self.intercept:
                    data = self.intercept(d, data)
                for piece in seg.cut(data):
                    dst.feed(piece)
        return moved

    def run(self):
        for _ in range(self.max_rounds):
            self.rounds += 1
            if not self.step():
                return self
        raise RuntimeError('the endpoints never become quiet')

    def handshake(self):
        self.start()
        return self.run()


# ------------------------------------------------------------- OpenSSL



def openssl_client(cafile_pem=None, alpn=None, hostname=None):
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.minimum_version = ssl.TLSVersion.TLSv1_3
    if cafile_pem:
        ctx.load_verify_locations(cadata=cafile_pem)
    else:
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
    if alpn:
        ctx.set_alpn_protocols(alpn)
    return OpenSSL(ctx, False, hostname)


def openssl_server(chain_nodes, alpn=None, tmp=None, tickets=2):
    from cryptography.hazmat.primitives.serialization import (
        Encoding, NoEncryption, PrivateFormat)
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.minimum_version = ssl.TLSVersion.TLSv1_3
    ctx.num_tickets = tickets
    with tempfile.TemporaryDirectory(dir=tmp) as d:
        cert, key = os.path.join(d, 'c.pem'), os.path.join(d, 'k.pem')
        with open(cert, 'wb') as f:
            for n in chain_nodes:
                f.write(n.cert.public_bytes(Encoding.PEM))
        with open(key, 'wb') as f:
            f.write(chain_nodes[0].key.private_bytes(
                Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
        ctx.load_cert_chain(cert, key)
    if alpn:
        ctx.set_alpn_protocols(alpn)
    return OpenSSL(ctx, True)
