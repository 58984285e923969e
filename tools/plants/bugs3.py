""" Planted bugs, third batch. """
BUGS = []


def bug(id, property, needs, breaks, *edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks,
                 'edits': edits, 'demo': demo})


bug('session-id-short', 'C01',
    'a client in compatibility mode whose session id is neither empty nor of 32 bytes',
    'the session id is not echoed and the client gives up',
    ('states/server/wait_client_hello.py',
     "        self._send_content(ServerHello(\n            self._server_unique,\n            session_id,\n",
     "        self._send_content(ServerHello(\n            self._server_unique,\n"
     "            session_id if len(session_id) == 32 else b'',  # noqa: PLR2004\n"),
    demo='''
import kit

for n in (0, 1, 8, 31, 32):
    conn = kit.server()
    peer = kit.ref_to_server(conn, session_id=bytes(range(n)))
    errors = []
    try:
        kit.ref_pump(conn, peer, errors)
    except Exception as exc:
        kit.fail(f'{n}: {exc!r}')
    kit.need(peer.connected and not errors, (n, errors))
''')

bug('double-buffer', 'C03',
    'a caller which keeps what data_to_send() returned (in a queue) while it calls it again',
    'the buffer handed over is emptied and written again: bytes are lost',
    ('connection.py',
     "        output = self._output_data\n        self._output_data = bytearray()\n        return output\n",
     "        # swap the two buffers, saves many allocations\n"
     "        output = self._output_data\n"
     "        self._output_data, self._spare_data = self._spare_data, output\n"
     "        self._output_data.clear()\n        return output\n"),
    ('connection.py',
     "        self._output_data = bytearray()\n        self._application_data = bytearray()\n",
     "        self._output_data = bytearray()\n        self._spare_data = bytearray()\n"
     "        self._application_data = bytearray()\n"),
    demo='''
import kit

c, s = kit.connected()
queue = []
for i in range(4):
    c.send_data(b'%d' % i * 100)
    queue.append(c.data_to_send())
errors = []
for b in queue:
    kit.give(s, b, errors)
kit.need(not errors, errors)
got = bytes(s.data_to_read())
kit.need(got == b''.join(b'%d' % i * 100 for i in range(4)), got[:20])
''')

bug('ocsp-future', 'C06',
    'a stapled status which is signed for a period that did not start yet',
    'it is accepted',
    ('crypto/ocsp.py',
     "    if res.this_update > datetime.utcnow():  # noqa: DTZ003\n        e = \"response is not valid yet\"\n        raise ValueError(e)\n\n",
     "    if res.next_update is not None and res.this_update > res.next_update:\n"
     "        e = \"response is not valid yet\"\n        raise ValueError(e)\n\n"),
    demo='''
import kit, pki
from datetime import timedelta

leaf = pki.leaf(via='inter')
def tries(**kw):
    issuer = leaf.issuer
    der = pki.ocsp_response(leaf, issuer, **kw)
    peer = kit.ref_server(leaf, status=der)
    conn = kit.client()
    errors = []
    try:
        kit.ref_to_client(conn, peer, errors)
    except Exception as exc:
        errors.append(exc)
    return conn.is_connected()

now = pki.now()
kit.need(tries(status='good', this=now - pki.HOUR, nxt=now + pki.HOUR), 'a current status')
kit.need(not tries(status='good', this=now + pki.HOUR, nxt=now + 2 * pki.HOUR), 'a status of the future')
''')

bug('debug-secret', 'C10',
    'an application which logs at the debug level',
    'the handshake and application secrets are written to the ordinary log',
    ('crypto/ciphers.py',
     "    def _derive_key_and_iv(self, secret):\n        dm = self.digestmod\n        return (\n",
     "    def _derive_key_and_iv(self, secret):\n        dm = self.digestmod\n"
     "        logger.debug(\"deriving key and iv out of %r\", secret)\n        return (\n"),
    ('crypto/ciphers.py',
     "import hmac\nfrom typing import ClassVar\n",
     "import hmac\nimport logging\nfrom typing import ClassVar\n"),
    ('crypto/ciphers.py',
     "REKEY_THRESHOLD = 1024  # arbitrary\n",
     "logger = logging.getLogger(__name__)\n\nREKEY_THRESHOLD = 1 << 10  # arbitrary\n"),
    demo='''
import io, logging
import kit

out, keys = io.StringIO(), io.StringIO()
logging.getLogger().addHandler(logging.StreamHandler(out))
logging.getLogger().setLevel(logging.DEBUG)
handler = logging.StreamHandler(keys)
kl = logging.getLogger('siotls.keylog')
kl.addHandler(handler)
kl.propagate = False
kit.connected({'log_keys': True}, {})
secrets = {line.split()[2] for line in keys.getvalue().splitlines() if len(line.split()) == 3}
kit.need(len(secrets) >= 5, 'no key log')
for s in secrets:
    kit.need(s not in out.getvalue() and repr(bytes.fromhex(s)) not in out.getvalue(), 'a secret in the log')
''')

bug('nonce-32-bits', 'C15',
    'more than 2^32 records under one ChaCha20 key',
    'the sequence number wraps around in the nonce: nonces are reused',
    ('crypto/ciphers.py',
     "        nonce = self._write_iv ^ next(self._write_seq)\n",
     "        nonce = self._write_iv ^ (next(self._write_seq) & 0xffffffff)\n"),
    demo='''
import kit
from siotls.iana import CipherSuites
from siotls.utils import peekable
from siotls.crypto.ciphers import TLSCipherSuite

suite = TLSCipherSuite[CipherSuites.TLS_CHACHA20_POLY1305_SHA256]
ends = [suite(side, bytes(32), log_keys=False) for side in ('client', 'server')]
for e in ends:
    e.skip_early_secrets()
    e.derive_handshake_secrets(bytes(32), bytes(32))
a, b = ends
first = a.encrypt(b'data', b'')
kit.need(b.decrypt(first, b'') == b'data', 'no agreement')
a._write_seq = peekable(iter(range(1 << 32, 1 << 33)))
kit.need(a.encrypt(b'data', b'') != first, 'the nonce of record 0 serves again')
''')

bug('shared-records', 'C16',
    'two threads which send large writes on different connections',
    'the list the records are collected in is shared: records end up on the wrong connection',
    ('connection.py',
     "        self._output_data += b''.join(\n            b''.join([\n",
     "        records.clear()\n        records.extend(\n            b''.join([\n"),
    ('connection.py',
     "            for fragment in fragments\n        )\n\n    def _encrypt(",
     "            for fragment in fragments\n        )\n        self._output_data += b''.join(records)\n\n    def _encrypt("),
    ('connection.py',
     "cipher_plaintext = types.SimpleNamespace(\n",
     "records = []  # of the content being sent, reused to lower the pressure on the gc\ncipher_plaintext = types.SimpleNamespace(\n"),
    demo='''
import sys, threading
import kit

pairs = [kit.connected() for _ in range(4)]
sys.setswitchinterval(1e-6)
bad = []
def work(c, s):
    try:
        for i in range(60):
            data = bytes([i]) * 100_000
            c.send_data(data)
            kit.give(s, c.data_to_send())
            if bytes(s.data_to_read()) != data:
                bad.append('other bytes')
                return
    except Exception as exc:
        bad.append(repr(exc))
threads = [threading.Thread(target=work, args=p) for p in pairs]
for t in threads: t.start()
for t in threads: t.join()
kit.need(not bad, bad)
''')

bug('plain-alert', 'C04',
    'an alert injected in clear by someone in the middle once the keys are in place',
    'it is taken for one of the peer: anybody can close the connection cleanly',
    ('connection.py',
     "        if self._cipher.must_decrypt:\n            content_type, fragment = self._decrypt(header, fragment)\n",
     "        if self._cipher.must_decrypt and content_type != ContentType.ALERT:\n"
     "            content_type, fragment = self._decrypt(header, fragment)\n"),
    demo='''
import kit

c, s = kit.connected()
errors = []
kit.give(c, bytes.fromhex('15030300020100'), errors)
kit.need(errors, 'a close_notify in clear is accepted')
''')

bug('uncache-by-time', 'C18',
    'a status which is cached, found to be bad, and asked for again before it expires',
    'discarded statuses are kept until they expire',
    ('ocsp_over_http.py',
     "def uncache(ocsp_req):\n    _cache.pop(ocsp_req, None)\n",
     "def uncache(ocsp_req):\n    _, until = _cache.get(ocsp_req, (None, None))\n"
     "    if until and until <= datetime.utcnow():  # noqa: DTZ003\n        _cache.pop(ocsp_req)\n"),
    demo='''
import kit
from datetime import datetime, timedelta
from siotls import ocsp_over_http as o

o.cache(datetime.utcnow() + timedelta(hours=1), b'req', b'bad')
o.uncache(b'req')
o.cache(datetime.utcnow() + timedelta(hours=1), b'req', b'good')
kit.need(o.request('http://127.0.0.1:9/', b'req') == b'good', 'a discarded status is served')
''')

bug('mfl-first-hello', 'C09',
    'a client with a small fragment limit which gets a retry, and a server whose certificate is long',
    'the server fragments up to its own limit when the connection was retried',
    ('states/server/wait_client_hello.py',
     "        if mfl_ext:\n            self.nconfig.max_fragment_length = mfl_ext.octets\n            return [], [mfl_ext]\n",
     "        if mfl_ext:\n            if self._is_first_client_hello:\n"
     "                self.nconfig.max_fragment_length = mfl_ext.octets\n            return [], [mfl_ext]\n"),
    demo='''
import kit
from siotls.iana import MaxFragmentLengthOctets, NamedGroup

c = kit.client(max_fragment_length=MaxFragmentLengthOctets.MAX_512, key_exchanges=[NamedGroup.secp256r1, NamedGroup.x25519])
s = kit.server(key_exchanges=[NamedGroup.x25519])
kit.start(c, s)
errors, longest = [], [0]
def look(b):
    longest[0] = max([longest[0], *(len(r) for r in kit.split_records(b))])
    return b
kit.pump(c, s, errors, on_s2c=look)
kit.need(not errors and longest[0] <= 512 + 256 + 5, (errors, longest))
''')

bug('grease-alpn', 'C01',
    'a client which offers a reserved (GREASE) application protocol among the ordinary ones',
    'the reserved values which are no UTF-8 make the server refuse the hello',
    ('contents/handshakes/extensions/alpn.py',
     "            if all(ord(' ') <= char <= ord('~') for char in protocol)  # skip GREASE\n",
     "            if protocol not in GREASE\n"),
    ('contents/handshakes/extensions/alpn.py',
     "from . import Extension\n\n",
     "from . import Extension\n\nGREASE = {bytes([i, i]) for i in range(0x0a, 0x7a, 0x10)}\n\n"),
    demo='''
import kit
from siotls.contents.handshakes.extensions import ALPN
from siotls.contents.handshakes import Handshake
from siotls.contents.handshakes.extensions import Extension
from siotls.iana import HandshakeType
from siotls.serial import SerialIO

for i in range(0x0a, 0x100, 0x10):
    names = [bytes([i, i]), b'http/1.1']
    body = b''.join(bytes([len(n)]) + n for n in names)
    wire = b'\\x00\\x10' + (len(body) + 2).to_bytes(2, 'big') + len(body).to_bytes(2, 'big') + body
    try:
        ext = Extension.parse(SerialIO(wire), handshake_type=HandshakeType.CLIENT_HELLO)
    except Exception as exc:
        kit.fail(f'{i:x}: {exc!r}')
    kit.need('http/1.1' in ext.protocol_name_list, ext)
''')

bug('heartbeat-short', 'C19',
    'a heartbeat request which announces more than it carries',
    'it is answered with what there is instead of being refused',
    ('contents/heartbeat.py',
     "        payload = stream.read_var(2)\n        padding = stream.read()\n",
     "        payload_length = stream.read_int(2)\n        body = stream.read()\n"
     "        padding_length = max(len(body) - payload_length, 16)\n"
     "        payload, padding = body[:-padding_length], body[-padding_length:]\n"),
    demo='''
import kit

conn = kit.client()
peer = kit.ref_server(heartbeat=1)
kit.ref_to_client(conn, peer)
kit.need(conn.is_connected(), 'no connection')
errors = []
peer.put(kit.ref13.HEARTBEAT, b'\\x01\\x40\\x00ping' + bytes(16))
kit.give(conn, peer.out(), errors)
out = conn.data_to_send()
if out:
    try:
        peer.feed(out)
    except Exception:
        pass
kit.need(not peer.heartbeats, peer.heartbeats)
''')

