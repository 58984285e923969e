""" Planted bugs, first batch. Each is written from a property and the code. """
BUGS = []


def bug(id, property, needs, breaks, *edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks,
                 'edits': edits, 'demo': demo})


bug('hrr-sha384-transcript', 'C01',
    'a HelloRetryRequest on a connection whose suite uses SHA-384, with a peer other than siotls',
    'the message_hash header always announces 32 bytes, so the transcripts differ from those of other implementations',
    ('transcript.py',
     "            b'\\x00\\x00',\n            self._hashes[0].digest_size.to_bytes(1, 'big'),\n",
     "            hashlib.sha256().digest_size.to_bytes(3, 'big'),\n"),
    demo='''
import kit
from siotls import TLSConnection
from siotls.iana import CipherSuites, NamedGroup

for suite in (0x1301, 0x1302):
    conn = kit.server(cipher_suites=[CipherSuites(suite)], key_exchanges=[NamedGroup.secp256r1])
    peer = kit.ref_to_server(conn, suites=[suite], groups=[0x1d, 0x17], shares=[0x1d])
    try:
        kit.ref_pump(conn, peer)
    except Exception as exc:
        kit.fail(f'{suite:#x}: {exc!r}')
    kit.need(peer.connected and conn.is_connected(), f'{suite:#x}: no connection')
''')

bug('pss-salt-sha384', 'C01',
    'an RSA server which signs with rsa_pss_rsae_sha384, and a client which checks the length of the salt',
    'the salt of these signatures is as long as possible instead of as long as the digest',
    ('crypto/signatures.py',
     "    digestmod = hashes.SHA384()\n    padding = padding.PSS(padding.MGF1(hashes.SHA384()), padding.PSS.DIGEST_LENGTH)\n\n"
     "class TLS_RSA_PSS_RSAE_SHA512",
     "    digestmod = hashes.SHA384()\n    padding = padding.PSS(padding.MGF1(hashes.SHA384()), padding.PSS.AUTO)\n\n"
     "    def sign(self, message):\n"
     "        pss = padding.PSS(self.padding.mgf, padding.PSS.MAX_LENGTH)\n"
     "        return self.key.sign(message, pss, self.digestmod)\n\n"
     "class TLS_RSA_PSS_RSAE_SHA512"),
    demo='''
import kit
from cryptography.hazmat.primitives.asymmetric import rsa
import pki, ref13
from siotls.iana import SignatureScheme

key = rsa.generate_private_key(65537, 2048)
leaf = pki.make('rsa server', key, pki.root(), sans=[kit.HOST])
for scheme in (0x804, 0x805, 0x806):
    conn = kit.server(leaf, signature_algorithms=[SignatureScheme(scheme)])
    peer = kit.ref_to_server(conn)
    try:
        kit.ref_pump(conn, peer)
    except Exception as exc:
        kit.fail(f'{scheme:#x}: {exc!r}')
    kit.need(peer.connected, f'{scheme:#x}: no connection')
''')

bug('cert-type-client-order', 'C02',
    'a server with both a certificate and a raw public key, and a client which lists raw public keys first',
    "the server follows the client's order of certificate types instead of its own",
    ('states/server/wait_client_hello.py',
     "        for cert_type in self.config.certificate_types:\n            if cert_type in server_cert_types:\n",
     "        for cert_type in server_cert_types:\n            if cert_type in self.config.certificate_types:\n"),
    demo='''
import kit, pki, ref13

leaf = pki.leaf()
for offer in ([0, 2], [2, 0]):
    conn = kit.server(leaf, public_key=leaf.key.public_key())
    peer = kit.ref_to_server(conn, server_cert_types=offer)
    kit.ref_pump(conn, peer)
    kit.need(peer.connected and peer.server_cert_type == 0, f'{offer}: {peer.server_cert_type}')
''')

bug('fragment-last-byte', 'C03',
    'a write whose length is one more than a multiple of the size of a fragment',
    'the last byte is never sent',
    ('connection.py',
     "                for i in range(0, len(data), fragment_length)\n",
     "                for i in range(0, len(data) - 1, fragment_length)\n"),
    demo='''
import kit

c, s = kit.connected()
step = 16384 - 17
for size in (1, step - 1, step, step + 1, 2 * step, 2 * step + 1, 50000):
    data = bytes(i % 251 for i in range(size))
    c.send_data(data)
    kit.pump(c, s)
    kit.need(s.data_to_read() == data, f'{size} bytes')
''')

bug('empty-record-refused', 'C03',
    'a peer which sends an empty application data record, as protocols do against traffic analysis',
    'the connection fails upon an empty protected fragment',
    ('connection.py',
     "        for i in range(len(innertext) -1, -1, -1):\n",
     "        for i in range(len(innertext) - 1, 0, -1):\n"),
    demo='''
import kit, ref13

conn = kit.server()
peer = kit.ref_to_server(conn)
kit.ref_pump(conn, peer)
for data, pad in ((b'one', 0), (b'', 0), (b'two', 3), (b'', 50)):
    peer.put(ref13.APPDATA, data, pad)
try:
    kit.ref_pump(conn, peer)
except Exception as exc:
    kit.fail(repr(exc))
kit.need(conn.data_to_read() == b'onetwo' and conn.is_connected(), 'data lost')
''')

bug('full-record-refused', 'C01',
    'a record of the largest size the protocol allows (all of the 256 bytes of expansion used)',
    'such a record is taken for an overflow',
    ('connection.py',
     "        if content_length > max_fragment_length:\n",
     "        if content_length >= max_fragment_length:\n"),
    demo='''
import kit, ref13

conn = kit.client()
peer = kit.ref_server()
conn.initiate_connection()
# the largest clear record carries a flight of the server: none does here, so
# only check protected ones: 2^14 + 1 bytes of inner plaintext are the most,
# 16 of tag: the limit itself is reached with a negotiated fragment length
kit.ref_pump(conn, peer)
peer.put(ref13.APPDATA, b'x' * 16384)
kit.ref_pump(conn, peer)
kit.need(conn.data_to_read() == b'x' * 16384, 'protected')
# clear: a ClientHello of exactly 2^14 bytes
conn = kit.server()
peer = kit.ref_to_server(conn, extra_exts=[(ref13.X_PADDING, b'')])
first = len(peer.out()) - 5
peer = kit.ref_to_server(kit.server(), extra_exts=[(ref13.X_PADDING, bytes(16384 - first))])
try:
    conn = kit.server()
    conn.initiate_connection()
    kit.ref_pump(conn, peer)
except Exception as exc:
    kit.fail(repr(exc))
kit.need(peer.connected and conn.is_connected(), 'clear')
''')

bug('aad-rebuilt', 'C04',
    'a protected record whose header (type or version) was changed on the way',
    'the associated data is rebuilt instead of being the header received, hence the change goes unnoticed',
    ('connection.py',
     "        innertext = self._cipher.decrypt(fragment, header)\n",
     "        innertext = self._cipher.decrypt(fragment, b'\\x17\\x03\\x03' + header[3:])\n"),
    demo='''
import kit

for i, v in ((2, 1), (1, 2), (2, 4)):
    c, s = kit.connected()
    c.send_data(b'hello')
    record = bytearray(c.data_to_send())
    record[i] = v
    errors = []
    kit.give(s, record, errors)
    kit.need(errors and not s.data_to_read() and not s.is_connected(), f'byte {i} changed to {v}')
''')

bug('sigalg-not-offered', 'C05',
    "a server which signs with a scheme the client didn't offer",
    'any scheme siotls implements is accepted',
    ('states/client/wait_certificate_verify.py',
     "        if content.algorithm not in self.config.signature_algorithms:\n",
     "        if content.algorithm not in TLSSignatureSuite._registry:\n"),
    demo='''
import kit, pki, ref13
from siotls.iana import SignatureScheme

for offered, good in ((0x403, True), (0x503, False), (0x804, False)):
    conn = kit.client(signature_algorithms=[SignatureScheme(offered)])
    peer = kit.ref_server(select={'sig': 0x403})
    errors = []
    try:
        kit.ref_to_client(conn, peer, errors)
    except ref13.RefError:
        pass
    kit.need(conn.is_connected() == good, f'{offered:#x}: {conn.is_connected()}')
''')

bug('chain-depth-ignored', 'C05',
    'a client which configured a shorter chain than the one of the server',
    'the configured maximum depth is raised to the default one',
    ('configuration.py',
     "            .max_chain_depth(self.max_chain_depth)\n",
     "            .max_chain_depth(max(self.max_chain_depth, 5))\n"),
    demo='''
import kit, pki

for depth, via, good in ((0, 'root', True), (0, 'inter', False), (1, 'inter', True), (5, 'inter', True)):
    c = kit.client(max_chain_depth=depth)
    s = kit.server(pki.leaf(via=via))
    kit.start(c, s)
    errors = []
    kit.pump(c, s, errors)
    kit.need(c.is_connected() == good, f'depth {depth}, {via}: {errors}')
''')

bug('crl-or-ocsp', 'C06',
    'a client with both a revocation list and a status service, a revoked certificate without responder',
    'the revocation list is not looked up when there is a status service',
    ('states/client/wait_certificate.py',
     "        if not self.config.revocation_list:\n",
     "        if not self.config.revocation_list or self.ocsp_service:\n"),
    demo='''
import kit, pki
from siotls import ocsp_over_http

leaf = pki.leaf(via='inter')
inter, root = pki.inter(), pki.root()
for by, serials, good in ((root, [1], True), (inter, [leaf.cert.serial_number], False),
                          (root, [inter.cert.serial_number], False)):
    for service in (None, ocsp_over_http):
        c = kit.client(revocation_list=pki.crl(by, serials), ocsp_service=service)
        s = kit.server(leaf)
        kit.start(c, s)
        kit.pump(c, s, [])
        kit.need(c.is_connected() == good, f'{serials}: {c.is_connected()}')
''')

bug('alpn-empty-index', 'C07',
    'a server which selects a protocol whose name is not printable',
    'an IndexError escapes instead of a TLS error',
    ('states/client/wait_encrypted_extensions.py',
     "        elif (length := len(alpn_ext.protocol_name_list)) != 1:\n",
     "        elif (length := len(alpn_ext.protocol_name_list)) > 1:\n"),
    demo='''
import kit, ref13
from siotls import TLSError

for name in (b'h2', b'\\x0a\\x0a', b'\\xff'):
    conn = kit.client(alpn=['h2'])
    peer = kit.ref_server(ee_extra=[(ref13.X_ALPN, ref13.v16(ref13.v8(name)))])
    errors = []
    try:
        kit.ref_to_client(conn, peer, errors)
    except ref13.RefError:
        pass
    kit.need(all(isinstance(e, TLSError) for e in errors), f'{name}: {errors}')
    kit.need(conn.is_connected() == (name == b'h2'), f'{name}: {conn.is_connected()}')
''')

bug('early-appdata', 'C08',
    'a client which sends application data under its handshake keys, before its Finished',
    'the server delivers data of a peer whose handshake is not verified',
    ('states/server/wait_finished.py',
     "            super().process(finished)\n            return\n",
     "            if finished.content_type == ContentType.APPLICATION_DATA:\n"
     "                # the client is faster than we are\n"
     "                self._application_data.extend(finished.content_data)\n"
     "            else:\n"
     "                super().process(finished)\n            return\n"),
    demo='''
import kit, ref13

conn = kit.server()
peer = kit.ref_to_server(conn, script={'FIN': lambda p, m: [('record', ref13.APPDATA, b'early'), m]})
errors = []
try:
    kit.ref_pump(conn, peer, errors)
except ref13.RefError:
    pass
kit.need(errors and not conn.data_to_read() and not conn.is_connected(), 'premature application data')
''')

bug('pad-over-limit', 'C09',
    'a negotiated maximum fragment length below 4096',
    'records are padded up to 4096 bytes, beyond the negotiated limit',
    ('connection.py',
     "        chunk_size = min(max_fragment_length, 4096)\n",
     "        chunk_size = 4096\n"),
    demo='''
import kit
from siotls.iana import MaxFragmentLengthOctets

for mfl in (MaxFragmentLengthOctets.MAX_512, MaxFragmentLengthOctets.MAX_2048):
    c, s = kit.client(max_fragment_length=mfl), kit.server()
    kit.start(c, s)
    sizes = []
    def see(data):
        sizes.extend(len(r) - 5 for r in kit.split_records(data))
        return data
    errors = []
    kit.pump(c, s, errors, see, see)
    if c.is_connected():
        c.send_data(b'hello')
        kit.pump(c, s, errors, see, see)
    kit.need(not errors and max(sizes) <= mfl + 256, f'{mfl}: {max(sizes)} {errors}')
''')

bug('exporter-transcript', 'C10',
    'whoever uses the exporter secret of the key log',
    "the exporter secret is derived from the whole handshake instead of up to the server's Finished",
    ('crypto/ciphers.py',
     "        exporter_master = derive_master_secret(b'exp master')\n",
     "        exporter_master = derive_master_secret(\n"
     "            b'exp master', transcript_hash=client_finished_transcript_hash)\n"),
    demo='''
import kit, logging
from siotls import key_logger

lines = []
class H(logging.Handler):
    def emit(self, record):
        lines.append(record.getMessage().split())
key_logger.addHandler(H())
key_logger.setLevel(logging.INFO)
conn = kit.server(log_keys=True)
peer = kit.ref_to_server(conn)
kit.ref_pump(conn, peer)
secrets = {label: bytes.fromhex(secret) for label, _, secret in lines}
kit.need(secrets['CLIENT_TRAFFIC_SECRET_0'] == peer.sched.c_ap, 'client traffic secret')
import hashlib, hmac, ref13
h = peer.suite.hash
want = ref13.expand_label(h, peer.sched.master, 'exp master', peer.th_sfin, hashlib.new(h).digest_size)
kit.need(secrets['EXPORTER_SECRET'] == want, 'exporter secret')
''')

bug('log-without-request', 'C10',
    'a connection which did not ask for key logging, in a process where another one did',
    'the secrets of all the connections are written as soon as the key log has a handler',
    ('crypto/ciphers.py',
     "        self._client_unique_hex = client_unique.hex() if log_keys else ''\n",
     "        self._client_unique_hex = (\n"
     "            client_unique.hex() if log_keys or key_logger.hasHandlers() else '')\n"),
    demo='''
import kit, logging
from siotls import key_logger

lines = []
class H(logging.Handler):
    def emit(self, record):
        lines.append(record.getMessage())
key_logger.addHandler(H())
key_logger.setLevel(logging.INFO)
kit.connected()
kit.need(not lines, lines[:1])
kit.connected({'log_keys': True})
kit.need(len(lines) == len({x.split()[0] for x in lines}) == 5, lines)
''')

bug('close-reopens', 'C11',
    'closing both ways: the peer closes first, then this side',
    'the connection is connected again after its second close, and a repeated close sends close_notify again',
    ('connection.py',
     "        if not isinstance(self._state, states.Closed | states.Failed):\n            self._move_to_state(states.Closed)\n        if self._state.can_send:\n",
     "        if not isinstance(self._state, states.Failed):\n            self._move_to_state(states.Closed)\n        if self._state.can_send:\n"),
    demo='''
import kit

c, s = kit.connected()
c.close_sending_end()
kit.pump(c, s)
kit.need(not s.is_connected() and c.is_connected(), 'after the first close')
s.close_sending_end()
kit.need(not s.is_connected(), 'connected after both closes')
n = len(s.data_to_send())
s.close_sending_end()
kit.need(n and not s.data_to_send(), 'close_notify sent twice')
''')

bug('failed-can-send', 'C12',
    'closing a connection which failed already',
    'a failed connection sends a close_notify after its fatal alert',
    ('states/failed.py', "    can_send = False\n    can_send_application_data = False\n",
     "    can_send = True  # for the alert\n    can_send_application_data = False\n"),
    demo='''
import kit

c, s = kit.connected()
errors = []
kit.give(s, b'\\x17\\x03\\x03\\x00\\x20' + bytes(32), errors)
kit.need(errors, 'no error')
alert = s.data_to_send()
kit.need(len(kit.split_records(alert)) == 1, 'one alert')
s.close_sending_end()
s.close_receiving_end()
kit.need(not s.data_to_send(), 'a failed connection speaks')
''')

bug('cert-request-context', 'C13',
    'a certificate request with a non-empty context, as used after the handshake',
    'the context is lost when the message is decoded',
    ('contents/handshakes/certificate_request.py',
     "            return cls(certificate_request_context, extensions)\n",
     "            return cls(certificate_request_context[:0], extensions)\n"),
    demo='''
import kit
from siotls.contents import Content
from siotls.contents.handshakes import CertificateRequest
from siotls.contents.handshakes.extensions import SignatureAlgorithms
from siotls.iana import ContentType, SignatureScheme
from siotls.serial import SerialIO

for context in (b'', b'post'):
    wire = CertificateRequest(context, [SignatureAlgorithms([SignatureScheme.ed25519])]).serialize()
    back = Content.get_parser(ContentType.HANDSHAKE).parse(SerialIO(wire), config=None, nconfig=None)
    kit.need(back.serialize() == wire and back.certificate_request_context == context, context)
''')

bug('hkdf-chain', 'C14',
    'an output longer than twice the digest',
    'every block of HKDF-Expand is chained to the first one',
    ('crypto/hkdf.py',
     "        msg = b''.join((t[i - 1], info, i.to_bytes(1, 'big')))\n",
     "        msg = b''.join((t[i > 1], info, i.to_bytes(1, 'big')))\n"),
    demo='''
import hashlib, kit
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.kdf.hkdf import HKDFExpand
from siotls.crypto.hkdf import hkdf_expand

for n in (16, 32, 48, 64, 65, 96, 200):
    want = HKDFExpand(hashes.SHA256(), n, b'info').derive(b'k' * 32)
    kit.need(hkdf_expand(hashlib.sha256, b'k' * 32, b'info', n) == want, f'{n} bytes')
''')

bug('aes256-usage-limit', 'C15',
    'a connection which protects more than 2^24 records with AES-256-GCM',
    'the limit of the suite is above the 2^24.5 records of RFC 8446',
    ('crypto/ciphers.py',
     "    block_size = 16\n    key_length = 32\n    tag_length = 16\n    nonce_length = 12\n    usage_limit = int(2 ** 23.5)\n",
     "    block_size = 16\n    key_length = 32\n    tag_length = 16\n    nonce_length = 12\n    usage_limit = int(2 ** 25)\n"),
    demo='''
import kit
from siotls.crypto import TLSCipherSuite
from siotls.iana import CipherSuites

for suite in (CipherSuites.TLS_AES_128_GCM_SHA256, CipherSuites.TLS_AES_256_GCM_SHA384):
    cipher = TLSCipherSuite[suite]('client', bytes(32), log_keys=False)
    class Mute:
        def __init__(self, key): pass
        def encrypt(self, nonce, data, aad): return b''
    type(cipher)._ciphermod, keep = Mute, type(cipher)._ciphermod
    cipher.skip_early_secrets()
    cipher.derive_handshake_secrets(b'x' * 32, b'y' * cipher.digestmod().digest_size)
    n = 0
    try:
        while n < 2 ** 24.5 + 10:
            cipher.encrypt(b'', b'')
            n += 1
    except Exception:
        pass
    kit.need(n <= 2 ** 24.5, f'{suite!r}: {n} records')
''')

bug('hrr-shared-config', 'C16',
    'a HelloRetryRequest, then another connection of the same configuration',
    "the retry narrows the lists of the shared configuration: later clients can only use the first client's choices",
    ('states/server/wait_client_hello.py',
     "        self.config = dataclasses.replace(self.config,\n"
     "            cipher_suites=[self._cipher.iana_id],\n"
     "            key_exchanges=[self.nconfig.key_exchange],\n"
     "            signature_algorithms=[self._signature.iana_id]\n"
     "        )\n",
     "        self.config.cipher_suites[:] = [self._cipher.iana_id]\n"
     "        self.config.key_exchanges[:] = [self.nconfig.key_exchange]\n"
     "        self.config.signature_algorithms[:] = [self._signature.iana_id]\n"),
    demo='''
import kit
from siotls import TLSConnection
from siotls.iana import CipherSuites, NamedGroup

config = kit.server_config(key_exchanges=[NamedGroup.secp256r1, NamedGroup.x25519])
for groups in ([0x1d, 0x17], [0x1d]):
    conn = TLSConnection(config)
    peer = kit.ref_to_server(conn, groups=groups, shares=[0x1d])
    try:
        kit.ref_pump(conn, peer)
    except Exception as exc:
        kit.fail(f'{groups}: {exc!r}')
    kit.need(peer.connected, groups)
''')

bug('cached-x-key', 'C16',
    'two connections of one process',
    'the X25519 and X448 key pairs are made once and reused by all the connections',
    ('crypto/key_exchanges.py',
     "class _XMixin:\n    @classmethod\n    def init(cls):\n        private_key = cls.PrivateKey.generate()\n",
     "class _XMixin:\n    @classmethod\n    def init(cls, _pairs={}):\n        if cls not in _pairs:\n"
     "            _pairs[cls] = cls.PrivateKey.generate()\n        private_key = _pairs[cls]\n"),
    demo='''
import kit, ref13
from siotls.iana import NamedGroup

for group in (NamedGroup.x25519, NamedGroup.x448, NamedGroup.secp256r1):
    shares = set()
    for _ in range(3):
        c = kit.client(key_exchanges=[group])
        c.initiate_connection()
        hello = ref13.parse_client_hello(bytes(c.data_to_send())[9:])
        shares.update(share for _, share in hello['shares'])
    kit.need(len(shares) == 3, f'{group!r}: {len(shares)} shares')
''')

bug('wrapper-alert-lost', 'C17',
    'an error while reading from a wrapped socket, then the application closes it',
    'the alert of the error is not flushed before the exception reaches the caller',
    ('wrapper.py',
     "                try:\n                    self.conn.receive_data(input_data)\n"
     "                finally:\n                    if output_data := self.conn.data_to_send():\n"
     "                        self.sock.sendall(output_data)\n                application_data",
     "                self.conn.receive_data(input_data)\n"
     "                if output_data := self.conn.data_to_send():\n"
     "                        self.sock.sendall(output_data)\n                application_data"),
    demo='''
import kit, socket, threading

a, b = socket.socketpair()
for sock in (a, b):
    sock.settimeout(5)
c, s = kit.client(), kit.server()
ws, wc = s.wrap(b), c.wrap(a)
t = threading.Thread(target=ws.do_handhskake)
t.start()
wc.do_handhskake()
t.join()
a.sendall(b'\\x17\\x03\\x03\\x00\\x20' + bytes(32))
try:
    ws.read()
except Exception as exc:
    print(repr(exc))
else:
    kit.fail('no error')
b.close()
try:
    wc.read()
except Exception as exc:
    if 'BadRecordMac' not in repr(exc):
        kit.fail(repr(exc))
else:
    kit.fail('the peer got no alert')
''')

bug('wrapper-buffered', 'C17',
    'application data which arrives together with the last bytes of the handshake',
    'read() waits for more bytes although data is readable already',
    ('wrapper.py',
     "        application_data = self.conn.data_to_read()\n        while",
     "        application_data = bytearray()\n        while"),
    demo='''
import kit, socket, ref13

a, b = socket.socketpair()
a.settimeout(5)
b.settimeout(2)
conn = kit.server()
ws = conn.wrap(b)
peer = ref13.RefClient()
peer.start()
import threading
t = threading.Thread(target=ws.do_handhskake)
t.start()
while not peer.connected:
    out = peer.out()
    if out:
        a.sendall(out)
    peer.feed(a.recv(16384))
peer.send_app(b'at once')
a.sendall(peer.out())     # Finished and data in a single segment
t.join()
try:
    got = ws.read()
except TimeoutError:
    kit.fail('read() waits')
kit.need(got == b'at once', got)
''')

bug('cache-one-more', 'C18',
    'the 65th cached status',
    'the cache keeps 65 entries',
    ('ocsp_over_http.py',
     "    while len(_cache_limits) >= CACHE_ENTRIES:\n",
     "    while len(_cache_limits) > CACHE_ENTRIES:\n"),
    demo='''
import kit
from datetime import datetime, timedelta
from siotls import ocsp_over_http

t = datetime.utcnow() + timedelta(hours=1)
for i in range(70):
    ocsp_over_http.cache(t + timedelta(seconds=i), b'req%d' % i, b'res%d' % i)
hits = 0
for i in range(70):
    try:
        hits += ocsp_over_http.request('ftp://nowhere/', b'req%d' % i) == b'res%d' % i
    except ValueError:
        pass
kit.need(hits == 64, f'{hits} entries')
''')

bug('hrr-unoffered-group', 'C20',
    "a server which asks for a group the client didn't offer but knows",
    'the client sends a share for a group it was configured not to use',
    ('states/client/wait_server_hello.py',
     "        if key_share.selected_group not in self.config.key_exchanges:\n",
     "        if key_share.selected_group not in TLSKeyExchange._registry:\n"),
    demo='''
import kit, ref13
from siotls.iana import NamedGroup

for group, good in ((0x17, True), (0x18, False), (0x100, False)):
    conn = kit.client(key_exchanges=[NamedGroup.x25519, NamedGroup.secp256r1])
    peer = kit.ref_server(hrr_group=group, lenient=True)
    errors = []
    try:
        kit.ref_to_client(conn, peer, errors)
    except ref13.RefError:
        pass
    kit.need(conn.is_connected() == good, f'{group:#x}: {conn.is_connected()}')
    kit.need(good or len(peer.chs) == 1, f'{group:#x}: second hello')
''')

bug('bad-finished-alert', 'C21',
    'a client whose Finished is wrong',
    'the server reports handshake_failure instead of decrypt_error',
    ('states/server/wait_finished.py',
     "            raise alerts.DecryptError from exc\n",
     "            raise alerts.HandshakeFailure from exc\n"),
    demo='''
import kit, ref13

conn = kit.server()
peer = kit.ref_to_server(conn, script={'FIN': lambda p, m: [m[:-1] + bytes([m[-1] ^ 1])]})
errors = []
try:
    kit.ref_pump(conn, peer, errors)
except ref13.RefError:
    pass
kit.need([type(e).__name__ for e in errors] == ['DecryptError'], errors)
''')

bug('eof-in-handshake', 'C22',
    'a client which disconnects in the middle of the handshake',
    'the handshake loop of the server spins forever and no other client is served',
    ('connection.py',
     "            logger.warning(\"EOF or CloseNotify alert during handshake\")\n            self._fail()\n            return\n",
     "            logger.warning(\"EOF or CloseNotify alert during handshake\")\n            return\n"),
    demo='''
import kit, socket, subprocess, sys, time, os

import tempfile, pki
from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat

port = 20000 + os.getpid() % 20000
host = '127.77.1.%d' % (os.getpid() % 250 + 1)
tmp = tempfile.TemporaryDirectory()
leaf = pki.leaf()
with open(tmp.name + '/chain.pem', 'wb') as f:
    for n in pki.chain(leaf):
        f.write(n.cert.public_bytes(Encoding.PEM))
with open(tmp.name + '/key.pem', 'wb') as f:
    f.write(leaf.key.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
srv = subprocess.Popen([sys.executable, '-B', '-m', 'siotls', 'server', '--host', host, '--port', str(port),
                        '--tlscert', tmp.name + '/chain.pem', '--tlskey', tmp.name + '/key.pem'],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    for _ in range(100):
        try:
            sock = socket.create_connection((host, port), timeout=1)
            break
        except OSError:
            time.sleep(.1)
    else:
        kit.fail('not listening')
    c = kit.client()
    c.initiate_connection()
    sock.sendall(c.data_to_send())
    sock.settimeout(5)
    sock.recv(100000)
    time.sleep(.2)
    sock.setblocking(False)
    try:
        sock.recv(100000)
    except OSError:
        pass
    sock.shutdown(socket.SHUT_WR)
    time.sleep(.3)
    sock.close()
    time.sleep(.3)
    sock = socket.create_connection((host, port), timeout=5)
    c = kit.client(trust_store=None)
    try:
        with c.wrap(sock) as tls:
            tls.write(b'GET / HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\n\\r\\n')
            got = tls.read()
    except OSError as exc:
        kit.fail(repr(exc))
    kit.need(got.startswith(b'HTTP/1.1 200'), got[:40])
finally:
    srv.kill()
    srv.wait()
''')

bug('sigalg-client-order', 'C02',
    'a server whose key fits several schemes, which prefers them in another order than the client',
    "the server follows the client's order of signature schemes instead of its own",
    ('states/server/wait_client_hello.py',
     "        for server_suite in self.config.signature_algorithms:\n"
     "            if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:\n",
     "        for server_suite in sa_ext.supported_signature_algorithms:\n"
     "            if server_suite in suites and server_suite in self.config.signature_algorithms:\n"),
    demo='''
import kit, pki
from cryptography.hazmat.primitives.asymmetric import rsa
from siotls.iana import SignatureScheme as S

key = rsa.generate_private_key(65537, 2048)
leaf = pki.make('rsa server', key, pki.root(), sans=[kit.HOST])
c, s = kit.connected(
    {'signature_algorithms': [S.ed25519, S.rsa_pss_rsae_sha512, S.rsa_pss_rsae_sha256]},
    {'leaf': leaf, 'signature_algorithms': [S.rsa_pss_rsae_sha256, S.rsa_pss_rsae_sha512]})
kit.need(c.nconfig.signature_algorithm == s.nconfig.signature_algorithm == S.rsa_pss_rsae_sha256,
         c.nconfig.signature_algorithm)
''')

bug('ffdhe-stripped-secret', 'C14',
    'a finite field exchange whose shared secret starts with a zero byte, against another implementation',
    'the leading zeros of the shared secret are dropped, as in TLS 1.2',
    ('crypto/key_exchanges.py',
     "        shared_key = private_key.exchange(pubkey)\n",
     "        shared_key = private_key.exchange(pubkey).lstrip(b'\\x00')\n"),
    demo='''
import kit, ref13
from siotls.crypto import TLSKeyExchange
from siotls.iana import NamedGroup

group = TLSKeyExchange[NamedGroup.ffdhe2048]
for _ in range(3):
    priv, mine = group.init()
    x = priv.private_numbers().x
    y = 2
    while True:       # a share for which the secret is short
        y += 1
        shared = pow(pow(y, 2, group.p), x, group.p)
        if shared < 1 << 2040:
            break
    got = group.resume(priv, pow(y, 2, group.p).to_bytes(256, 'big').rjust(256, b'\\x00')) \\
        if pow(y, 2, group.p) > 1 << 1900 else None
    if got is None:   # too short a share is refused on purpose: blind it
        import secrets
        while True:
            h = pow(secrets.randbelow(group.p), 2, group.p)
            shared = pow(h, x, group.p)
            if shared < 1 << 2040 and h > 1 << 2000:
                break
        got = group.resume(priv, h.to_bytes(256, 'big'))
    kit.need(got == shared.to_bytes(256, 'big'), f'{len(got)} bytes')
''')

