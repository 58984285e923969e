""" Planted bugs, second batch. """
BUGS = []


def bug(id, property, needs, breaks, *edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks,
                 'edits': edits, 'demo': demo})


bug('retry-avoided', 'C02',
    'a client which offers two groups of the server and only shares a key for the one the server likes less',
    'the server takes the shared group instead of its first choice',
    ('states/server/wait_client_hello.py',
     "        key_exchange = self.nconfig.key_exchange\n        if key_share_ext and key_exchange in key_share_ext.client_shares:\n",
     "        shared = key_share_ext.client_shares if key_share_ext else {}\n"
     "        key_exchange = self.nconfig.key_exchange = next(\n"
     "            (g for g in self.config.key_exchanges if g in shared),\n"
     "            self.nconfig.key_exchange)\n"
     "        if key_share_ext and key_exchange in key_share_ext.client_shares:\n"),
    demo='''
import kit
from siotls.iana import NamedGroup

conn = kit.server(key_exchanges=[NamedGroup.secp256r1, NamedGroup.x25519])
peer = kit.ref_to_server(conn, groups=[0x1d, 0x17], shares=[0x1d])
kit.ref_pump(conn, peer)
kit.need(peer.connected and conn.nconfig.key_exchange == 0x17, conn.nconfig.key_exchange)
''')

bug('ocsp-aia-first', 'C06',
    'a certificate which tells where its issuer is before it tells where its status is',
    'the status is requested at the url of the issuer: a legitimate server is refused',
    ('crypto/ocsp.py',
     "            if access_description.access_method == OCSP\n",
     "            if access_description.access_location.value.startswith('http')\n"),
    demo='''
import kit, pki
from datetime import timedelta
from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.x509.oid import AuthorityInformationAccessOID as O
from siotls.crypto import ocsp

key = pki.leaf().key
def certificate(*urls):
    b = x509.CertificateBuilder().subject_name(x509.Name([])).issuer_name(x509.Name([])).serial_number(5)
    b = b.public_key(key.public_key()).not_valid_before(pki.now()).not_valid_after(pki.now() + timedelta(hours=1))
    b = b.add_extension(x509.AuthorityInformationAccess(
        [x509.AccessDescription(o, x509.UniformResourceIdentifier(u)) for o, u in urls]), False)
    return b.sign(pki.root().key, hashes.SHA256())

a, b = (O.CA_ISSUERS, 'http://issuer.test/'), (O.OCSP, 'http://status.test/')
for urls in ([b], [b, a], [a, b]):
    got = ocsp.get_ocsp_url(certificate(*urls))
    kit.need(got == b[1], got)
kit.need(ocsp.get_ocsp_url(certificate(a)) is None, 'the url of the issuer')
''')

bug('policy-time-frozen', 'C05',
    'a certificate which expires between two connections of one configuration',
    'the validity is judged at the time of the first connection of the configuration',
    ('configuration.py',
     "            PolicyBuilder()\n            .store(self.trust_store)\n",
     "            PolicyBuilder(time=datetime.datetime.now(datetime.UTC), store=self.trust_store)\n"),
    ('configuration.py', "import dataclasses\nimport functools\n", "import dataclasses\nimport datetime\nimport functools\n"),
    demo='''
import kit, pki, time
from datetime import timedelta

config = kit.client_config()
from siotls import TLSConnection

def attempt(leaf):
    c = TLSConnection(config, server_hostname=kit.HOST)
    s = kit.server(leaf)
    errors = []
    kit.start(c, s)
    kit.pump(c, s, errors)
    return c.is_connected(), errors

key = pki.key('p256', 77)
leaf = pki.make('short-lived', key, pki.root(), sans=[kit.HOST], after=pki.now() + timedelta(seconds=4))
ok, errors = attempt(leaf)
kit.need(ok, errors)
time.sleep(6)
ok, errors = attempt(leaf)
kit.need(not ok, 'an expired certificate is accepted')
''')

bug('heartbeat-interleaved', 'C08',
    'a heartbeat in between the two records of a handshake message',
    'the heartbeat is accepted inside the message',
    ('connection.py',
     "            if content_type != ContentType.HANDSHAKE:\n                if self._input_handshake:\n",
     "            if content_type == ContentType.HEARTBEAT:\n                return content_type, fragment\n"
     "            elif content_type != ContentType.HANDSHAKE:\n                if self._input_handshake:\n"),
    demo='''
import kit, ref13

def fin(p, msg):
    return [('record', ref13.HANDSHAKE, msg[:9]), ('record', ref13.HEARTBEAT, b'\\x01\\x00\\x01x' + bytes(16)),
            ('record', ref13.HANDSHAKE, msg[9:])]

conn = kit.server()
peer = kit.ref_to_server(conn, script={'FIN': fin})
errors = []
try:
    kit.ref_pump(conn, peer, errors)
except ref13.RefError:
    pass
kit.need(not conn.is_connected() and errors, 'connected')
''')

bug('close-not-answered', 'C11',
    'the peer closes first',
    'the own close_notify is not sent anymore, the peer sees a truncation',
    ('connection.py',
     "        if self._state.can_send:\n            self._send_content(alerts.CloseNotify())\n            self._state.can_send = False\n",
     "        if self._state.can_send:\n            if self._state.can_receive:\n                self._send_content(alerts.CloseNotify())\n"
     "            self._state.can_send = False\n"),
    demo='''
import kit

for first in (0, 1):
    c, s = kit.connected()
    a, b = (c, s) if first else (s, c)
    a.close_sending_end()
    kit.pump(c, s)
    kit.need(not b.is_connected() and a.is_connected(), 'half closed')
    b.close_sending_end()
    data = bytes(b.data_to_send())
    kit.need(data, 'no close_notify')
    a.receive_data(data)
    kit.need(not a.is_connected(), 'still connected')
''')

bug('batch-of-64', 'C03',
    'more than 64 records received at once, and then silence',
    'what follows the 64th record of a chunk stays unread until more is received',
    ('connection.py',
     "                next_content = self._read_next_content()\n                if not next_content:\n",
     "                next_content = self._read_next_content() if room else None\n                if not next_content:\n"),
    ('connection.py',
     "                stream = SerialIO(content_data)\n",
     "                stream = SerialIO(content_data)\n                room -= 1\n"),
    ('connection.py',
     "        self._input_data += data\n",
     "        self._input_data += data\n        room = 64\n"),
    demo='''
import kit

c, s = kit.connected()
for i in range(70):
    c.send_data(b'%3d' % i)
s.receive_data(bytes(c.data_to_send()))
got = bytes(s.data_to_read())
kit.need(len(got) == 210, f'{len(got)} bytes instead of 210')
''')

bug('lost-record-skipped', 'C04',
    'a record is lost and the next one is received',
    'the next record is accepted in its place, the loss is not detected',
    ('crypto/ciphers.py',
     "            return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)\n",
     "            try:\n"
     "                return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)\n"
     "            except InvalidTag:\n"
     "                return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)\n"),
    demo='''
import kit

c, s = kit.connected()
c.send_data(b'one')
lost = c.data_to_send()
c.send_data(b'two')
errors = []
kit.give(s, c.data_to_send(), errors)
kit.need(errors and not s.data_to_read() and not s.is_connected(), 'a lost record')
''')

bug('unknown-share-dropped', 'C13',
    'a key share for a group siotls has no name for',
    'the share is lost when the extension is decoded',
    ('contents/handshakes/extensions/key_share.py',
     "            if key_exchange in client_shares:\n",
     "            if not isinstance(key_exchange, NamedGroup):\n                continue\n            if key_exchange in client_shares:\n"),
    ('contents/handshakes/extensions/key_share.py',
     "                e = \"cannot share different keys for a same group\"\n",
     "                e = \"cannot share different keys for one group\"\n"),
    demo='''
import kit
from siotls.contents.handshakes.extensions import Extension
from siotls.iana import HandshakeType
from siotls.serial import SerialIO

for body in (b'\\x00\\x1d\\x00\\x02ab', b'\\x0a\\x0a\\x00\\x01\\x00\\x00\\x1d\\x00\\x02ab', b'\\x0a\\x0a\\x00\\x01\\x00'):
    data = b'\\x00\\x33' + (len(body) + 2).to_bytes(2, 'big') + len(body).to_bytes(2, 'big') + body
    e = Extension.parse(SerialIO(data), handshake_type=HandshakeType.CLIENT_HELLO)
    kit.need(bytes(e.serialize()) == data, f'{data.hex()} -> {e.serialize().hex()}')
''')

bug('srtp-mki', 'C13',
    'a use_srtp extension with an mki',
    'the mki is read as long as the list of profiles',
    ('contents/handshakes/extensions/use_srtp.py',
     "        mki = stream.read_var(1)\n",
     "        mki = stream.read_var(1, maxlen=len(protection_profiles) * 2)\n"),
    demo='''
import kit
from siotls.contents.handshakes.extensions import Extension
from siotls.iana import HandshakeType
from siotls.serial import SerialIO

for mki in (b'', b'a', b'abcdefg', bytes(255)):
    body = b'\\x00\\x02\\x00\\x01' + bytes([len(mki)]) + mki
    data = b'\\x00\\x0e' + len(body).to_bytes(2, 'big') + body
    try:
        e = Extension.parse(SerialIO(data), handshake_type=HandshakeType.CLIENT_HELLO)
    except Exception as exc:
        kit.fail(f'{len(mki)}: {exc!r}')
    kit.need(bytes(e.mki) == mki and bytes(e.serialize()) == data, mki)
''')

bug('entries-cached', 'C16',
    'a server configuration with a status service, used for a client which wants the status and then for one which does not',
    'the certificate entries are made once per configuration, the status stapled for one client is sent to the others',
    ('states/server/wait_client_hello.py',
     "            certificate_list.extend([\n                X509(certificate, [])\n                for certificate\n"
     "                in self.config.certificate_chain\n            ])\n",
     "            if 'x509_entries' not in vars(self.config):\n"
     "                vars(self.config)['x509_entries'] = [\n"
     "                    X509(certificate, [])\n"
     "                    for certificate\n"
     "                    in self.config.certificate_chain\n"
     "                ]\n"
     "            certificate_list.extend(self.config.x509_entries)\n"),
    demo='''
import kit, pki, ref13
from datetime import timedelta
from siotls import TLSConnection

leaf = pki.leaf(via='inter', ocsp_url='http://127.0.0.2:9/')
chain = pki.chain(leaf)

class Service:
    def request(self, url, req):
        return pki.ocsp_response(leaf, chain[1])
    def cache(self, *a):
        pass
    def uncache(self, *a):
        pass

config = kit.server_config(leaf)
def entries(status):
    conn = TLSConnection(config, ocsp_service=Service())
    peer = kit.ref_to_server(conn, status=status)
    peer.check_cert = lambda p, entries: seen.append(bool(entries[0][1]))
    seen = []
    try:
        kit.ref_pump(conn, peer)
    except ref13.RefError:
        pass
    kit.need(seen, 'no certificate')
    return seen[0]

kit.need(not entries(False), 'unasked')
kit.need(entries(True), 'no status')
kit.need(not entries(False), 'stapled to a client which did not ask')
''')

bug('read-empty-after-ticket', 'C17',
    'a session ticket (or a heartbeat) which comes before the data',
    'read() returns nothing, which means the end of the stream, while the connection goes on',
    ('wrapper.py',
     "        while self.conn.is_connected() and not application_data:\n",
     "        if self.conn.is_connected() and not application_data:\n"),
    demo='''
import kit, ref13, socket, threading

a, b = socket.socketpair()
a.settimeout(10)
b.settimeout(10)
peer = kit.ref_server()
def serve():
    while not peer.connected:
        data = b.recv(65536)
        if not data:
            return
        peer.feed(data)
        b.sendall(peer.out())
    peer.put(ref13.HANDSHAKE, ref13.hs(ref13.NST, ref13.u32(7) + ref13.u32(8) + ref13.v8(b'n') + ref13.v16(b'ticket') + ref13.v16(b'')))
    b.sendall(peer.out())
    import time
    time.sleep(.5)
    peer.send_app(b'hello')
    b.sendall(peer.out())

t = threading.Thread(target=serve, daemon=True)
t.start()
conn = kit.client()
ws = conn.wrap(a)
ws.do_handhskake()
got = bytes(ws.read())
kit.need(got == b'hello', got)
''')

bug('cache-local-time', 'C18',
    'a machine whose time zone is not UTC',
    'the end of validity, in UTC, is compared with the local time: expired statuses are used for hours',
    ('ocsp_over_http.py',
     "        if datetime.utcnow() < cached_until:  # noqa: DTZ003\n",
     "        if datetime.now() < cached_until:  # noqa: DTZ005\n"),
    demo='''
import kit, os, time
os.environ['TZ'] = 'XXX+5'      # five hours behind
time.tzset()
from datetime import datetime, timedelta, timezone
from siotls import ocsp_over_http

t = datetime.now(timezone.utc).replace(tzinfo=None)
ocsp_over_http.cache(t - timedelta(hours=1), b'old', b'expired')
ocsp_over_http.cache(t + timedelta(hours=1), b'new', b'valid')
kit.need(ocsp_over_http.request('ftp://nowhere/', b'new') == b'valid', 'valid')
try:
    got = ocsp_over_http.request('ftp://nowhere/', b'old')
except ValueError:
    pass
else:
    kit.fail(got)
''')

bug('cookie-dropped', 'C20',
    'a retry whose cookie is longer than a few hundred bytes',
    'the client does not send the cookie back',
    ('states/client/start.py',
     "        if self._cookie:\n",
     "        if self._cookie and len(self._cookie) < 2 ** 8:\n"),
    demo='''
import kit, ref13
from siotls.iana import NamedGroup

for n in (1, 32, 255, 256, 3000):
    cookie = bytes(range(256)) * 12
    conn = kit.client(key_exchanges=[NamedGroup.x25519, NamedGroup.secp256r1])
    peer = kit.ref_server(hrr_group=0x17, cookie=cookie[:n], lenient=True)
    try:
        kit.ref_to_client(conn, peer)
    except ref13.RefError as exc:
        kit.fail(f'{n}: {exc}')
    got = dict(peer.chs[1]['exts']).get(ref13.X_COOKIE)
    kit.need(got == ref13.v16(cookie[:n]), f'{n}: {got}')
''')

bug('bad-share-alert', 'C21',
    'a server whose key share is not a point of the curve',
    'the client reports handshake_failure instead of illegal_parameter',
    ('states/client/wait_server_hello.py',
     "                e = \"error while resuming key share\"\n                raise alerts.IllegalParameter(e) from exc\n",
     "                e = \"error while resuming key share\"\n                raise alerts.HandshakeFailure(e) from exc\n"),
    demo='''
import kit, ref13
from siotls.iana import NamedGroup

conn = kit.client(key_exchanges=[NamedGroup.secp256r1])
peer = kit.ref_server(groups=[0x17], script={'SH': lambda p, m: [
    ref13.sh_with(m, exts={ref13.X_KEYSHARE: ref13.u16(0x17) + ref13.v16(b'\\x04' + bytes(63) + b'\\x01')})]})
errors = []
try:
    kit.ref_to_client(conn, peer, errors)
except ref13.RefError:
    pass
kit.need([type(e).__name__ for e in errors] == ['IllegalParameter'], errors)
''')

bug('http-date', 'C22',
    'a time given with a time zone which is not the one of the machine',
    'the Date header is not the GMT of that time',
    ('utils.py',
     "        date=format_date_time(now.timestamp() if now else time.time()),\n",
     "        date=format_date_time(now.replace(tzinfo=None).timestamp() if now else time.time()),\n"),
    demo='''
import kit
from datetime import datetime, timedelta, timezone
from siotls.utils import make_http11_response

t = datetime(2024, 5, 6, 7, 8, 9, tzinfo=timezone.utc)
want = 'Date: Mon, 06 May 2024 07:08:09 GMT\\r\\n'
for hours in (0, 5, -8):
    res = make_http11_response(200, '', now=t.astimezone(timezone(timedelta(hours=hours))))
    kit.need(want in res, f'{hours}: {res.splitlines()[1]}')
''')

bug('one-ccs', 'C01',
    'a peer which sends two change_cipher_spec records in a row',
    'the second is refused and the handshake fails',
    ('connection.py',
     "        while startswith_change_cipher_spec(self._input_data):\n",
     "        if startswith_change_cipher_spec(self._input_data):\n"),
    demo='''
import kit, ref13

ccs = b'\\x14\\x03\\x03\\x00\\x01\\x01'
conn = kit.server()
peer = kit.ref_to_server(conn, script={'FIN': lambda p, m: [('raw', ccs), ('raw', ccs), m]})
try:
    kit.ref_pump(conn, peer)
except Exception as exc:
    kit.fail(repr(exc))
kit.need(conn.is_connected() and peer.connected, 'no connection')
''')

bug('finished-unchecked-cr', 'C05',
    'a server which asks for a client certificate and whose Finished is wrong',
    'the Finished of such a server is not verified',
    ('states/client/wait_finished.py',
     "            self._cipher.verify_finish(\n                self._certificate_verify_transcript_hash,\n"
     "                content.verify_data\n            )\n",
     "            self._must_authentify or self._cipher.verify_finish(\n                self._certificate_verify_transcript_hash,\n"
     "                content.verify_data\n            )\n"),
    demo='''
import kit, ref13

request = ref13.ext(ref13.X_SIGALGS, ref13.list16([0x0403, 0x0804]))
for cr in (None, request):
    conn = kit.client()
    peer = kit.ref_server(cert_request=cr, script={'FIN': lambda p, m: [m[:-1] + bytes([m[-1] ^ 1])]})
    errors = []
    try:
        kit.ref_to_client(conn, peer, errors)
    except ref13.RefError:
        pass
    kit.need(not conn.is_connected() and errors, f'{cr}: connected')
''')

bug('client-early-appdata', 'C08',
    'application data in between the CertificateVerify and the Finished of a server',
    'it is delivered although the handshake is not verified',
    ('states/client/wait_finished.py',
     "            super().process(content)\n            return\n",
     "            if content.content_type != ContentType.APPLICATION_DATA:\n"
     "                return super().process(content)\n"
     "            self._application_data.extend(content.content_data)\n"
     "            return\n"),
    demo='''
import kit, ref13

conn = kit.client()
peer = kit.ref_server(script={'FIN': lambda p, m: [('record', ref13.APPDATA, b'soon'), m]})
errors = []
try:
    kit.ref_to_client(conn, peer, errors)
except ref13.RefError:
    pass
kit.need(errors and not conn.is_connected(), 'accepted')
kit.need(not conn.data_to_read(), 'delivered')
''')

bug('resumption-secret-logged', 'C10',
    'a connection whose keys are logged',
    'the resumption secret is logged as the exporter secret',
    ('crypto/ciphers.py',
     "            key_logger.info(\"EXPORTER_SECRET %s %s\",\n                self._client_unique_hex, exporter_master.hex())\n",
     "            key_logger.info(\"EXPORTER_SECRET %s %s\",\n                self._client_unique_hex, resumption_master.hex())\n"),
    demo='''
import kit, ref13, logging
from siotls import key_logger

lines = []
class H(logging.Handler):
    def emit(self, record):
        lines.append(record.getMessage())
key_logger.addHandler(H())
key_logger.setLevel(logging.DEBUG)
conn = kit.server(log_keys=True)
peer = kit.ref_to_server(conn)
kit.ref_pump(conn, peer)
got = [line.split()[2] for line in lines if line.startswith('EXPORTER_SECRET')]
kit.need(got == [peer.sched.exp.hex()], got)
''')

