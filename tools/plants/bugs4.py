""" Planted bugs, fourth batch. """
BUGS = []

SYSTEM = '''
import kit
import builtins, contextlib, io, os, platform, tempfile
from cryptography.hazmat.primitives.serialization import Encoding
from siotls.trust_store import get_system_store

ROOT = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, ROOT, True)
for path, data in (('/etc/os-release', b"""%(lines)s\\n"""),
                   ('%(path)s', kit.pki.root().cert.public_bytes(Encoding.PEM))):
    os.makedirs(os.path.dirname(ROOT + path), exist_ok=True)
    with open(ROOT + path, 'wb') as f:
        f.write(data)

@contextlib.contextmanager
def machine(root):
    """ What is opened under /etc is looked up in a scratch directory. """
    real = io.open
    def fake(file, *a, **kw):
        path = os.fspath(file) if isinstance(file, (str, os.PathLike)) else file
        if isinstance(path, str) and path.startswith(('/etc/', '/usr/lib/os-release')):
            path = root + path
        return real(path, *a, **kw)
    builtins.open = io.open = fake
    platform._os_release_cache = None
    try:
        yield
    finally:
        builtins.open = io.open = real
        platform._os_release_cache = None
'''


def bug(id, property, needs, breaks, *edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks,
                 'edits': edits, 'demo': demo})


bug('keys-only-in', 'C23',
    'a server which only trusts raw public keys, and a client which has none to show',
    'the client is let in without authentication',
    ('states/server/wait_client_hello.py',
     "        if self.config.require_peer_authentication:\n            self._move_to_state(ServerWaitFlight2",
     "        if self.config.trust_store:\n            self._move_to_state(ServerWaitFlight2"),
    demo='''
import kit
from kit import ref13
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey

key = Ed25519PrivateKey.generate().public_key()
conn = kit.server(trusted_public_keys=[key])
peer = ref13.RefClient(client_cert_types=(2, 0), lenient=True,
                       script={'CERT': lambda p, m: []})
errors = []
conn.initiate_connection()
peer.start()
for _ in range(6):
    out = peer.out()
    if out:
        kit.give(conn, out, errors)
    back = conn.data_to_send()
    if back:
        try:
            peer.feed(back)
        except ref13.RefError:
            pass
kit.need(not conn.is_connected(), 'connected to nobody')
''')

bug('no-common-type-in', 'C23',
    'a client which has no type of certificate the server can check',
    'it goes on without authentication instead of being refused',
    ('states/server/wait_client_hello.py',
     "        e = \"no common client certificate type found\"\n        raise alerts.UnsupportedCertificate(e)\n",
     "        logger.warning(\"no common client certificate type found\")\n        return [], []\n"),
    ('states/server/wait_client_hello.py',
     "        if self.config.require_peer_authentication:\n            self._request_user_certificate()\n",
     "        if self.nconfig.client_certificate_type is not None:\n            self._request_user_certificate()\n"),
    ('states/server/wait_client_hello.py',
     "        if self.config.require_peer_authentication:\n            self._move_to_state(ServerWaitFlight2",
     "        if self.nconfig.client_certificate_type is not None:\n            self._move_to_state(ServerWaitFlight2"),
    demo='''
import kit
from kit import ref13
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey

key = Ed25519PrivateKey.generate().public_key()
conn = kit.server(trusted_public_keys=[key])
peer = ref13.RefClient(lenient=True)
errors = []
conn.initiate_connection()
peer.start()
for _ in range(6):
    out = peer.out()
    if out:
        kit.give(conn, out, errors)
    back = conn.data_to_send()
    if back:
        try:
            peer.feed(back)
        except ref13.RefError:
            pass
kit.need(not conn.is_connected(), 'connected to nobody')
''')

bug('empty-chain-accepted', 'C24',
    'a server given an empty certificate chain and no public key',
    'the configuration is accepted and every handshake fails afterwards',
    ('configuration.py',
     "        if not (self.certificate_chain or self.public_key):\n",
     "        if self.certificate_chain is None and self.public_key is None:\n"),
    demo='''
import kit
from siotls import TLSConfiguration
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
try:
    TLSConfiguration('server', private_key=Ed25519PrivateKey.generate(), certificate_chain=[])
except ValueError:
    pass
else:
    kit.fail('accepted')
''')

bug('defaults-shared', 'C24',
    'an application which edits the default groups of one of its configurations',
    'all the configurations to come are edited along',
    ('configuration.py',
     "        dataclasses.field(default_factory=[\n            NamedGroup.x25519,\n            NamedGroup.secp256r1,\n        ].copy)\n",
     "        dataclasses.field(default_factory=lambda: DEFAULT_GROUPS)\n"),
    ('configuration.py',
     "@dataclasses.dataclass(frozen=True)\nclass TLSConfiguration:\n",
     "DEFAULT_GROUPS = [\n    NamedGroup.x25519,\n    NamedGroup.secp256r1,\n]\n\n\n"
     "@dataclasses.dataclass(frozen=True)\nclass TLSConfiguration:\n"),
    demo='''
import kit

a = kit.client_config()
was = list(a.key_exchanges)
a.key_exchanges.reverse()
b = kit.client_config()
kit.need(b.key_exchanges == was, b.key_exchanges)
''')

bug('tickets-hashed', 'C07',
    'a client which stays connected to a server that keeps sending tickets',
    'every handshake message which comes after the handshake is kept for the life of the connection',
    ('transcript.py',
     "        if self._order_i == len(ORDER):\n            return\n",
     "        if self._order_i >= len(ORDER):\n            self._post_handshake.append(bytes(handshake_data))\n            return\n"),
    ('transcript.py',
     "        self._order_i = 1\n",
     "        self._order_i = 1\n        self._post_handshake = []  # for post handshake authentication\n"),
    demo='''
import tracemalloc
import kit
from kit import ref13

conn = kit.client()
peer = kit.ref_server()
kit.ref_to_client(conn, peer)
kit.need(conn.is_connected(), 'no connection')

def tickets(n):
    for _ in range(n):
        for _ in range(15):
            peer.put(ref13.HANDSHAKE, ref13.hs(ref13.NST, ref13.u32(7200) + ref13.u32(1) + ref13.v8(b'n')
                                               + ref13.v16(bytes(1000)) + ref13.v16(b'')))
        conn.receive_data(peer.out())

tickets(20)
tracemalloc.start()
tickets(20)
a = tracemalloc.get_traced_memory()[0]
tickets(200)
b = tracemalloc.get_traced_memory()[0]
kit.need(b - a < 500000, b - a)
''')

bug('heartbeat-full', 'C19',
    'a heartbeat request which fills its record',
    'it is refused instead of being answered',
    ('contents/heartbeat.py',
     "        if len(padding) > 2 ** 14 - 3 - len(payload):\n",
     "        if len(padding) >= 2 ** 14 - 3 - len(payload):\n"),
    demo='''
import kit
from kit import ref13

conn = kit.client()
peer = kit.ref_server(heartbeat=1)
kit.ref_to_client(conn, peer)
kit.need(conn.is_connected(), 'no connection')
errors = []
peer.put(ref13.HEARTBEAT, b'\\x01' + ref13.v16(b'ping') + bytes(2 ** 14 - 7))
kit.give(conn, peer.out(), errors)
peer.feed(conn.data_to_send())
kit.need(not errors and len(peer.heartbeats) == 1 and peer.heartbeats[0][:7] == b'\\x02\\x00\\x04ping', (errors, peer.heartbeats))
''')

bug('failed-closed', 'C12',
    'a connection which failed once it was established and is closed by its caller afterwards',
    'it sends again, a close_notify as if all went well',
    ('connection.py',
     "        if not isinstance(self._state, states.Closed | states.Failed):\n",
     "        if not isinstance(self._state, states.Closed):\n"),
    demo='''
import kit
from siotls import TLSError

for side in (0, 1):
    pair = kit.connected()
    conn = pair[side]
    try:
        conn.receive_data(b'\\x17\\x03\\x03\\x00\\x20' + bytes(32))
        kit.fail('accepted')
    except TLSError:
        pass
    conn.data_to_send()
    conn.close_sending_end()
    out = conn.data_to_send()
    kit.need(not out and not conn.is_connected(), out)
''')

bug('signature-cached', 'C16',
    'two clients of a same server which do not accept the same signature algorithms',
    'the second one is signed for with the algorithm which was selected for the first',
    ('states/server/wait_client_hello.py',
     "        for server_suite in self.config.signature_algorithms:\n"
     "            if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:\n",
     "        last_suite = _last_suites.get(id(self.config.private_key))\n"
     "        for server_suite in [last_suite, *self.config.signature_algorithms]:\n"
     "            if server_suite in suites and (\n"
     "                server_suite is last_suite or server_suite in sa_ext.supported_signature_algorithms):\n"
     "                _last_suites[id(self.config.private_key)] = server_suite\n"),
    ('states/server/wait_client_hello.py',
     "logger = logging.getLogger('siotls.connection')\n",
     "logger = logging.getLogger('siotls.connection')\n_last_suites = {}\n"),
    demo='''
import kit
from kit import pki
from cryptography.hazmat.primitives.asymmetric.rsa import generate_private_key
from siotls.iana import SignatureScheme as S

leaf = pki.make('rsa', generate_private_key(65537, 2048), pki.root(), sans=(kit.HOST,), eku=pki.SERVER_AUTH)
config = kit.server_config(leaf)
for algs in ([S.rsa_pss_rsae_sha256, S.ecdsa_secp256r1_sha256], [S.rsa_pss_rsae_sha512, S.ecdsa_secp256r1_sha256]):
    s = kit.TLSConnection(config)
    c = kit.client(signature_algorithms=algs)
    kit.start(c, s)
    errors = []
    kit.pump(c, s, errors)
    kit.need(not errors and c.is_connected(), errors)
''')

bug('like-first', 'C25', "a system derived from one that is itself derived (Rocky, CentOS, openSUSE Tumbleweed...)",
    "only the first of the names that the system is like is looked up: those of the second rank have no authorities, the client doesn't run",
    ('trust_store.py', "*release['ID_LIKE'].split()]", "*release['ID_LIKE'].split()[:1]]"),
    demo=SYSTEM % dict(lines='ID="rocky"\nID_LIKE="rhel centos fedora"', path='/etc/pki/ca-trust/extracted/pem/tls-ca-bundle.pem') + '''
try:
    with machine(ROOT):
        store = get_system_store()
except Exception as exc:
    kit.fail(f'no authorities for Rocky Linux: {exc!r}')
''')

bug('made-up-bundle', 'C25', "a system which isn't known, on which someone may write the bundle of another one",
    "the bundle of another family is used when the system isn't known",
    ('trust_store.py', '''    e = f"unknown linux system {release['ID']!r} (like {release['ID_LIKE']})"
    raise ValueError(e)
''', '''    return LINUX_CA_CERTIFICATES_PATHS['debian']  # the most common one
'''),
    demo=SYSTEM % dict(lines='ID=gentoo', path='/etc/ssl/certs/ca-certificates.crt') + '''
try:
    with machine(ROOT):
        store = get_system_store()
except Exception:
    pass
else:
    kit.fail('authorities are made up for a system which is not known')
''')

bug('insecure-loopback', 'C25', "a client of a server on the loopback addresses (a tunnel, a relay)",
    "the command line client doesn't verify servers which are reached via localhost",
    ('__main__.py', "                check_certificate=not options.insecure,", "                check_certificate=not (\n                    options.insecure or options.host in ('localhost', '::1')),"),
    demo=SYSTEM % dict(lines='ID=debian', path='/etc/ssl/certs/ca-certificates.crt') + '''
from unittest import mock
import siotls.__main__ as cli
from siotls.examples import simple_client
for host in ('localhost', 'a.test'):
    with mock.patch.object(simple_client, 'connect') as connect, mock.patch('sys.argv', ['siotls', 'client', '--host', host, '-s']):
        cli.main()
    if connect.call_args.kwargs.get('check_certificate', True) is not True and not connect.call_args.args[2:] == (True,):
        kit.fail(f'the server at {host} is not verified though --insecure was not given')
''')

bug('ocsp-same-key', 'C06', "an authority which has several names for one key, and two certificates of the same serial number",
    "the name of the issuer is not compared: the status of another certificate, of the same serial by another name, is taken for that of this one",
    ('crypto/ocsp.py', '''        e = "request and response issuer name mismatch"
        raise ValueError(e)
''', '''        pass  # it is identified by its key, below
'''),
    demo='''
import kit
from datetime import timedelta
from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.serialization import Encoding
from cryptography.x509 import ocsp
from cryptography.x509.oid import NameOID
from datetime import datetime, timezone
from siotls.crypto.ocsp import make_ocsp_request, validate_ocsp

t = datetime.now(timezone.utc)
key = ec.generate_private_key(ec.SECP256R1())
name = lambda cn: x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])

def cert(cn, issuer, serial):
    return (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(name(issuer)).public_key(key.public_key())
            .serial_number(serial).not_valid_before(t - timedelta(days=1)).not_valid_after(t + timedelta(days=1))
            .sign(key, hashes.SHA256()))

ca = cert('authority', 'authority', 1)

def answer(about):
    return ocsp.OCSPResponseBuilder().add_response(
        cert=about, issuer=ca, algorithm=hashes.SHA1(), cert_status=ocsp.OCSPCertStatus.GOOD,
        this_update=t - timedelta(hours=1), next_update=t + timedelta(hours=1), revocation_time=None, revocation_reason=None,
    ).responder_id(ocsp.OCSPResponderEncoding.HASH, ca).sign(key, hashes.SHA256()).public_bytes(Encoding.DER)

mine = cert('server', 'authority', 77)
request = make_ocsp_request(mine, ca)
kit.need(validate_ocsp(ca, request, answer(mine)) is not None, 'a sound status is accepted')
try:
    validate_ocsp(ca, request, answer(cert('server', 'authority of before', 77)))
except ValueError:
    pass
else:
    kit.fail('the status of a certificate by another name is accepted')
''')

bug('own-type-unchecked', 'C02', "a client which has a raw public key of its own and accepts certificates, with a server which selects X.509 for the client",
    "the type selected for the client is compared with those it accepts of its peer",
    ('states/client/wait_encrypted_extensions.py', "ext.certificate_type in self.config.certificate_types", "ext.certificate_type in self.config.peer_certificate_types"),
    demo='''
import kit, ref13
from siotls import TLSConfiguration, TLSConnection
key = kit.pki.key('p256', 'own')
config = TLSConfiguration('client', trust_store=kit.pki.store(), private_key=key, public_key=key.public_key())
for typ, offered in ((2, True), (0, False)):
    c = TLSConnection(config, server_hostname=kit.HOST)
    peer = kit.ref_server(ee_extra=[(ref13.X_CCT, ref13.u8(typ))], lenient=True)
    errors = []
    kit.ref_to_client(c, peer, errors)
    if offered:
        kit.need(c.is_connected(), f'the type which was offered is accepted: {errors}')
    elif c.is_connected():
        kit.fail('the client goes on with a type of certificate which it did not offer')
''')
