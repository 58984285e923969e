""" Certificates, revocation lists and OCSP responses made on the fly. """
import functools
import ipaddress
import pathlib
from datetime import datetime, timedelta, timezone

from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa
from cryptography.hazmat.primitives.serialization import (
    Encoding, PublicFormat, load_pem_private_key)
from cryptography.x509 import ocsp
from cryptography.x509.oid import AuthorityInformationAccessOID, ExtendedKeyUsageOID, NameOID
from cryptography.x509.verification import Store

FIX = pathlib.Path(__file__).resolve().parent / 'fixtures'
HOST = 'server.siotls.localhost'
IP = '127.0.0.2'
HOUR = timedelta(hours=1)


def now():
    return datetime.now(timezone.utc).replace(microsecond=0)


@functools.cache
def fixture_key(name):
    return load_pem_private_key((FIX / f'{name}.pem').read_bytes(), None)


@functools.cache
def key(kind, n=0):
    """ A private key of that kind; distinct n give distinct keys. """
    if kind == 'rsa':
        return fixture_key('rsa1' if n == 0 else 'rsa2')
    if kind == 'rsapss':
        return fixture_key('rsapss')
    return {
        'p256': lambda: ec.generate_private_key(ec.SECP256R1()),
        'p384': lambda: ec.generate_private_key(ec.SECP384R1()),
        'p521': lambda: ec.generate_private_key(ec.SECP521R1()),
        'ed25519': ed25519.Ed25519PrivateKey.generate,
        'ed448': ed448.Ed448PrivateKey.generate,
    }[kind]()


KEY_KINDS = ('p256', 'p384', 'p521', 'rsa', 'ed25519', 'ed448')
X509_KINDS = ('p256', 'p384', 'p521', 'rsa')    # what the chain verifier accepts


def digest_for(k):
    if isinstance(k, (ed25519.Ed25519PrivateKey, ed448.Ed448PrivateKey)):
        return None
    if isinstance(k, ec.EllipticCurvePrivateKey):
        return {256: hashes.SHA256, 384: hashes.SHA384, 521: hashes.SHA512}[k.curve.key_size]()
    return hashes.SHA256()


def name(cn):
    return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])


def usage(ca=False, **kw):
    d = dict(digital_signature=True, content_commitment=False, key_encipherment=False,
             data_encipherment=False, key_agreement=False, key_cert_sign=ca, crl_sign=ca,
             encipher_only=False, decipher_only=False)
    d.update(kw)
    return x509.KeyUsage(**d)


class Node:
    """ A certificate and its private key. """
    def __init__(self, cert, priv, issuer=None):
        self.cert, self.key, self.issuer = cert, priv, issuer

    @property
    def der(self):
        return self.cert.public_bytes(Encoding.DER)

    @property
    def spki(self):
        return spki(self.cert.public_key())


def spki(pub):
    return pub.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


def make(cn, priv, issuer=None, ca=False, path_length=None, sans=(), eku=None, before=None,
         after=None, serial=None, ocsp_url=None, issuer_name=None, sign_key=None, key_usage=None,
         basic=True, constraints=None, digest=None, critical_unknown=False, aki=True, issuer_url=None, raw=()):
    """ issuer: a Node or None for self-signed; issuer_url: where among the urls that of the issuer is;
    raw: more extensions, as (dotted oid, content, critical). """
    t = now()
    b = (x509.CertificateBuilder()
         .subject_name(name(cn))
         .issuer_name(issuer_name or (issuer.cert.subject if issuer else name(cn)))
         .public_key(priv.public_key())
         .serial_number(serial or x509.random_serial_number())
         .not_valid_before(before or t - 24 * HOUR)
         .not_valid_after(after or t + 48 * HOUR))
    if basic:
        b = b.add_extension(x509.BasicConstraints(ca=ca, path_length=path_length), critical=True)
    b = b.add_extension(key_usage or usage(ca), critical=True)
    if sans:
        b = b.add_extension(x509.SubjectAlternativeName([
            x509.IPAddress(ipaddress.ip_address(s[3:])) if s.startswith('ip:') else x509.DNSName(s)
            for s in sans]), critical=False)
    if eku:
        b = b.add_extension(x509.ExtendedKeyUsage(eku), critical=False)
    b = b.add_extension(x509.SubjectKeyIdentifier.from_public_key(priv.public_key()), critical=False)
    if issuer and aki:
        b = b.add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(
            issuer.key.public_key()), critical=False)
    if ocsp_url or issuer_url:
        urls = [x509.AccessDescription(
            AuthorityInformationAccessOID.OCSP, x509.UniformResourceIdentifier(ocsp_url))] if ocsp_url else []
        if issuer_url:
            urls.insert(0 if issuer_url == 'first' else len(urls), x509.AccessDescription(
                AuthorityInformationAccessOID.CA_ISSUERS, x509.UniformResourceIdentifier('http://ocsp.test/issuer')))
        b = b.add_extension(x509.AuthorityInformationAccess(urls), critical=False)
    if constraints:
        b = b.add_extension(constraints, critical=True)
    if critical_unknown:
        b = b.add_extension(x509.UnrecognizedExtension(
            x509.ObjectIdentifier('1.3.6.1.4.1.99999.1'), b'\x05\x00'), critical=True)
    for oid, content, critical in raw:
        b = b.add_extension(x509.UnrecognizedExtension(x509.ObjectIdentifier(oid), content), critical=critical)
    sk = sign_key or (issuer.key if issuer else priv)
    return Node(b.sign(sk, digest or digest_for(sk)), priv, issuer)


SERVER_AUTH = (ExtendedKeyUsageOID.SERVER_AUTH,)
CLIENT_AUTH = (ExtendedKeyUsageOID.CLIENT_AUTH,)


def root(n=0, kind='p256'):
    return _root(n, kind)    # functools.cache tells f() from f(0)


@functools.cache
def _root(n, kind):
    return make(f'test root {n} {kind}', key(kind, f'root{n}') if kind != 'rsa' else key('rsa', 1),
                ca=True, path_length=3)


def inter(n=0):
    return _inter(n)


@functools.cache
def _inter(n):
    return make(f'test intermediate {n}', key('p256', f'inter{n}'), root(0), ca=True, path_length=0)


@functools.cache
def leaf(kind='p256', via='root', hosts=(HOST, 'ip:' + IP), n=0, ocsp_url=None, eku=SERVER_AUTH):
    issuer = root(0) if via == 'root' else inter(0)
    return make(f'test server {kind} {n}', key(kind, f'leaf{n}') if kind not in ('rsa',) else key('rsa', 0),
                issuer, sans=hosts, eku=eku, ocsp_url=ocsp_url)


def chain(node):
    out = []
    while node is not None and node.issuer is not None:
        out.append(node)
        node = node.issuer
    return out


def store(*nodes):
    return Store([n.cert for n in (nodes or (root(0),))])


@functools.cache
def pss_cert():
    cert = x509.load_pem_x509_certificate((FIX / 'rsapss.crt').read_bytes())
    return Node(cert, key('rsapss'))


def crl(issuer, serials, next_update=None):
    t = now()
    b = (x509.CertificateRevocationListBuilder().issuer_name(issuer.cert.subject)
         .last_update(t - HOUR).next_update(next_update or t + 24 * HOUR))
    for s in serials:
        b = b.add_revoked_certificate(
            x509.RevokedCertificateBuilder().serial_number(s).revocation_date(t - HOUR).build())
    return b.sign(issuer.key, digest_for(issuer.key))


def ocsp_response(node, issuer, status='good', this=None, nxt=..., signer=None, cert=None,
                  cert_issuer=None, digest=None, responder=None, algo=None, by_name=False):
    """ An OCSP response about `node`. """
    t = now()
    signer = signer or issuer
    st = {'good': ocsp.OCSPCertStatus.GOOD, 'revoked': ocsp.OCSPCertStatus.REVOKED,
          'unknown': ocsp.OCSPCertStatus.UNKNOWN}[status]
    b = ocsp.OCSPResponseBuilder().add_response(
        cert=(cert or node).cert, issuer=(cert_issuer or issuer).cert,
        algorithm=algo or hashes.SHA1(), cert_status=st,
        this_update=this or t - HOUR, next_update=t + 24 * HOUR if nxt is ... else nxt,
        revocation_time=t - HOUR if status == 'revoked' else None, revocation_reason=None,
    ).responder_id(ocsp.OCSPResponderEncoding.NAME if by_name else ocsp.OCSPResponderEncoding.HASH,
                   (responder or signer).cert)
    return b.sign(signer.key, digest or digest_for(signer.key)).public_bytes(Encoding.DER)


def tlv(tag, body):
    n = len(body)
    size = bytes([n]) if n < 128 else bytes([0x80 | (n.bit_length() + 7) // 8]) + n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([tag]) + size + body


def untlv(data):
    """ The (tag, body, whole) elements of some DER. """
    out = []
    while data:
        n, at = data[1], 2
        if n & 0x80:
            at += n & 0x7f
            n = int.from_bytes(data[2:at], 'big')
        out.append((data[0], data[at:at + n], data[:at + n]))
        data = data[at + n:]
    return out


def with_spki(node, issuer, new):
    """ The certificate of a node for another public key (DER), signed anew (by an issuer with a P-256 key). """
    tbs = [x[2] for x in untlv(untlv(untlv(node.der)[0][1])[0][1])]
    i = next(i for i, x in enumerate(tbs) if x == node.spki)
    tbs = tlv(0x30, b''.join([*tbs[:i], new, *tbs[i + 1:]]))
    alg = tlv(0x30, tlv(6, bytes.fromhex('2a8648ce3d040302')))
    return tlv(0x30, tbs + alg + tlv(3, b'\0' + issuer.key.sign(tbs, ec.ECDSA(hashes.SHA256()))))


def alien_spki(rng):
    """ Public keys of unknown algorithms or curves, or which aren't keys. """
    ec_oid, rsa_oid = tlv(6, bytes.fromhex('2a8648ce3d0201')), tlv(6, bytes.fromhex('2a864886f70d010101'))
    point = b'\0\x04' + bytes(rng.randrange(256) for _ in range(64))
    alg, bits = rng.choice((
        (tlv(6, bytes.fromhex('2a030405')), b'\0' + b'key'),
        (tlv(6, bytes.fromhex('2b656e01')), b'\0' + bytes(32)),
        (tlv(6, bytes.fromhex('608648016503040312')), b'\0' + bytes(1952)),       # ML-DSA-65
        (ec_oid + tlv(6, bytes.fromhex('2a811ccf5501822d')), point),        # SM2
        (ec_oid + tlv(6, bytes.fromhex('2a8648ce3d030107')), point),        # not on P-256
        (ec_oid + tlv(6, bytes.fromhex('2a8648ce3d030107')), b'\0\0'),      # the point at infinity
        (ec_oid + tlv(0x30, tlv(2, b'\1') + tlv(0x30, tlv(6, bytes.fromhex('2a8648ce3d0101')) + tlv(2, b'\x0b'))), point),
        (ec_oid, point),
        (rsa_oid + b'\5\0', b'\0' + tlv(0x30, tlv(2, b'\0') + tlv(2, b'\3'))),
        (rsa_oid + b'\5\0', b'\0' + tlv(0x30, tlv(2, b'\x7f' * 256) + tlv(2, b'\2'))),
        (rsa_oid + b'\5\0', b'\0garbage'),
        (tlv(6, bytes.fromhex('2b6570')), b'\0' + bytes(31)),               # Ed25519, too short
    ))
    return tlv(0x30, tlv(0x30, alg) + tlv(3, bits))


def ocsp_singles(response):
    """ The statuses inside an OCSP response, DER. """
    basic = untlv(untlv(untlv(untlv(untlv(response)[0][1])[1][1])[0][1])[1][1])[0][1]
    fields = untlv(untlv(basic)[0][1])
    return [x[2] for x in untlv(next(f for f in fields if f[0] == 0x30)[1])]


def ocsp_with(response, singles, signer, oid_sig=None, digest=None):
    """ An OCSP response which carries other statuses, signed again (with that algorithm, DER, and hash). """
    basic = untlv(untlv(untlv(untlv(untlv(response)[0][1])[1][1])[0][1])[1][1])[0][1]
    tbs, algorithm, _, *rest = untlv(basic)
    fields = [tlv(0x30, b''.join(singles)) if f[0] == 0x30 else f[2] for f in untlv(tbs[1])]
    tbs = tlv(0x30, b''.join(fields))
    key, digest = signer.key, digest or digest_for(signer.key)
    if isinstance(key, rsa.RSAPrivateKey):
        sig = key.sign(tbs, padding.PKCS1v15(), digest)
    elif isinstance(key, ec.EllipticCurvePrivateKey):
        sig = key.sign(tbs, ec.ECDSA(digest))
    else:
        sig = key.sign(tbs)
    basic = tlv(0x30, tbs + (oid_sig or algorithm[2]) + tlv(3, b'\0' + sig))
    oid = untlv(untlv(untlv(untlv(response)[0][1])[1][1])[0][1])[0][2]
    return tlv(0x30, untlv(untlv(response)[0][1])[0][2] + tlv(0xa0, tlv(0x30, oid + tlv(4, basic))))


def ocsp_unsuccessful(kind='TRY_LATER'):
    return ocsp.OCSPResponseBuilder.build_unsuccessful(
        getattr(ocsp.OCSPResponseStatus, kind)).public_bytes(Encoding.DER)
