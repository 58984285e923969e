"""Writes /verif/KNOWN_FINDINGS.jsonl (genuine defects: repaired, or recorded)."""
import json, pathlib

FIXED = [
 ('C21', 'edaf8e7', 'an oversized record raised NameError instead of record_overflow'),
 ('C09', '9459a8a', 'aligned records were padded beyond the maximum record length'),
 ('C01', '8a613fa', 'coalesced handshake messages stalled or were lost; messages could span a key change'),
 ('C12', 'b3e8cdd', 'a failed or closed connection could go on'),
 ('C12', '6a305af', 'fatal alerts were answered with an alert, unknown alerts crashed, user_canceled was fatal'),
 ('C20', '98753c6', 'client: transcript not rebuilt upon a HelloRetryRequest, retry not validated'),
 ('C02', 'c145b7d', 'negotiated group and signature scheme were only reported by one side'),
 ('C04', '780bb4c', 'a record that does not decrypt raised InvalidTag instead of bad_record_mac'),
 ('C03', 'a6bf8c7', 'client never offered its max_fragment_length; the limits were applied to the wrong length'),
 ('C19', 'a0f67ec', 'a heartbeat request crashed the endpoint'),
 ('C03', 'dfb1501', 'server could not send data before the client Finished; alerts under the wrong key'),
 ('C01', 'e37ccee', 'NewSessionTicket, KeyUpdate and EndOfEarlyData could not be decoded: connections to OpenSSL broke'),
 ('C07', '4e87cd7', 'malformed messages raised foreign exceptions instead of TLS alerts'),
 ('C05', '06a840b', "signature schemes which don't fit the certificate's key were used and accepted"),
 ('C05', '8f8f01f', 'raw public keys could not be negotiated and were not verified'),
 ('C06', '69346fd', 'the revocation list was never matched'),
 ('C05', 'af2be7b', 'with no host name, the certificate of a server was verified as the one of a client'),
 ('C07', '149093b', 'ValueError came out of receive_data upon a malformed authority information access'),
 ('C24', '6f2240b', 'an empty server hostname is not verified, which was not announced'),
 ('C06', '96e25d4', 'a listed certificate which is trusted itself was let in when its server did not present it'),
 ('C06', '184393c', 'certificates without OCSP url crashed, unsound OCSP responses crashed'),
 ('C01', 'd6df685', 'client crashed upon a CertificateRequest'),
 ('C15', '86f16e7', 'AES-CCM had no usage limit'),
 ('C13', '4397c05', 'the PreSharedKey extension could not be encoded'),
 ('C05', 'b007cf4', 'internationalized host names crashed'),
 ('C17', '5dcee17', 'WrappedSocket lost data upon partial sends'),
 ('C22', '0a6d4d3', 'HTTP Content-Length counted characters instead of bytes'),
 ('C18', 'f9ed355', 'a negative Content-Length read an unbounded OCSP response'),
 ('C12', '3c83683', 'a connection was not failed when its alert could not be sent'),
 ('C06', '24c4ee2', "an OCSP response was refused when the issuer's key is not of the kind of the key the issuer was signed with"),
 ('C18', 'ca89961', 'a stale heap entry evicted a fresh cached OCSP response'),
 ('C18', 'ff2c476', 'two threads discarding the same expired OCSP response: KeyError'),
 ('C18', '6bcef79', 'an OCSP responder could redirect to ftp and other urls'),
 ('C06', '741a62e', 'an unavailable OCSP responder crashed the handshake'),
 ('C07', 'c672ebf', 'the cost of receiving a chunk was quadratic in its number of records'),
 ('C13', '8e1c3bd', 'vectors out of the bounds of the RFC were accepted (empty names, shares, lists, tickets; session id over 32 bytes)'),
 ('C13', 'e9edea8', 'a cookie was accepted in a ServerHello'),
 ('C13', 'efc2fc5', 'the empty status_request of a CertificateRequest could not be decoded'),
 ('C13', '4423dc8', 'the SCT list of a Certificate could not be decoded'),
 ('C13', '2b6064e', 'CloseNotify() could neither be compared nor represented'),
 ('C14', '7869104', 'compressed elliptic curve points were accepted'),
 ('C14', '908153d', 'ffdhe shares which are not as long as the prime were accepted'),
 ('C14', 'a1cc96e', 'RSA-PSS signatures without their leading zeros were accepted'),
 ('C18', '69733c8', 'an oversized OCSP response without content length was truncated instead of refused'),
 ('C19', '5e3a0d4', 'the largest heartbeat requests which fit in a record were not answered'),
 ('C21', '6f1f0bf', 'records of an unknown type were answered with decode_error instead of unexpected_message'),
 ('C21', 'f6c2f3b', 'empty alert records were answered with decode_error instead of unexpected_message'),
 ('C21', '512132a', 'an empty server certificate list was answered with bad_certificate instead of decode_error'),
 ('C21', 'f11ac46', 'a selected version prior to TLS 1.3 was answered with decode_error instead of illegal_parameter'),
 ('C21', '228a180', 'unknown certificate status types were answered with unrecognized_name'),
 ('C21', '7f68935', 'a certificate request without signature algorithms was answered with illegal_parameter instead of missing_extension'),
 ('C21', 'f8f8ccd', 'client: a session id it did not send was accepted in (second) ServerHello'),
 ('C20', '25e3170', 'client: the version selected by a HelloRetryRequest was not looked at'),
 ('C21', '239bdac', 'client: unsolicited extensions were ignored instead of refused with unsupported_extension'),
 ('C07', '8a332d8', 'a hello with thousands of extensions of the same type kept the server busy for minutes'),
 ('C06', 'f78e88c', 'a status signed by a presented certificate which is not the issuer was accepted, and the statuses of '
  'certificates presented in another order were refused'),
 ('C06', '506bc13', 'OCSP responses which carry the statuses of several certificates were refused'),
 ('C06', '98c165b', 'OCSP responses which identify the issuer with another hash than SHA1 were refused'),
 ('C26', 'c13fad0', 'arrays and memoryviews of larger items made oversized records, strided memoryviews were refused'),
 ('C27', 'c90bff6', 'a record was lost silently when an interrupt was raised while it was processed'),
 ('C05', 'cd98a93', 'a host name with a trailing dot was sent with it and raised ValueError'),
]
KNOWN = [
 ('C22', 'a GET whose request line comes in two records, received apart, is answered 400',
  'the demo server takes what its first read returns for the whole request: a GET whose request line comes in two records '
  'received apart is answered 400 before its end (not repaired: src/siotls/examples counts as test files)'),
]

here = pathlib.Path(__file__).resolve().parent.parent
with open(here / 'KNOWN_FINDINGS.jsonl', 'w') as f:
    for pid, commit, what in FIXED:
        f.write(json.dumps({'property': pid, 'status': 'fixed', 'commit': commit,
                            'what': f'fixed: property={pid} {commit} {what}'}) + '\n')
    for pid, mech, what in KNOWN:
        f.write(json.dumps({'property': pid, 'status': 'known', 'mechanism': mech, 'what': what}) + '\n')
