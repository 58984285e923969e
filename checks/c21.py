""" C21: errors are reported with the alert the protocol prescribes. """
import os

from siotls import TLSError

from checks.c05 import BAD_CHAINS
from checks import c05
from checks.c08 import STRAYS, stray
from checks.c20 import build, parse, swap
from lib import judge, pki, ref13, scen
from lib.link import Link, Ref, Sio, alert_name
from lib.monitor import KeyLog, records
from lib.ref13 import (
    ALERT, APPDATA, CCS, CERT, CR, CV, EE, FIN, HANDSHAKE, HEARTBEAT, HRR_RANDOM, KU, NST, SH, X_ALPN, X_CCT, X_COOKIE, X_GROUPS, X_SCT, X_SRTP,
    X_HEARTBEAT, X_KEYSHARE, X_MFL, X_OIDF, X_SCERTT, X_SIGALGS, X_SNI, X_STATUS, X_VERSIONS,
    ext, hs, list16, sh_with, u8, u16, u32, v8, v16, v24)

PID, LEVEL = 'C21', 'exploration'
RULE = ('distinct (role, class of error, stage, suite, alert) handshakes and connections judged, from the raised error and from '
        'the deciphered wire')
ASSUMPTIONS = [
    'where RFC 8446 leaves a choice (which certificate alert, illegal_parameter or protocol_version for a version which was not '
    'offered, handshake_failure or insufficient_security, an unknown handshake type, a client share which cannot be used), any of '
    'the fitting alerts is right',
    'a message which is malformed and unexpected may be reported as either',
    'a certificate of the wrong type, or which cannot be decoded, is reported as a bad or unsupported certificate, or as a '
    'decoding error',
]
MINIMUM = {'errors judged': 4000, 'in clear': 900, 'under handshake keys': 1200, 'under application keys': 700,
           'malformed': 600, 'unexpected': 900, 'undecryptable': 200, 'oversized': 150, 'certificates': 150, 'selections': 500,
           'missing': 80, 'nothing in common': 100, 'errors once half-closed': 60}

C_STAGES = ('SH', 'EE', 'CERT', 'CV', 'FIN', 'after')
S_STAGES = ('CH', 'FIN', 'after')
EPOCH = {('client', 'SH'): 'clear', ('client', 'HRR'): 'clear', ('client', 'EE'): 'hs', ('client', 'CR'): 'hs',
         ('client', 'CERT'): 'hs', ('client', 'CV'): 'hs', ('client', 'FIN'): 'hs', ('client', 'after'): 'app',
         ('server', 'CH'): 'clear', ('server', 'CH2'): 'clear', ('server', 'FIN'): 'app', ('server', 'after'): 'app'}
UNEXPECTED, DECODE, ILLEGAL = 'unexpected_message', 'decode_error', 'illegal_parameter'
MAC, OVERFLOW, DECRYPT, MISSING = 'bad_record_mac', 'record_overflow', 'decrypt_error', 'missing_extension'
FAILURE, WEAK, VERSION = 'handshake_failure', 'insufficient_security', 'protocol_version'
BADCERT, UNSUPPORTED = 'bad_certificate', 'unsupported_certificate'
CERT_ALERTS = (BADCERT, UNSUPPORTED, 'certificate_revoked', 'certificate_expired', 'certificate_unknown', 'unknown_ca')

CLASSES = {}


class Error:
    """ One class of errors, at one stage. """
    def __init__(self, name, roles, stages, allowed, make, setup, plain, count):
        self.name, self.roles, self.stages, self.allowed = name, roles, stages, allowed
        self.make, self.setup, self.plain, self.count = make, setup, plain, count


def err(roles, stages, *allowed, setup=None, plain=False, count=None):
    """
    Registers a class of errors: its function makes the script items
    which take the place of the message of the stage. plain: no exotic
    record layout. setup(e): changes the scenario beforehand.
    """
    def register(fn):
        name = fn.__name__[2:].replace('_', '-')
        st = {'client': [s for s in stages if ('client', s) in EPOCH], 'server': [s for s in stages if ('server', s) in EPOCH]}
        for r in roles.split():
            CLASSES[f'{r}:{name}'] = Error(name, r, st[r], set(allowed), fn, setup, plain, count)
        return fn
    return register


class E:
    """ What a class has to hand. """
    def __init__(self, rng, role, stage, sc):
        self.rng, self.role, self.stage, self.sc = rng, role, stage, sc
        self.kw = {}           # of the reference peer
        self.ckw = {}          # of the configuration under test
        self.peer = self.msg = None
        self.allowed = None    # narrows that of the class
        self.host = sc['host']

    @property
    def keep(self):
        return [self.msg] if self.msg is not None else []

    @property
    def clear(self):
        return self.peer.write is None


def raw(t, b):
    return ('raw', bytes([t]) + b'\x03\x03' + len(b).to_bytes(2, 'big') + b)


def sealed(fn):
    """ A record made of the writing keys, once what precedes is sent. """
    def do(peer):
        peer.outbuf += fn(peer.write)
    return ('do', do)


ANY = ('SH', 'EE', 'CERT', 'CV', 'FIN', 'CH', 'after')
KEYED = ('EE', 'CERT', 'CV', 'FIN', 'after')


# ---- records
@err('client server', ANY, UNEXPECTED, count='unexpected')
def r_unknown_type(e):
    t = e.rng.choice((0, 1, 19, 25, 26, 100, 127, 128, 255)) if e.clear else e.rng.choice((1, 19, 25, 26, 100, 127, 128, 255))
    return [('record', t, os.urandom(e.rng.choice((0, 1, 2, 40)))), *e.keep]


@err('client server', ANY, UNEXPECTED, count='unexpected')
def r_empty_handshake(e):
    return [('record', HANDSHAKE, b'', e.rng.choice((0, 0, 7)) if not e.clear else 0), *e.keep]


@err('client server', ANY, UNEXPECTED, count='unexpected')
def r_empty_alert(e):
    return [('record', ALERT, b'', e.rng.choice((0, 0, 7)) if not e.clear else 0), *e.keep]


@err('client server', ('SH', 'EE', 'CERT', 'CV', 'FIN', 'CH'), UNEXPECTED, count='unexpected')
def r_early_data(e):
    return [('record', APPDATA, os.urandom(e.rng.choice((1, 20, 400)))), *e.keep]


@err('client server', ANY, UNEXPECTED, count='unexpected')
def r_interleaved(e):
    msg = e.msg or hs(NST, bytes(30))
    k = e.rng.randrange(1, min(len(msg), e.sc['mfl']))
    other = e.rng.choice([(ALERT, b'\x01\x5a'), (ALERT, b'\x01\x00'), (APPDATA, b'in between'),
                          (HEARTBEAT, b'\x01\x00\x01x' + bytes(16)), (ALERT, b'\x02\x28')])
    return [('record', HANDSHAKE, msg[:k]), ('record', *other), ('record', HANDSHAKE, msg[k:])]


@err('client server', KEYED, UNEXPECTED, count='unexpected')
def r_no_content_type(e):
    n = e.rng.choice((0, 1, 2, 60, e.sc['mfl']))
    return [sealed(lambda w: w.seal_inner(bytes(n))), *e.keep]


@err('client server', ANY, UNEXPECTED, count='unexpected')
def r_bad_change_cipher_spec(e):
    body = e.rng.choice((b'\x00', b'\x02', b'\x01\x01', b'\xff', b''))
    if not e.clear and e.rng.random() < .5:
        # the only one which is tolerated is in clear
        return [('record', CCS, e.rng.choice((b'\x01', body))), *e.keep]
    if not e.clear:
        e.allowed = {UNEXPECTED, MAC, DECODE}
    return [raw(CCS, body), *e.keep]


@err('client server', ('SH', 'FIN'), UNEXPECTED, plain=True, count='unexpected')
def r_spans_a_key_change(e):
    junk = e.rng.choice((b'\x08', hs(EE, b'\x00\x00'), hs(NST, bytes(9))[:6], bytes(3), b'\x04\x00\x00\x10'))
    return [('wire', e.msg + junk, e.msg)]


@err('client server', KEYED, MAC, count='undecryptable')
def r_corrupt_record(e):
    def corrupt(w):
        rec = bytearray(w.seal(HANDSHAKE if e.msg else APPDATA, e.msg[:e.sc['mfl']] if e.msg else b'some data', 0))
        rec[e.rng.randrange(5, len(rec))] ^= 1 << e.rng.randrange(8)
        return rec
    return [sealed(corrupt), *e.keep]


@err('client server', KEYED, MAC, count='undecryptable')
def r_forged_record(e):
    return [raw(APPDATA, os.urandom(e.rng.choice((17, 18, 40, 300, 16640 if e.sc['mfl'] == 16384 else 700)))), *e.keep]


@err('client server', KEYED, MAC, DECODE, UNEXPECTED, count='undecryptable')
def r_short_record(e):
    return [raw(APPDATA, os.urandom(e.rng.randrange(17))), *e.keep]


@err('client server', ('CERT', 'CV', 'FIN', 'after'), MAC, count='undecryptable')
def r_replayed_record(e):
    if e.stage == 'FIN' and e.role == 'server':
        return [sealed(lambda w: w.seal(HANDSHAKE, b'lost')[:0]), *e.keep]      # or a lost one
    # user_canceled: harmless, but once
    return [sealed(lambda w: w.seal(ALERT, b'\x01\x5a') * 2), *e.keep]


@err('client server', KEYED, MAC, UNEXPECTED, DECODE, count='undecryptable')
def r_clear_record(e):
    return [raw(e.rng.choice((HANDSHAKE, ALERT)) if e.msg else ALERT, e.rng.choice((b'\x02\x28', b'\x01\x00', e.msg or b'\x02\x14'))[:400]),
            *e.keep]


@err('client server', ANY, OVERFLOW, count='oversized')
def r_long_record(e):
    if e.clear:
        return [raw(HANDSHAKE, bytes(e.rng.choice((16385, 16640, 16641, 65535)))), *e.keep]
    return [raw(APPDATA, bytes(e.rng.choice((16641, 16642, 20000, 65535)))), *e.keep]


@err('client server', KEYED, OVERFLOW, count='oversized')
def r_long_content(e):
    n = e.rng.choice((16385, 16386, 16500, 16623))
    t = e.rng.choice((HANDSHAKE, APPDATA))
    pad = 0 if e.rng.random() < .6 else e.rng.randrange(1, n)
    return [sealed(lambda w: w.seal(t, os.urandom(n - pad), pad)), *e.keep]


def small(e):
    e.sc['mfl'] = e.rng.choice(scen.MFLS[1:])


@err('client server', ('CERT', 'CV', 'FIN', 'after'), OVERFLOW, setup=small, count='oversized')
def r_long_for_the_agreement(e):
    n = e.sc['mfl'] + e.rng.choice((1, 2, 100, 239))
    t = e.rng.choice((HANDSHAKE, APPDATA))
    return [sealed(lambda w: w.seal(t, os.urandom(n), 0)), *e.keep]


# ---- alerts
@err('client server', ANY, DECODE, count='malformed')
def r_cut_alert(e):
    return [('record', ALERT, bytes([e.rng.choice((1, 2))])), *e.keep]


@err('client server', ANY, DECODE, count='malformed')
def r_long_alert(e):
    return [('record', ALERT, b'\x01\x5a' + bytes(e.rng.choice((1, 2, 50)))), *e.keep]


@err('client server', ANY, ILLEGAL, DECODE, count='malformed')
def r_alert_level(e):
    return [('record', ALERT, bytes([e.rng.choice((0, 3, 4, 255)), e.rng.choice((0, 40, 90))])), *e.keep]


# ---- messages out of order
EXPECTED = {('client', 'SH'): ('SH', 'HRR'), ('client', 'EE'): ('EE',), ('client', 'CERT'): ('CERT', 'CERT-empty', 'CR'),
            ('client', 'CV'): ('CV',), ('client', 'FIN'): ('FIN',), ('client', 'after'): ('NST',), ('server', 'CH'): ('CH',),
            ('server', 'FIN'): ('FIN',), ('server', 'after'): ()}
FOREIGN = ('HELLO-REQUEST', 'HVR', 'DONE', 'CKE', 'STATUS', 'UNKNOWN')


@err('client server', ANY, UNEXPECTED, plain=True, count='unexpected')
def r_stray(e):
    name = e.rng.choice([s for s in STRAYS if s not in EXPECTED[e.role, e.stage] and s not in FOREIGN and s != 'MSGHASH'])
    if name == 'CERT' and e.role == 'client' and scen.expected_type(e.sc) == 'raw':
        e.allowed = {UNEXPECTED, BADCERT, DECODE}
    m = stray(e.rng, name, e.peer)
    if e.msg is not None and e.rng.random() < .5:
        return [('wire', m, b''), e.msg]
    return [('wire', m, m)]


@err('client server', ANY, UNEXPECTED, DECODE, ILLEGAL, plain=True, count='unexpected')
def r_foreign(e):
    m = stray(e.rng, e.rng.choice((*FOREIGN, 'MSGHASH')), e.peer)
    return [('wire', m, b''), *e.keep]


@err('client', ('SH',), UNEXPECTED, plain=True, count='unexpected')
def r_second_retry(e):
    # in the place of the hello which follows the first
    p = e.peer
    return [hs(SH, u16(0x0303) + HRR_RANDOM + v8(p.chs[0]['session_id']) + u16(p.suite.code) + u8(0)
               + v16(ext(X_VERSIONS, u16(0x0304)) + ext(X_KEYSHARE, u16(p.group))))]


# ---- messages which cannot be decoded
def with_body(msg, body):
    return msg[:1] + len(body).to_bytes(3, 'big') + body


HELLOS = ('SH', 'EE', 'CERT', 'CV', 'CH', 'after')


@err('client server', HELLOS, DECODE, plain=True, count='malformed')
def r_message_cut(e):
    if e.msg is None:
        if e.role == 'server':
            return [hs(KU, b'')]
        msg = hs(NST, u32(7) + u32(8) + v8(b'n') + v16(b'ticket') + v16(b''))
        return [('wire', with_body(msg, msg[4:e.rng.randrange(4, len(msg))]), b'')]
    n = e.rng.randrange(4, len(e.msg))
    if e.stage == 'CERT':
        e.allowed = {DECODE, BADCERT}
    return [('wire', with_body(e.msg, e.msg[4:n]), e.msg)]


@err('client server', HELLOS, DECODE, plain=True, count='malformed')
def r_message_extended(e):
    junk = os.urandom(e.rng.choice((1, 2, 30)))
    if e.msg is None:
        if e.role == 'server':
            return [hs(KU, b'\0' + junk)]
        return [hs(NST, u32(7) + u32(8) + v8(b'n') + v16(b'ticket') + v16(b'') + junk)]
    return [('wire', with_body(e.msg, e.msg[4:] + junk), e.msg)]


@err('client server', ('FIN',), DECODE, DECRYPT, count='malformed')
def r_finished_length(e):
    b = e.msg[4:]
    b = e.rng.choice((b[:-1], b[:e.rng.randrange(len(b))], b + b'\0', b''))
    return [('wire', hs(FIN, b), e.msg)]


@err('client', ('after',), ILLEGAL, plain=True, count='malformed')
def r_key_update(e):
    return [hs(KU, bytes([e.rng.choice((2, 3, 255))]))]


@err('client', ('EE',), DECODE, plain=True, count='malformed')
def r_extension_overflow(e):
    """ An extension which is longer than the list it is in. """
    b = u16(e.rng.choice((X_SNI, X_ALPN, 0xfafa))) + u16(e.rng.randrange(1, 500))
    return [('wire', hs(EE, v16(b)), e.msg)]


def bent(rng, t, b):
    """ The body of a known extension of a ClientHello, which can no longer be decoded. """
    ways = [b + os.urandom(rng.choice((1, 2, 9)))]
    if b:
        ways.append(b[:rng.randrange(len(b))])
    if t in (X_GROUPS, X_SIGALGS):
        ways += [v16(b[2:] + b'\x04'), v16(b''), b'\x00\x03' + b[2:5]]
    if t == X_ALPN:
        ways += [v16(b''), v16(b[2:] + b'\x05ab'), v16(v8(b''))]
    if t == X_KEYSHARE:
        ways += [v16(b[2:] + b'\x00'), v16(u16(0x1d) + v16(b''))]
    if t == X_VERSIONS:
        ways += [v8(b''), v8(b[1:] + b'\x03')]
    return rng.choice(ways)


@err('server', ('CH',), DECODE, plain=True, count='malformed')
def r_hello_extension(e):
    d = parse(e.msg)
    known = [(t, b) for t, b in d['exts'] if t in (X_SNI, X_MFL, X_GROUPS, X_SIGALGS, X_HEARTBEAT, X_ALPN, X_SCERTT, X_VERSIONS,
                                                   X_KEYSHARE, X_STATUS)]
    t, b = e.rng.choice(known)
    return [('wire', build(swap(d, t, bent(e.rng, t, b))), e.msg)]


@err('client', ('EE',), DECODE, plain=True, count='malformed')
def r_answer_extension(e):
    t, b = e.rng.choice(((X_ALPN, v16(v8(b'h2')) + b'\0'), (X_ALPN, v16(b'')), (X_ALPN, b'\0'), (X_ALPN, v16(v8(b''))), (X_MFL, b''),
                         (X_MFL, b'\x01\x01'), (X_SNI, b'\0'), (X_HEARTBEAT, b''), (X_HEARTBEAT, b'\x01\x01'),
                         (X_SCERTT, b''), (X_SCERTT, b'\0\0')))
    return [ref13.ee_with(e.msg, drop=(t,), add=[(t, b)])]


@err('client', ('SH',), DECODE, plain=True, count='malformed')
def r_hello_answer_extension(e):
    t, b = e.rng.choice(((X_VERSIONS, b'\x03'), (X_VERSIONS, b'\x03\x04\0'), (X_KEYSHARE, b'\0'), (X_KEYSHARE, u16(0x1d)),
                         (X_KEYSHARE, u16(0x1d) + v16(bytes(32)) + b'\0'), (X_KEYSHARE, u16(0x1d) + v16(b''))))
    return [sh_with(e.msg, exts={t: b})]


# ---- what the server selects
def two(e):
    """ Leaves something not to be offered. """
    rng, sc = e.rng, e.sc
    sc['suites_c'] = sc['suites_s'] = scen.some(rng, scen.SUITES[:3])
    sc['groups_c'] = sc['groups_s'] = rng.sample(scen.FAST_GROUPS, 3)
    sc['alpn_c'] = sc['alpn_s'] = ['h2', 'http/1.1']


@err('client', ('SH', 'HRR'), ILLEGAL, setup=two, plain=True, count='selections')
def r_suite_selected(e):
    bad = e.rng.choice([x for x in scen.SUITES if x not in e.sc['suites_c']] + [0x1306, 0x002f, 0xc02f, 0x00ff])
    return [e.msg[:39 + e.msg[38]] + u16(bad) + e.msg[41 + e.msg[38]:]]


@err('client', ('SH',), ILLEGAL, setup=two, plain=True, count='selections')
def r_group_selected(e):
    unused = [g for g in scen.FAST_GROUPS if g not in e.sc['groups_c']] + [
        g for g in e.sc['groups_c'] if g not in [x for x, _ in e.peer.chs[0]['shares']]]
    g = e.rng.choice(unused)
    return [sh_with(e.msg, exts={X_KEYSHARE: u16(g) + v16(ref13.GROUPS[g].generate()[1])})]


@err('client', ('SH',), ILLEGAL, plain=True, count='selections')
def r_group_unknown(e):
    return [sh_with(e.msg, exts={X_KEYSHARE: u16(e.rng.choice((0x0a0a, 0x6399, 0x11ec))) + v16(os.urandom(32))})]


@err('client', ('HRR',), ILLEGAL, setup=two, plain=True, count='selections')
def r_group_retried(e):
    shared = [g for g, _ in e.peer.chs[0]['shares']]
    g = e.rng.choice([*shared, *(g for g in scen.FAST_GROUPS if g not in e.sc['groups_c']), 0x0a0a, 0x11ec])
    return [sh_with(e.msg, exts={X_KEYSHARE: u16(g)})]


@err('client', ('SH',), ILLEGAL, setup=two, plain=True, count='selections')
def r_compression_selected(e):
    return [sh_with(e.msg, compression=e.rng.choice((1, 64, 255)))]


@err('client', ('SH',), ILLEGAL, VERSION, DECODE, plain=True, count='selections')
def r_legacy_version(e):
    return [sh_with(e.msg, version=e.rng.choice((0x0300, 0x0301, 0x0302, 0x0304, 0xffff)))]


@err('client', ('SH',), ILLEGAL, VERSION, plain=True, count='selections')
def r_version_selected(e):
    v = e.rng.choice((0x0305, 0x7f1c, 0x0a0a, 0x0303, 0x0302, 0x0300))
    return [sh_with(e.msg, exts={X_VERSIONS: u16(v)})]


@err('client', ('SH',), ILLEGAL, plain=True, count='selections')
def r_version_before(e):
    return [sh_with(e.msg, exts={X_VERSIONS: u16(e.rng.choice((0x0303, 0x0302, 0x0301)))})]


@err('client', ('SH',), VERSION, plain=True, count='selections')
def r_no_version(e):
    return [sh_with(e.msg, drop=(X_VERSIONS,))]


@err('client', ('SH',), MISSING, plain=True, count='missing')
def r_no_share(e):
    return [sh_with(e.msg, drop=(X_KEYSHARE,))]


@err('client', ('HRR',), MISSING, ILLEGAL, setup=two, plain=True, count='missing')
def r_retry_for_nothing(e):
    return [sh_with(e.msg, drop=(X_KEYSHARE,))]


@err('client', ('SH', 'HRR', 'EE', 'CERT'), ILLEGAL, plain=True, setup=two, count='selections')
def r_extension_elsewhere(e):
    """ A known extension, in a message it is not for. """
    alpn, groups, sig = (X_ALPN, v16(v8(b'h2'))), (X_GROUPS, list16([0x1d])), (X_SIGALGS, list16([0x0403]))
    share, mfl, sni = (X_KEYSHARE, u16(0x1d) + v16(bytes(32))), (X_MFL, b'\x01'), (X_SNI, b'')
    versions, cookie, hb = (X_VERSIONS, u16(0x0304)), (X_COOKIE, v16(b'x')), (X_HEARTBEAT, b'\x01')
    if e.stage == 'EE':
        t, b = e.rng.choice((sig, share, versions, cookie, (X_STATUS, b''), (X_OIDF, v16(b''))))
        return [ref13.ee_with(e.msg, drop=(t,), add=[(t, b)])]
    if e.stage == 'CERT':
        t, b = e.rng.choice((alpn, groups, sig, share, mfl, sni, versions, cookie, hb))
        e.peer.entry_exts = {0: ext(t, b)}
        return [e.peer.certificate_message(e.peer.chs[-1])]
    t, b = e.rng.choice((alpn, groups, sig, mfl, sni, hb, *((cookie,) if e.stage == 'SH' else ())))
    return [sh_with(e.msg, add=[(t, b)])]


@err('client', ('EE',), ILLEGAL, setup=two, plain=True, count='selections')
def r_alpn_selected(e):
    return [ref13.ee_with(e.msg, drop=(X_ALPN,), add=[(X_ALPN, v16(v8(e.rng.choice((b'imap', b'x-never-heard', b'h3')))))])]


@err('client', ('EE',), ILLEGAL, DECODE, setup=two, plain=True, count='selections')
def r_alpn_twice(e):
    return [ref13.ee_with(e.msg, drop=(X_ALPN,), add=[(X_ALPN, v16(v8(b'h2') + v8(b'http/1.1')))])]


def no_alpn(e):
    e.sc['alpn_c'] = []


@err('client', ('EE',), 'unsupported_extension', setup=no_alpn, plain=True, count='selections')
def r_alpn_unasked(e):
    return [ref13.ee_with(e.msg, add=[(X_ALPN, v16(v8(b'h2')))])]


@err('client', ('SH', 'HRR', 'EE', 'CERT'), 'unsupported_extension', plain=True, setup=two, count='selections')
def r_extension_unasked(e):
    """ One which the client never heard of, or didn't send. """
    odd = [0xfafa, 0x0a0a, 0x4469, 17513, 0xff01, 23, 65535]
    t, b = e.rng.choice(odd), os.urandom(e.rng.choice((0, 1, 5)))
    asked = {x for x, _ in e.peer.chs[-1]['exts']}
    answers = [(X_MFL, b'\x01'), (X_SNI, b''), (X_CCT, b'\x00'), (X_SCERTT, b'\x00'), (X_SRTP, b'\x00\x02\x00\x01\x00')]
    if e.stage == 'EE' and e.rng.random() < .6:
        t, b = e.rng.choice([x for x in answers if x[0] not in asked])
    if e.stage == 'EE':
        return [ref13.ee_with(e.msg, add=[(t, b)])]
    if e.stage == 'CERT':
        if e.rng.random() < .3:
            t, b = X_SCT, v16(v16(b'sct'))
        e.peer.entry_exts = {0: ext(t, b)}
        return [e.peer.certificate_message(e.peer.chs[-1])]
    return [sh_with(e.msg, add=[(t, b)])]


@err('client', ('SH', 'HRR'), ILLEGAL, plain=True, setup=two, count='selections')
def r_session_id(e):
    n = e.msg[38]
    return [hs(SH, e.msg[4:38] + v8(os.urandom(e.rng.choice([x for x in (1, 31, 32) if x != n]))) + e.msg[39 + n:])]


@err('client', ('HRR',), ILLEGAL, VERSION, plain=True, setup=two, count='selections')
def r_version_retried(e):
    v = e.rng.choice((0x0305, 0x7f1c, 0x0a0a, 0x0303, 0x0302, 0x0300, None))
    if v is None:
        return [sh_with(e.msg, drop=(X_VERSIONS,))]
    return [sh_with(e.msg, exts={X_VERSIONS: u16(v)})]


@err('client', ('EE',), ILLEGAL, setup=small, plain=True, count='selections')
def r_fragment_length(e):
    other = [i for i in (1, 2, 3, 4) if 2 ** (8 + i) != e.sc['mfl']] + [0, 5, 255]
    return [ref13.ee_with(e.msg, drop=(X_MFL,), add=[(X_MFL, u8(e.rng.choice(other)))])]


@err('client', ('EE',), ILLEGAL, plain=True, count='selections')
def r_heartbeat_mode(e):
    return [ref13.ee_with(e.msg, drop=(X_HEARTBEAT,), add=[(X_HEARTBEAT, u8(e.rng.choice((0, 3, 255))))])]


def unsolicited(e, t):
    """ An answer to something which was not asked may also be refused as such. """
    if t not in {x for x, _ in e.peer.chs[-1]['exts']}:
        e.allowed = {ILLEGAL, UNSUPPORTED, 'unsupported_extension'}


@err('client', ('EE',), ILLEGAL, UNSUPPORTED, plain=True, count='selections')
def r_certificate_type(e):
    unsolicited(e, X_SCERTT)
    bad = [1, 3, 255] + [t for t, n in ((0, 'x509'), (2, 'raw')) if n not in scen.offered_types(e.sc)]
    return [ref13.ee_with(e.msg, drop=(X_SCERTT,), add=[(X_SCERTT, u8(e.rng.choice(bad)))])]


@err('client', ('EE',), ILLEGAL, UNSUPPORTED, plain=True, count='selections')
def r_client_certificate_type(e):
    unsolicited(e, X_CCT)
    bad = [1, 3, 255] + [t for t in (0, 2) if t not in (scen.own_types(e.sc) or [0])]
    return [ref13.ee_with(e.msg, drop=(X_CCT,), add=[(X_CCT, u8(e.rng.choice(bad)))])]


# ---- shares
def bad_share(rng, g, pub):
    """ (a share which cannot be used, is it short) """
    k = ref13.GROUPS[g].kind
    n = len(pub)
    if k == 'x':
        return rng.choice((bytes(n), b'\x01' + bytes(n - 1), pub[:-1], pub + b'\0', pub[:1]))
    if k == 'ec':
        x = bytearray(pub)
        x[-1] ^= 1
        return rng.choice((bytes(x), b'\x02' + pub[1:n // 2 + 1], pub[:-1], pub + b'\0', b'\x00', b'\x04' + bytes(n - 1),
                           b'\x04' + b'\xff' * (n - 1)))
    p = ref13.ffdhe_prime(n * 8)
    return rng.choice((0, 1, p - 1, p, p + 1)).to_bytes(n, 'big')


def shared_groups(e):
    e.sc['groups_c'] = e.sc['groups_s'] = [e.rng.choice([*scen.FAST_GROUPS, 0x100])]


@err('client', ('SH',), ILLEGAL, setup=shared_groups, plain=True, count='selections')
def r_share_of_the_server(e):
    g = e.sc['groups_c'][0]
    if ref13.GROUPS[g].kind == 'ff':
        e.allowed = {ILLEGAL, WEAK}
    return [sh_with(e.msg, exts={X_KEYSHARE: u16(g) + v16(bad_share(e.rng, g, ref13.GROUPS[g].generate()[1]))})]


@err('server', ('CH',), ILLEGAL, FAILURE, DECODE, WEAK, setup=shared_groups, plain=True, count='selections')
def r_share_of_the_client(e):
    g = e.sc['groups_c'][0]
    b = bad_share(e.rng, g, ref13.GROUPS[g].generate()[1])
    return [build(swap(parse(e.msg), X_KEYSHARE, v16(u16(g) + v16(b))))]


# ---- what the client offers
def hello(fn):
    def make(e):
        d = parse(e.msg)
        fn(e, d)
        return [build(d)]
    make.__name__ = fn.__name__
    return make


@err('server', ('CH',), MISSING, plain=True, count='missing')
@hello
def r_hello_misses(e, d):
    for t in e.rng.choice(((X_GROUPS,), (X_SIGALGS,), (X_GROUPS, X_SIGALGS), (X_GROUPS, X_KEYSHARE))):
        swap(d, t, None)


@err('server', ('CH',), VERSION, plain=True, count='nothing in common')
@hello
def r_hello_version(e, d):
    swap(d, X_VERSIONS, e.rng.choice((None, v8(u16(0x0303)), v8(u16(0x0303) + u16(0x0302)), v8(u16(0x0305)), v8(u16(0x7f1c)))))


@err('server', ('CH',), VERSION, ILLEGAL, DECODE, plain=True, count='nothing in common')
@hello
def r_hello_legacy_version(e, d):
    d['legacy_version'] = e.rng.choice((0x0300, 0x0301, 0x0304, 0, 0xffff))


@err('server', ('CH',), ILLEGAL, DECODE, plain=True, count='selections')
@hello
def r_hello_compression(e, d):
    d['compression'] = e.rng.choice((b'\x01', b'\x40\x00', b'\x00\x01', b'\x00\x00', b''))


@err('server', ('CH',), FAILURE, WEAK, plain=True, count='nothing in common')
@hello
def r_hello_parameters(e, d):
    x = e.rng.choice(('suites', 'groups', 'sigalgs', 'pkcs1'))
    if x == 'suites':
        d['suites'] = [0x1306, 0xc02f, 0x00ff, 0x0a0a][:e.rng.randint(1, 4)]
    elif x == 'groups':
        swap(d, X_GROUPS, list16([0x0a0a, 0x11ec]))
        swap(d, X_KEYSHARE, v16(u16(0x0a0a) + v16(b'\0')))
    elif x == 'sigalgs':
        swap(d, X_SIGALGS, list16([0x0a0a, 0x0904]))
    else:
        # these cannot sign handshakes
        swap(d, X_SIGALGS, list16([0x0401, 0x0501, 0x0601, 0x0201, 0x0203]))


@err('server', ('CH',), 'no_application_protocol', setup=two, plain=True, count='nothing in common')
@hello
def r_hello_alpn(e, d):
    swap(d, X_ALPN, v16(b''.join(v8(x) for x in e.rng.choice(([b'imap'], [b'x', b'spdy/1'], [b'h3', b'H2'])))))


@err('server', ('CH',), UNSUPPORTED, ILLEGAL, plain=True, count='nothing in common')
@hello
def r_hello_certificate_types(e, d):
    swap(d, X_SCERTT, None)
    bad = [t for t, n in ((0, 'x509'), (2, 'raw')) if n not in e.sc['server_certs']]
    if bad == [2] and e.rng.random() < .5 or not bad:
        bad = [1]
        e.allowed = {UNSUPPORTED, ILLEGAL}
    else:
        e.allowed = {UNSUPPORTED}
    d['exts'].insert(0, (X_SCERTT, v8(bytes(bad))))


@err('server', ('CH',), ILLEGAL, plain=True, count='selections')
@hello
def r_hello_values(e, d):
    t, b = e.rng.choice(((X_MFL, u8(e.rng.choice((0, 5, 255)))), (X_HEARTBEAT, u8(e.rng.choice((0, 3, 255))))))
    swap(d, t, None)
    d['exts'].insert(0, (t, b))


@err('server', ('CH',), ILLEGAL, plain=True, count='selections')
@hello
def r_hello_share_twice(e, d):
    g, k = d['shares'][0]
    swap(d, X_KEYSHARE, v16((u16(g) + v16(k)) + (u16(g) + v16(ref13.GROUPS[g].generate()[1]))))


@err('server', ('CH',), ILLEGAL, plain=True, count='selections')
@hello
def r_hello_extension_elsewhere(e, d):
    d['exts'].insert(0, e.rng.choice(((X_OIDF, v16(b'')),)))


def retry(e):
    """ The server of e will ask for another share. """
    two(e)
    e.kw['shares'] = []


@err('server', ('CH2',), ILLEGAL, setup=retry, plain=True, count='selections')
@hello
def r_second_random(e, d):
    d['random'] = os.urandom(32)


@err('server', ('CH2',), ILLEGAL, FAILURE, setup=retry, plain=True, count='selections')
@hello
def r_second_suite(e, d):
    suite = scen.expected(e.sc)['suite']
    d['suites'] = [x for x in scen.SUITES if x != suite]


@err('server', ('CH2',), ILLEGAL, MISSING, setup=retry, plain=True, count='selections')
@hello
def r_second_share(e, d):
    g = e.rng.choice([x for x in scen.FAST_GROUPS if x != scen.expected(e.sc)['group']])
    swap(d, X_KEYSHARE, e.rng.choice((None, v16(b''), v16(u16(g) + v16(ref13.GROUPS[g].generate()[1])))))


@err('server', ('CH2',), DECODE, setup=retry, plain=True, count='malformed')
def r_second_cut(e):
    return [('wire', with_body(e.msg, e.msg[4:e.rng.randrange(4, len(e.msg))]), e.msg)]


@err('server', ('CH2',), UNEXPECTED, setup=retry, plain=True, count='unexpected')
def r_second_stray(e):
    m = stray(e.rng, e.rng.choice(('SH', 'HRR', 'EE', 'CR', 'CV', 'NST', 'EOED')), e.peer)
    return [('wire', m, b''), e.msg]


@err('server', ('CH2',), VERSION, setup=retry, plain=True, count='nothing in common')
@hello
def r_second_version(e, d):
    swap(d, X_VERSIONS, e.rng.choice((None, v8(u16(0x0303)))))


# ---- authentication
@err('client', ('CV',), DECRYPT, plain=True, count='signatures')
def r_signature(e):
    b = bytearray(e.msg)
    way = e.rng.choice(('bit', 'bit', 'other', 'context', 'hash'))
    p = e.peer
    if way == 'bit':
        b[e.rng.randrange(8, len(b))] ^= 1 << e.rng.randrange(8)
        return [('wire', bytes(b), e.msg)]
    data = {'other': ref13.CV_SERVER + os.urandom(len(p.th())), 'context': ref13.CV_CLIENT + p.th(), 'hash': p.th()}[way]
    return [hs(CV, u16(p.scheme) + v16(ref13.sign(p.key, p.scheme, data)))]


def other_schemes(e):
    e.sc['sigs_c'] = scen.own_schemes(e.sc)
    e.sc['sigs_s'] = list(scen.SIGALGS)
    e.rest = [s for s in scen.SIGALGS if s not in e.sc['sigs_c']]


@err('client', ('CV',), ILLEGAL, setup=other_schemes, plain=True, count='signatures')
def r_scheme_not_offered(e):
    bad = e.rng.choice([*e.rest, 0x0401, 0x0501, 0x0201, 0x0203, 0x0a0a])
    return [('wire', hs(CV, u16(bad) + e.msg[6:]), e.msg)]


def all_schemes(e):
    e.sc['sigs_c'] = e.sc['sigs_s'] = list(scen.SIGALGS)


@err('client', ('CV',), ILLEGAL, setup=all_schemes, plain=True, count='signatures')
def r_scheme_unfit(e):
    bad = e.rng.choice([s for s in scen.SIGALGS if s not in scen.own_schemes(e.sc)])
    return [('wire', hs(CV, u16(bad) + e.msg[6:]), e.msg)]


@err('client server', ('FIN',), DECRYPT, count='signatures')
def r_finished(e):
    b = bytearray(e.msg)
    if e.rng.random() < .7:
        b[e.rng.randrange(4, len(b))] ^= 1 << e.rng.randrange(8)
    else:
        b[4:] = e.rng.choice((bytes(len(b) - 4), os.urandom(len(b) - 4)))
    return [('wire', bytes(b), e.msg)]


# ---- certificates
def x509(e):
    if e.sc['kind'] not in pki.X509_KINDS:
        e.sc['kind'] = 'p256'
    all_schemes(e)
    e.sc.update(server_certs=['x509'], trust=['store'])
    e.host = e.sc['host'] = pki.HOST


def no_trust(e):
    x509(e)
    e.sc['trust'] = e.rng.choice((['none'], ['store']))


@err('client', ('CERT',), DECODE, setup=no_trust, plain=True, count='certificates')
def r_no_certificate(e):
    return [hs(CERT, v8(b'') + v24(b''))]


@err('client', ('CERT',), BADCERT, DECODE, UNSUPPORTED, setup=no_trust, plain=True, count='certificates')
def r_certificate_garbage(e):
    der = e.peer.chain[0]
    spki = pki.spki(e.peer.key.public_key())
    b = e.rng.choice((os.urandom(300), der[:-1], der + b'\0', b'\x30\x00', der[:200], b'\x30\x80' + der[4:], spki))
    return [hs(CERT, v8(b'') + v24(v24(b) + v16(b'')))]


@err('client', ('CERT',), DECODE, BADCERT, ILLEGAL, setup=no_trust, plain=True, count='certificates')
def r_certificate_empty(e):
    return [hs(CERT, v8(b'') + v24(v24(b'') + v16(b'')))]


def impostor(e):
    x509(e)
    e.sc['via'] = 'root'
    e.bad = e.rng.choice([b for b in BAD_CHAINS if b not in ('empty', 'too_deep', 'flipped_cert')])
    chain, key = getattr(c05, 'b_' + e.bad)(e.rng)
    e.kw.update(chain=chain, key=key, pss_oid=False)


@err('client', ('CERT',), *CERT_ALERTS, setup=impostor, count='certificates')
def r_chain(e):
    e.allowed = {'expired': {'certificate_expired', BADCERT, 'certificate_unknown'},
                 'unknown_root': {'unknown_ca', BADCERT, 'certificate_unknown'}}.get(e.bad, set(CERT_ALERTS))
    return [e.msg]


def revoked(e):
    x509(e)
    e.sc['via'] = 'inter'
    node = scen.leaf_node(e.sc['kind'], 'inter')
    e.ckw['revocation_list'] = pki.crl(node.issuer, [node.cert.serial_number])


@err('client', ('CERT',), 'certificate_revoked', BADCERT, 'certificate_unknown', setup=revoked, count='certificates')
def r_revoked(e):
    return [e.msg]


def stapled(e):
    x509(e)
    e.sc['via'] = 'inter'
    node = scen.leaf_node(e.sc['kind'], 'inter')
    kind = e.rng.choice(('revoked', 'unknown', 'stale', 'garbage', 'other', 'refused', 'forged'))
    if kind in ('revoked', 'unknown'):
        b = pki.ocsp_response(node, node.issuer, status=kind)
    elif kind == 'stale':
        b = pki.ocsp_response(node, node.issuer, this=pki.now() - 48 * pki.HOUR, nxt=pki.now() - 24 * pki.HOUR)
    elif kind == 'garbage':
        b = os.urandom(e.rng.choice((1, 100)))
    elif kind == 'other':
        b = pki.ocsp_response(node, node.issuer, cert=pki.leaf('p256', 'inter', n=7))
    elif kind == 'forged':
        b = pki.ocsp_response(node, node.issuer, signer=pki.root(7))
    else:
        b = pki.ocsp_unsuccessful()
    e.kw['status'] = b


@err('client', ('CERT',), 'bad_certificate_status_response', *CERT_ALERTS, setup=stapled, count='certificates')
def r_staple(e):
    return [e.msg]


@err('client', ('CERT',), ILLEGAL, DECODE, 'bad_certificate_status_response', setup=x509, plain=True, count='certificates')
def r_status_type(e):
    e.peer.entry_exts = {0: ext(X_STATUS, u8(e.rng.choice((0, 2, 255))) + v24(b'what'))}
    return [e.peer.certificate_message(e.peer.chs[-1])]


def raw_key(e):
    if e.sc['kind'] == 'rsapss':
        e.sc['kind'] = 'p256'
    all_schemes(e)
    e.sc.update(server_certs=['raw'], trust=['keys'])


@err('client', ('CERT',), *CERT_ALERTS, setup=raw_key, plain=True, count='certificates')
def r_raw_key(e):
    spki = pki.spki(pki.key('p256', 'nobody').public_key())
    return [hs(CERT, v8(b'') + v24(v24(spki) + v16(b'')))]


def asked(e):
    e.kw['cert_request'] = True


@err('client', ('CR',), MISSING, setup=asked, plain=True, count='missing')
def r_request_without_schemes(e):
    return [hs(CR, v8(b'') + v16(e.rng.choice((b'', ext(0xfafa, b'x')))))]


@err('client', ('CR',), DECODE, setup=asked, plain=True, count='malformed')
def r_request_cut(e):
    return [('wire', with_body(e.msg, e.msg[4:e.rng.randrange(4, len(e.msg))]), e.msg)]


def cases(tier, seed):
    k = 14 if tier == 'quick' else 400
    out = []
    for name, c in CLASSES.items():
        # the classes of few stages get as much attention
        m = max(1, 4 // len(c.stages))
        out += [{'what': 'error', 'class': name, 'at': s, 'n': n} for s in c.stages for n in range(k * m)]
    out += [{'what': 'config', 'n': n} for n in range(25 * k)]
    return out


def run_case(spec, ctx):
    with KeyLog() as kl:
        globals()['run_' + spec['what']](spec, ctx, kl)


def run_error(spec, ctx, kl):
    rng, c, at = ctx.rng, CLASSES[spec['class']], spec['at']
    role = c.roles
    sc = scen.simple(suites_c=[rng.choice(scen.SUITES)], groups_c=[0x1d, 0x17], groups_s=[0x1d, 0x17]) if rng.random() < .4 \
        else scen.rand(rng, compatible=True)
    sc = {**sc, **({'suites_s': sc['suites_c']} if not set(sc['suites_c']) & set(sc['suites_s']) else {})}
    e = E(rng, role, at, sc)
    if c.setup:
        c.setup(e)
    if at == 'HRR' or spec['class'] == 'client:second-retry':
        if len(sc['groups_c']) < 2:
            sc['groups_c'] = sc['groups_s'] = [0x1d, 0x17]
        e.kw['hrr_group'] = sc['groups_c'][1]
    done = []

    def item(peer, msg):
        if done:
            return [msg]
        e.peer, e.msg = peer, msg
        items = c.make(e)
        done.append(items)
        return items
    lay = ref13.Layout() if c.plain else ref13.Layout(rng, rng.choice(('single', 'coalesce', 'random')), rng.choice(('none', 'random')))
    kw = {'layout': lay, 'lenient': True, 'script': {at: item}, **e.kw}
    if role == 'client':
        kw.setdefault('hrr_group', None)
        ref = Ref(scen.ref_server(sc, groups=sc['groups_c'], **kw) if kw['hrr_group'] else scen.ref_server(sc, **kw))
        sio = Sio(scen.client_config(sc, log_keys=True, **e.ckw), server_hostname=e.host)
        link = Link(sio, ref, *scen.segmenters(rng))
    else:
        kw.setdefault('shares', [scen.expected(sc)['group']])
        ref = Ref(scen.ref_client(sc, **kw))
        sio = Sio(scen.server_config(sc, log_keys=True, **e.ckw))
        link = Link(ref, sio, *scen.segmenters(rng))
    link.start()
    link.run()
    why, half = f"{spec['class']} at {at}", False
    if at == 'after':
        ctx.require(sio.connected, 'compatible handshake does not complete', f'{sio.error!r} {ref.error!r}')
        if rng.random() < .5:
            sio.write(b'before')
            ref.peer.send_app(b'before too')
            link.run()
        half = rng.random() < .3
        if half:
            sio.conn.close_sending_end()
            link.run()
        play(ref.peer, item(ref.peer, None))
        link.run()
    ctx.require(done, 'compatible handshake does not reach the stage', f'{why} {sio.error!r} {ref.error!r} {sc}')
    judged(ctx, sio, ref, kl, e.allowed or c.allowed, EPOCH[role, at], why, spec['class'].split(':')[1], half)
    if c.count:
        ctx.count(c.count)
    ctx.eval()
    ctx.seen(spec['class'], at, ref.peer.suite.name if ref.peer.suite else '', alert_name(sio.error))
    ctx.sample({'role': role, 'class': c.name, 'at': at, 'alert': alert_name(sio.error)})


def play(peer, items):
    for it in items:
        if isinstance(it, bytes):
            peer.put(HANDSHAKE, it)
        elif it[0] == 'wire':
            peer.put(HANDSHAKE, it[1])
        elif it[0] == 'record':
            peer.put(*it[1:])
        elif it[0] == 'do':
            it[1](peer)
        else:
            peer.outbuf += it[1]


def judged(ctx, sio, ref, kl, allowed, epoch, why, name, half=False):
    """ The raised error, the alert on the wire, and its keys. half: it has said that it sends nothing more. """
    sio.out()
    exc = sio.error
    ctx.require(exc is not None, f'{name}: the error is not reported to the caller', f'{why}: connected={sio.connected} {ref.error!r}')
    ctx.require(isinstance(exc, TLSError), f'{name}: {type(exc).__name__} is reported to the caller', f'{why}: {exc!r} {judge.trace(exc)}')
    got = alert_name(exc)
    ctx.check(len(sio.errors) == 1, f'{name}: reported more than once', f'{why}: {sio.errors}')
    ctx.check(got in allowed, f'{name}: reported as {got}', lambda: f'{why}: {exc!r} instead of {sorted(allowed)} {judge.trace(exc)}')
    recs, rest = records(sio.tx)
    clear = [(bytes(b), i) for i, (t, _, b) in enumerate(recs) if t == ALERT]
    if epoch == 'clear':
        # nothing protected goes before it, nor after
        ctx.check(len(clear) == 1, f'{name}: {len(clear)} alerts in clear', f'{why}: {clear} {exc!r} {[r[0] for r in recs]}')
        ctx.check(not any(t == APPDATA for t, _, _ in recs), f'{name}: something is protected before the keys are in place', why)
        if clear:
            ctx.check(clear[0][1] == len(recs) - 1, f'{name}: the alert is not the last record', f'{why}: {recs}')
            wire = clear[0][0]
            ctx.check(len(wire) == 2 and wire[0] == 2, f'{name}: the alert is not fatal', wire.hex())
            ctx.check(ref13.ALERTS.get(wire[-1], wire[-1]) == got, f'{name}: the alert on the wire is not the error raised',
                      f'{why}: {wire.hex()} {exc!r}')
        ctx.count('in clear')
    elif half:
        ctx.check(not clear and [a[:2] for a in ref.peer.alerts_in] == [(1, 'close_notify')],
                  f'{name}: an alert is sent on a closed direction', f'{why}: {clear} {ref.peer.alerts_in}')
        ctx.count('errors once half-closed')
    else:
        ctx.check(not clear, f'{name}: the alert is sent in clear', f'{why}: {clear}')
        # as the peer deciphers it
        alerts = ref.peer.alerts_in
        ctx.check(len(alerts) == 1 and alerts[0][:2] == (2, got), f'{name}: the alert the peer gets is not the error raised',
                  f'{why}: {alerts} {exc!r} {ref.error!r}')
        ctx.check(all(a[2] == epoch for a in alerts), f'{name}: the alert is not protected with the current key',
                  f'{why}: {alerts} instead of {epoch}')
        ctx.count({'hs': 'under handshake keys', 'app': 'under application keys'}[epoch])
    ctx.check(not sio.connected, f'{name}: still connected', why)
    tap, side = judge.own_tap(sio, kl, peer=ref.peer)
    judge.outcome(ctx, sio, side, why, can_send=not half)
    ctx.count('errors judged')


def run_config(spec, ctx, kl):
    """ Two endpoints with nothing in common: both report the same error, prescribed for what is missing. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=False)
    allowed = scen.failures(sc)
    c, s = scen.pair(sc, {}, {'log_keys': True})
    Link(c, s, *scen.segmenters(rng)).handshake()
    for e in (s, c):
        ctx.require(isinstance(e.error, TLSError), f'nothing in common: the error is not reported to the {e.side}', f'{e.error!r} {sc}')
        ctx.check(alert_name(e.error) in allowed, f'nothing in common: reported as {alert_name(e.error)} to the {e.side}',
                  f'{e.error!r} instead of {allowed}')
    ctx.check(alert_name(c.error) == alert_name(s.error), 'nothing in common: the endpoints report different errors',
              f'{c.error!r} {s.error!r}')
    alerts = [(bytes(b)) for t, _, b in records(s.tx)[0] if t == ALERT]
    ctx.check(len(alerts) == 1 and alerts[0][0] == 2 and ref13.ALERTS.get(alerts[0][1]) == alert_name(s.error),
              'nothing in common: not one fatal alert in clear', alerts)
    ctx.check(not [1 for t, _, b in records(c.tx)[0] if t == ALERT], 'nothing in common: the alert is answered', '')
    ctx.count('nothing in common')
    ctx.count('errors judged')
    ctx.count('in clear')
    ctx.eval()
    ctx.seen('config', alert_name(s.error), *sorted(allowed))
