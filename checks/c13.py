""" C13: wire encoding and decoding are exact inverses and strict. """
import io
import types

from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat, load_der_public_key
from cryptography.x509 import load_der_x509_certificate

from siotls import TLSError
from siotls.contents import ApplicationData, ChangeCipherSpec, Content, Heartbeat, alerts
from siotls.contents import handshakes as H
from siotls.contents.handshakes import certificate as HC
from siotls.contents.handshakes import extensions as E
from siotls.contents.handshakes.extensions.early_data import EarlyData, NewSessionEarlyData
from siotls.iana import (
    AlertDescription, AlertLevel, CertificateType, ContentType, HandshakeType, HeartbeatMessageType, HeartbeatMode,
    MaxFragmentLengthCode, NamedGroup, TLSVersion)
from siotls.serial import SerialIO

from lib import mutate, ref13, scen, wire
from lib.link import Link, Ref, Sio
from lib.wire import Bad, In, Tolerated

PID, LEVEL = 'C13', 'exploration'
RULE = ('distinct (message, kind of malformation, extension concerned, verdict) encodings on which the library and an '
        'independent strict decoder of the RFC syntax were compared')
ASSUMPTIONS = [
    'not judged: identical duplicate extensions, ALPN names which are not printable, server names which are not lower '
    'case host names, the value of padding bytes, certificates other than a set of real ones',
    'ValueError out of a parser counts as a refusal: receive_data turns it into decode_error (checked over connections)',
]
MINIMUM = {'round trips': 5000, 'built messages': 5000, 'refusals': 40000, 'acceptances': 3000, 'extensions': 10000,
           'misplaced extensions': 300, 'over a connection': 1000, 'out of bounds vectors': 150, 'primitives': 3000}

NAMES = list(wire.CONTENTS)
HEAVY = ('CH', 'SH', 'HRR', 'EE', 'CERT', 'CERT-RAW', 'CR', 'NST')


def cases(tier, seed):
    k = 8 if tier == 'quick' else 100
    out = []
    for name in NAMES:
        out += [{'what': 'message', 'name': name, 'n': n} for n in range((12 if name in HEAVY else 4) * k)]
    for where in ('CH', 'SH', 'HRR', 'EE', 'CERT', 'CR', 'NST'):
        for t in (*wire.KNOWN, *wire.UNKNOWN):
            out.append({'what': 'extension', 'where': where, 'type': t, 'n': k})
    out += [{'what': 'bounds', 'n': n} for n in range(k)]
    out += [{'what': 'connection', 'role': r, 'n': n} for r in ('client', 'server') for n in range(150 * k)]
    out += [{'what': 'primitive', 'n': n} for n in range(12 * k)]
    out += [{'what': 'alerts', 'n': 0}]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)


# ------------------------------------------------ the library's objects

def kwargs(name, side=None):
    raw = CertificateType.RAW_PUBLIC_KEY if name == 'CERT-RAW' else CertificateType.X509
    return {'config': types.SimpleNamespace(other_side='server', side='client'),
            'nconfig': types.SimpleNamespace(server_certificate_type=raw, client_certificate_type=raw)}


def decode(name, data):
    """ As receive_data does. """
    stream = SerialIO(data)
    obj = Content.get_parser(ContentType(wire.CONTENTS[name][0])).parse(stream, **kwargs(name))
    stream.assert_eof()
    return obj


def ints(items):
    return [int(x) for x in items]


NORM_EXT = {
    0: {'CH': lambda e: {'names': [{'type': int(n.name_type), 'name': n.host_name.encode('ascii', 'replace')
                                    if n.host_name.isascii() else idna_of(n.host_name)}
                                   for n in e.server_names.values()]}, 'EE': lambda e: {}},
    1: lambda e: {'code': int(e.code)},
    5: {'CH': lambda e: {'type': int(e.status_type), 'responders': [bytes(b) for b in e.responder_id_list],
                         'extensions': bytes(e.request_extensions)},
        'CERT': lambda e: {'type': int(e.status_type), 'response': bytes(e.ocsp_response)}, 'CR': lambda e: {}},
    10: lambda e: {'groups': ints(e.named_group_list)},
    13: lambda e: {'schemes': ints(e.supported_signature_algorithms)},
    14: lambda e: {'profiles': [bytes(p) for p in e.protection_profiles], 'mki': bytes(e.mki)},
    15: lambda e: {'mode': int(e.mode)},
    16: lambda e: {'protocols': [str(p).encode() for p in e.protocol_name_list]},
    18: {'CH': lambda e: {}, 'CR': lambda e: {}, 'CERT': lambda e: {'list': [bytes(b) for b in e.sct_list]}},
    19: {'CH': lambda e: {'types': ints(e.certificate_types)}, 'EE': lambda e: {'type': int(e.certificate_type)}},
    21: lambda e: {'zeros': bytes(e.zeros_count)},
    41: {'CH': lambda e: {'identities': [{'identity': bytes(i.identity), 'age': i.obfuscated_ticket_age} for i in e.identities],
                          'binders': [bytes(b) for b in e.binders]}, 'SH': lambda e: {'selected': e.selected_identity}},
    42: {'CH': lambda e: {}, 'EE': lambda e: {}, 'NST': lambda e: {'size': e.max_early_data_size}},
    43: {'CH': lambda e: {'versions': ints(e.versions)}, 'SH': lambda e: {'version': int(e.selected_version)},
         'HRR': lambda e: {'version': int(e.selected_version)}},
    44: lambda e: {'cookie': bytes(e.cookie)},
    45: lambda e: {'modes': ints(e.ke_modes)},
    47: lambda e: {'authorities': [bytes(a) for a in e.autorities]},
    48: lambda e: {'filters': [{'oid': bytes(f[0]), 'values': bytes(f[1])} for f in e.filters]},
    49: lambda e: {},
    51: {'CH': lambda e: {'shares': [{'group': int(g), 'key_exchange': bytes(s)} for g, s in e.client_shares.items()]},
         'SH': lambda e: {'share': {'group': int(e.group), 'key_exchange': bytes(e.key_exchange)}},
         'HRR': lambda e: {'group': int(e.selected_group)}},
}
NORM_EXT[20], NORM_EXT[50] = NORM_EXT[19], NORM_EXT[13]


def idna_of(name):
    import idna
    return idna.encode(name)


def where_of(name):
    return 'CERT' if name.startswith('CERT') else name


def norm_exts(where, exts):
    out = []
    for t, e in exts.items():
        t = int(t)
        f = NORM_EXT.get(t)
        if isinstance(f, dict):
            f = f.get(where)
        out.append((t, f(e) if f else bytes(e.extension_data)))
        if int(e.extension_type) != t:
            out.append(('mismatch', int(e.extension_type), t))
    return out


def norm(name, o):
    if name == 'CH':
        return {'version': int(o.legacy_version).to_bytes(2, 'big'), 'random': bytes(o.random),
                'session_id': bytes(o.legacy_session_id), 'suites': ints(o.cipher_suites),
                'compression': b'\x01' + bytes(o.legacy_compression_methods), 'extensions': norm_exts('CH', o.extensions)}
    if name in ('SH', 'HRR'):
        return {'version': int(o.legacy_version).to_bytes(2, 'big'), 'random': bytes(o.random),
                'session_id': bytes(o.legacy_session_id_echo), 'suite': int(o.cipher_suite),
                'compression': bytes([o.legacy_compression_methods]), 'extensions': norm_exts(name, o.extensions)}
    if name == 'NST':
        return {'lifetime': o.ticket_lifetime, 'age_add': o.ticket_age_add, 'nonce': bytes(o.ticket_nonce),
                'ticket': bytes(o.ticket), 'extensions': norm_exts('NST', o.extensions)}
    if name == 'EE':
        return {'extensions': norm_exts('EE', o.extensions)}
    if name in ('CERT', 'CERT-RAW'):
        der = (lambda e: e.certificate.public_bytes(Encoding.DER)) if name == 'CERT' else (
            lambda e: e.public_key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo))
        return {'context': bytes(o.certificate_request_context),
                'certs': [{'cert': der(e), 'extensions': norm_exts('CERT', e.extensions)} for e in o.certificate_list]}
    if name == 'CR':
        return {'context': bytes(o.certificate_request_context), 'extensions': norm_exts('CR', o.extensions)}
    if name == 'CV':
        return {'scheme': int(o.algorithm), 'signature': bytes(o.signature)}
    if name == 'FIN':
        return {'verify_data': bytes(o.verify_data)}
    if name == 'KU':
        return {'request': int(o.request_update)}
    if name == 'ALERT':
        return {'level': int(o.level), 'description': int(o.description)}
    if name == 'HEARTBEAT':
        return {'type': int(o.heartbeat_type), 'payload': bytes(o.payload), 'padding': bytes(o.padding)}
    if name == 'APPDATA':
        return bytes(o.content_data)
    if name == 'CCS':
        return b'\x01'
    return {}


BUILD_EXT = {
    0: {'CH': lambda v: E.ServerNameListRequest([E.HostName(x['name'].decode()) for x in v['names']]),
        'EE': lambda v: E.ServerNameResponse()},
    1: lambda v: E.MaxFragmentLength(MaxFragmentLengthCode(v['code'])),
    5: {'CH': lambda v: E.OCSPStatusRequest(v['responders'], v['extensions']), 'CERT': lambda v: E.OCSPStatus(v['response']),
        'CR': lambda v: E.ClientCertificateStatusRequest()},
    10: lambda v: E.SupportedGroups(v['groups']),
    13: lambda v: E.SignatureAlgorithms(v['schemes']),
    14: lambda v: E.UseSRTP([tuple(p) for p in v['profiles']], v['mki']),
    15: lambda v: E.Heartbeat(HeartbeatMode(v['mode'])),
    16: lambda v: E.ALPN([p.decode() for p in v['protocols']]),
    18: {'CH': lambda v: E.SignedCertificateTimestamp(), 'CR': lambda v: E.SignedCertificateTimestamp(),
         'CERT': lambda v: E.SignedCertificateTimestampList(v['list'])},
    19: {'CH': lambda v: E.ClientCertificateTypeRequest(v['types']),
         'EE': lambda v: E.ClientCertificateTypeResponse(CertificateType(v['type']))},
    20: {'CH': lambda v: E.ServerCertificateTypeRequest(v['types']),
         'EE': lambda v: E.ServerCertificateTypeResponse(CertificateType(v['type']))},
    21: lambda v: E.Padding(len(v['zeros'])),
    41: {'CH': lambda v: E.PreSharedKeyRequest([E.PskIdentity(i['identity'], i['age']) for i in v['identities']], v['binders']),
         'SH': lambda v: E.PreSharedKeyResponse(v['selected'])},
    42: {'CH': lambda v: EarlyData(), 'EE': lambda v: EarlyData(), 'NST': lambda v: NewSessionEarlyData(v['size'])},
    43: {'CH': lambda v: E.SupportedVersionsRequest(v['versions']),
         'SH': lambda v: E.SupportedVersionsResponse(TLSVersion(v['version'])),
         'HRR': lambda v: E.SupportedVersionsResponse(TLSVersion(v['version']))},
    44: lambda v: E.Cookie(v['cookie']),
    45: lambda v: E.PskKeyExchangeModes(v['modes']),
    47: lambda v: E.CertificateAuthorities(v['authorities']),
    48: lambda v: E.OIDFilters([E.OIDFilter(f['oid'], f['values']) for f in v['filters']]),
    49: lambda v: E.PostHandshakeAuth(),
    50: lambda v: E.SignatureAlgorithmsCert(v['schemes']),
    51: {'CH': lambda v: E.KeyShareRequest({s['group']: s['key_exchange'] for s in v['shares']}),
         'SH': lambda v: E.KeyShareResponse(v['share']['group'], v['share']['key_exchange']),
         'HRR': lambda v: E.KeyShareRetry(NamedGroup(v['group']))},
}


class Cannot(Exception):
    pass


def build_exts(where, exts):
    out = []
    for t, v in exts:
        f = BUILD_EXT.get(t)
        if isinstance(f, dict):
            f = f.get(where)
        if f is None:
            raise Cannot
        out.append(f(v))
    return out


def build(name, v):
    if name == 'CH':
        o = H.ClientHello(v['random'], v['suites'], build_exts('CH', v['extensions']))
        o.legacy_session_id = v['session_id']
        return o
    if name == 'SH':
        return H.ServerHello(v['random'], v['session_id'], v['suite'], build_exts('SH', v['extensions']))
    if name == 'HRR':
        return H.HelloRetryRequest(wire.HRR_RANDOM, v['session_id'], v['suite'], build_exts('HRR', v['extensions']))
    if name == 'NST':
        return H.NewSessionTicket(v['lifetime'], v['age_add'], v['nonce'], v['ticket'], build_exts('NST', v['extensions']))
    if name == 'EE':
        return H.EncryptedExtensions(build_exts('EE', v['extensions']))
    if name == 'CERT':
        return H.Certificate(v['context'], [HC.X509(load_der_x509_certificate(c['cert']), build_exts('CERT', c['extensions']))
                                            for c in v['certs']])
    if name == 'CERT-RAW':
        return H.Certificate(v['context'], [HC.RawPublicKey(load_der_public_key(c['cert']), build_exts('CERT', c['extensions']))
                                            for c in v['certs']])
    if name == 'CR':
        return H.CertificateRequest(v['context'], build_exts('CR', v['extensions']))
    if name == 'CV':
        return H.CertificateVerify(v['scheme'], v['signature'])
    if name == 'FIN':
        return H.Finished(v['verify_data'])
    if name == 'KU':
        return H.KeyUpdate(bool(v['request']))
    if name == 'EOED':
        return H.EndOfEarlyData()
    if name == 'HEARTBEAT':
        return Heartbeat(HeartbeatMessageType(v['type']), v['payload'], v['padding'])
    if name == 'APPDATA':
        return ApplicationData(v)
    if name == 'CCS':
        return ChangeCipherSpec()
    if name == 'ALERT':
        try:
            return alerts.Alert[AlertDescription(v['description'])](level=AlertLevel(v['level']))
        except (ValueError, KeyError):
            raise Cannot from None
    raise Cannot


# ------------------------------------------------------------ judgement

def ext_shape(tree):
    """ For the coverage. """
    if isinstance(tree, dict) and 'extensions' in tree and isinstance(tree['extensions'], list):
        return sorted(t for t, _ in tree['extensions'])
    return []


KNOWN_GAPS = {('CERT', 18), ('CERT-RAW', 18), ('CR', 5)}


def gap(ctx, name, tree):
    """ Extensions whose body in this message is not what the library thinks: known findings. """
    lists = [tree.get('extensions')] if isinstance(tree, dict) and isinstance(tree.get('extensions'), list) else []
    if isinstance(tree, dict) and 'certs' in tree:
        lists += [c['extensions'] for c in tree['certs']]
    found = {(name, t) for e in lists for t, _ in e} & KNOWN_GAPS
    return found


def refused(exc):
    return isinstance(exc, (TLSError, ValueError))


def compare(ctx, name, data, kind):
    """ The library and the grammar on the same bytes. """
    grammar = wire.CONTENTS[name][1]
    try:
        want = grammar.dec(In(data))
    except Bad as exc:
        want = exc
    except Tolerated:
        want = None
    try:
        got = decode(name, bytes(data))
    except Exception as exc:
        if not refused(exc):
            ctx.violation(f'{type(exc).__name__} while decoding', f'{name} {kind} {exc!r} {bytes(data).hex()[:600]}')
            return
        if want is None:
            ctx.count('not judged')
        elif isinstance(want, Bad):
            ctx.count('refusals')
            ctx.seen(name, kind, 'refused', str(want)[:25])
        elif gap(ctx, name, want):
            for w, t in gap(ctx, name, want):
                ctx.violation(f'extension {t} of a {wire_name(w)} cannot be decoded', f'{exc!r}')
        else:
            ctx.violation('a well formed encoding is refused', f'{name} {kind} {exc!r} {want} {bytes(data).hex()[:800]}')
        return
    if want is None:
        ctx.count('not judged')
        return
    if isinstance(want, Bad):
        ctx.violation('a malformed encoding is accepted', f'{name} {kind}: {want}: {bytes(data).hex()[:800]}')
        return
    ctx.count('acceptances')
    n = norm(name, got)
    ctx.check(n == want, 'a decoded value is not the encoded one', lambda: f'{name} {kind}: got {n} want {want}')
    again = bytes(got.serialize())
    ctx.check(again == bytes(data), 'encoding a decoded value yields other bytes',
              lambda: f'{name} {kind}: {bytes(data).hex()[:500]} -> {again.hex()[:500]}')
    ctx.seen(name, kind, 'accepted', *ext_shape(want)[:3])
    return got


def wire_name(name):
    return 'Certificate' if name.startswith('CERT') else 'CertificateRequest' if name == 'CR' else name


def plain(o):
    """ Deep comparison which does not rely on the library's own. """
    if isinstance(o, dict):
        return {plain(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if isinstance(o, (bytes, bytearray)):
        return bytes(o)
    if isinstance(o, bool) or o is None:
        return o
    if isinstance(o, int):
        return int(o)
    if isinstance(o, str):
        return str(o)
    if hasattr(o, '__dict__') and type(o).__module__.startswith('siotls'):
        return (type(o).__name__, {k: plain(v) for k, v in vars(o).items()})
    return ('?', type(o).__name__)


def unknown(tree):
    if isinstance(tree, dict):
        return any(t not in wire.KNOWN for t in ext_shape(tree)) or any(
            unknown(c) for c in tree.get('certs', ()))
    return False


def run_message(spec, ctx):
    rng, name = ctx.rng, spec['name']
    grammar = wire.CONTENTS[name][1]
    for i in range(12):
        tree = grammar.gen(rng)
        data = grammar.enc(tree)
        if name == 'SH' and tree['random'] == wire.HRR_RANDOM:
            continue
        got = compare(ctx, name, data, 'canonical')
        ctx.count('round trips')
        if got is not None:
            ctx.count('extensions', len(ext_shape(tree)))
            try:
                # of unknown extensions the class is made anew each time
                same = name == 'ALERT' or unknown(tree) or got == decode(name, data)
                other = plain(got) == plain(decode(name, data))
            except Exception:
                same = other = False
            ctx.check(same and other, 'decoding the same bytes twice yields unequal values', f'{name} {data.hex()[:400]}')
        try:
            obj = build(name, tree)
        except Cannot:
            obj = None
        if obj is not None:
            ctx.count('built messages')
            b = bytes(obj.serialize())
            ctx.check(b == data, 'the encoding is not the one of the RFC', lambda: f'{name} {tree}: {b.hex()[:600]} want {data.hex()[:600]}')
            if got is not None:
                back = decode(name, b)
                ctx.check(norm(name, back) == norm(name, obj), 'decoding an encoded value yields another one', lambda: f'{name} {tree}')
                if name not in ('CERT', 'CERT-RAW'):
                    ctx.check(back == obj or plain(back)[1] == plain(obj)[1], 'decoding an encoded value yields another one',
                              lambda: f'{name} {back!r} {obj!r}')
        ctx.eval()
        # ---- malformed ones
        n = len(data)
        cuts = range(n) if n < 60 and i < 3 else sorted({rng.randrange(n) for _ in range(12)} if n else [])
        for c in cuts:
            compare(ctx, name, data[:c], 'cut')
            if name in wire.BODIES and c >= 4:
                compare(ctx, name, data[:1] + (c - 4).to_bytes(3, 'big') + data[4:c], 'cut and relabelled')
        for extra in (b'\0', rng.randbytes(rng.randint(1, 9))):
            if name not in ('HEARTBEAT', 'APPDATA'):
                compare(ctx, name, data + extra, 'trailing')
            if name in wire.BODIES:
                compare(ctx, name, data[:1] + (n - 4 + len(extra)).to_bytes(3, 'big') + data[4:] + extra, 'trailing inside')
        for _ in range(25):
            m = bytearray(data)
            if not m:
                break
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                k = rng.random()
                p = rng.randrange(len(m))
                if k < .35:
                    m[p] = (m[p] + rng.choice((1, 255, 2, 128))) % 256
                elif k < .5:
                    m[p] = rng.choice((0, 1, 255, rng.randrange(256)))
                elif k < .7:
                    del m[p:p + rng.choice((1, 1, 2, 4))]
                elif k < .9:
                    m[p:p] = rng.randbytes(rng.choice((1, 1, 2, 4)))
                else:
                    m[p:p] = m[p:p + rng.randint(1, 30)]
                if not m:
                    break
            if name in wire.BODIES and len(m) >= 4 and rng.random() < .7:
                m[0] = data[0]
                m[1:4] = (len(m) - 4).to_bytes(3, 'big')
            compare(ctx, name, bytes(m), 'mutant')
        for _ in range(6):
            # a length field of the tree moved, those around adjusted
            m = mutate_tree(rng, grammar, tree)
            if m is not None:
                compare(ctx, name, m, 'nested')
    ctx.sample({'message': name, 'bytes': data.hex()[:120], 'decoded': str(norm(name, decode(name, data)))[:200]}
               if not gap(ctx, name, tree) else {'message': name})


def mutate_tree(rng, grammar, tree):
    """ Canonical but for one field: its content changes and all the lengths around it follow. """
    import copy
    t = copy.deepcopy(tree)
    spots = []

    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if isinstance(v, bytes):
                    spots.append((o, k))
                walk(v)
        elif isinstance(o, list):
            for i, v in enumerate(o):
                if isinstance(v, bytes):
                    spots.append((o, i))
                walk(v)
            spots.append((o, None))
    walk(t)
    if not spots:
        return None
    o, k = rng.choice(spots)
    if k is None:
        x = rng.random()
        if x < .5:
            o.clear()
        elif o:
            o.append(copy.deepcopy(rng.choice(o)))
        else:
            return None
    else:
        o[k] = rng.choice((b'', o[k][:1], o[k] + b'\0', o[k][:-1], rng.randbytes(len(o[k])), b'\x00'))
    try:
        return grammar.enc(t)
    except (OverflowError, KeyError, TypeError):
        return None


def run_extension(spec, ctx):
    """ One extension, in any message: allowed there or not, then malformed. """
    rng, where, t = ctx.rng, spec['where'], spec['type']
    table = wire.X.get(where, {})
    names = ['CERT', 'CERT-RAW'] if where == 'CERT' else [where]
    for name in names:
        grammar = wire.CONTENTS[name][1]
        for i in range(3 * spec['n']):
            base = grammar.gen(rng)
            must = [(13, {'schemes': [0x403]})] if where == 'CR' and t != 13 else []
            if t == 41 and where == 'CH':
                must = [(45, {'modes': [1]})]
            if t in table:
                body = table[t].enc(table[t].gen(rng))
            else:
                src = [w for w in wire.X if t in wire.X[w]]
                w = rng.choice(src) if src else None
                body = wire.X[w][t].enc(wire.X[w][t].gen(rng)) if w else rng.randbytes(rng.choice((0, 2, 9)))
                ctx.count('misplaced extensions' if w else 'unknown extensions')
            muts = [('as is', body)]
            for _ in range(6):
                k = rng.randrange(5)
                if k == 0:
                    muts.append(('ext cut', body[:rng.randrange(len(body) + 1)]))
                elif k == 1:
                    muts.append(('ext trailing', body + rng.randbytes(rng.choice((1, 2, 5)))))
                elif k == 2:
                    muts.append(('ext empty', b''))
                elif k == 3 and body:
                    m = bytearray(body)
                    m[rng.randrange(len(m))] = rng.randrange(256)
                    muts.append(('ext byte', bytes(m)))
                elif k == 4 and len(body) > 2:
                    m = bytearray(body)
                    p = rng.randrange(len(m) - 1)
                    m[p:p + 2] = ((int.from_bytes(m[p:p + 2], 'big') + rng.choice((1, -1))) % 65536).to_bytes(2, 'big')
                    muts.append(('ext length', bytes(m)))
            for kind, b in muts:
                if len(b) > 65000:
                    continue
                block = b''
                for n, v in must:
                    d = table[n].enc(v)
                    block += n.to_bytes(2, 'big') + len(d).to_bytes(2, 'big') + d
                block += t.to_bytes(2, 'big') + len(b).to_bytes(2, 'big') + b
                compare(ctx, name, put_block(name, base, block), f'{kind} {t}')
            ctx.eval()


def put_block(name, tree, block):
    """ The message of this tree whose (first) extension block is this one. """
    block = len(block).to_bytes(2, 'big') + block
    grammar = wire.BODIES[name]
    if name.startswith('CERT'):
        cert = wire.Cert(name == 'CERT-RAW').pool()[0]
        entry = len(cert).to_bytes(3, 'big') + cert + block
        body = b'\0' + len(entry).to_bytes(3, 'big') + entry
    else:
        body = b''.join(f.enc(tree[k]) for k, f in grammar[1].fields.items() if k != 'extensions') + block
    return bytes([grammar[0]]) + len(body).to_bytes(3, 'big') + body


def run_bounds(spec, ctx):
    """ Every vector of the syntax, one under its lower bound, one over the upper one where it can be encoded. """
    rng = ctx.rng

    def find(node, path):
        if isinstance(node, wire.Vec):
            yield node, path
            if node.item is not None:
                yield from find(node.item, (*path, 'item'))
        elif isinstance(node, wire.Struct):
            for k, f in node.fields.items():
                yield from find(f, (*path, k))

    for where, table in wire.X.items():
        for t, g in table.items():
            for node, path in find(g, ()):
                for short in (True, False):
                    b = out_of_bounds(rng, g, node, short)
                    if b is None:
                        continue
                    if len(b) > 65000:
                        continue
                    name = where
                    must = b''
                    if where == 'CR' and t != 13:
                        must = b'\0\x0d\0\x04\0\x02\x04\x03'
                    if where == 'CH' and t == 41:
                        must = b'\0\x2d\0\x02\x01\x01'
                    block = must + t.to_bytes(2, 'big') + len(b).to_bytes(2, 'big') + b
                    tree = wire.CONTENTS[name][1].gen(rng)
                    ctx.count('out of bounds vectors')
                    compare(ctx, name, put_block(name, tree, block), f'bounds {t} {".".join(path)} {short}')
    for name, (no, g) in wire.BODIES.items():
        for node, path in find(g, ()):
            for short in (True, False):
                b = out_of_bounds(rng, g, node, short)
                if b is None:
                    continue
                ctx.count('out of bounds vectors')
                compare(ctx, name, bytes([no]) + len(b).to_bytes(3, 'big') + b, f'bounds {".".join(path)} {short}')
    ctx.eval()


def out_of_bounds(rng, grammar, node, short):
    """ An encoding by `grammar` whose vector `node` is out of its bounds. """
    if short and node.lo == 0 or not short and node.hi >= (1 << 8 * node.n) - 1:
        return None
    enc, dec = node.enc, None
    hit = []

    def bad(v):
        hit.append(1)
        if short:
            n = rng.randrange(node.lo) if node.item is None else 0
        else:
            n = min(node.hi + rng.randint(1, 5), (1 << 8 * node.n) - 1)
            if n <= node.hi:
                return enc(v)
        return n.to_bytes(node.n, 'big') + bytes(n)
    for _ in range(30):
        tree = grammar.gen(rng)
        node.enc = bad
        try:
            b = grammar.enc(tree)
        except OverflowError:
            continue
        finally:
            del node.enc
        if hit:
            return b
    return None


# ------------------------------------------------------------ connections

def run_connection(spec, ctx):
    """ What is malformed is refused as well, and with a TLS error, when it comes through a connection. """
    rng = ctx.rng
    sc = scen.SIMPLE if rng.random() < .5 else scen.rand(rng, compatible=True)
    state = {}

    def bend(p, m):
        name = {1: 'CH', 2: 'SH', 8: 'EE', 11: 'CERT', 15: 'CV', 20: 'FIN'}[m[0]]
        if m[0] == 2 and m[6:38] == wire.HRR_RANDOM:
            name = 'HRR'
        if m[0] == 11 and getattr(p, 'rpk', None):
            name = 'CERT-RAW'
        g = wire.CONTENTS[name][1]
        for _ in range(40):
            b = bytearray(m)
            k = rng.randrange(4)
            if k == 0:
                b = b[:rng.randint(4, len(b) - 1)] if len(b) > 4 else b
            elif k == 1:
                b += rng.randbytes(rng.randint(1, 4))
            elif k == 2 and len(b) > 40:
                i = rng.randrange(38 if m[0] in (1, 2) else 4, len(b))
                b[i] = (b[i] + rng.choice((1, 255))) % 256
            elif len(b) > 5:
                i = rng.randrange(4, len(b))
                del b[i:i + rng.choice((1, 2))]
            b[1:4] = (len(b) - 4).to_bytes(3, 'big')
            try:
                g.dec(In(bytes(b)))
            except Bad as exc:
                state['bad'] = (name, str(exc), bytes(b))
                return [bytes(b)]
            except Tolerated:
                continue
        return [m]

    if spec['role'] == 'client':
        point = rng.choice(('SH', 'EE', 'CERT', 'CV'))
        ref = Ref(scen.ref_server(sc, script={point: bend}, lenient=True))
        sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
        link = Link(sio, ref, *scen.segmenters(rng))
    else:
        point = 'CH'
        ref = Ref(scen.ref_client(sc, script={point: bend}, lenient=True, shares=[scen.expected(sc)['group']]))
        sio = Sio(scen.server_config(sc))
        link = Link(ref, sio, *scen.segmenters(rng))
    link.handshake()
    if 'bad' not in state:
        ctx.count('nothing malformed')
        return
    ctx.count('over a connection')
    why = lambda: f"{spec['role']} {point} {state['bad'][:2]} {state['bad'][2].hex()[:600]} -> {sio.error!r}"
    ctx.check(not sio.connected, 'a malformed message is accepted by a connection', why)
    ctx.check(isinstance(sio.error, TLSError), 'a malformed message is not refused with a TLS error', why)
    ctx.eval()
    ctx.seen('connection', spec['role'], *state['bad'][:2])


# ------------------------------------------------------------ primitives

def run_primitive(spec, ctx):
    """ SerialIO writes what it reads, and is bounded by its limits. """
    rng = ctx.rng
    for _ in range(40):
        ctx.count('primitives')
        n = rng.randint(1, 4)
        items = rng.choice((1, 2, 3))
        v = rng.randrange(1 << 8 * n)
        blob = rng.randbytes(rng.choice((0, 1, 255, 256, 400)))
        lst = [rng.randrange(1 << 8 * items) for _ in range(rng.randint(0, 20))]
        blobs = [rng.randbytes(rng.randint(0, 60)) for _ in range(rng.randint(0, 8))]
        s = SerialIO()
        s.write_int(n, v)
        s.write_var(2, blob)
        s.write_listint(2, items, lst)
        s.write_listvar(3, 1, blobs)
        raw = s.getvalue()
        want = (v.to_bytes(n, 'big') + len(blob).to_bytes(2, 'big') + blob + (len(lst) * items).to_bytes(2, 'big')
                + b''.join(x.to_bytes(items, 'big') for x in lst))
        lv = b''.join(bytes([len(b)]) + b for b in blobs)
        want += len(lv).to_bytes(3, 'big') + lv
        ctx.check(raw == want, 'a primitive is not encoded as a TLS vector', f'{n} {v} {lst} {raw.hex()[:300]}')
        s = SerialIO(raw)
        got = (s.read_int(n), s.read_var(2), s.read_listint(2, items), s.read_listvar(3, 1))
        ctx.check(got == (v, blob, lst, blobs), 'a primitive does not read back', str(got)[:300])
        try:
            s.assert_eof()
        except Exception as exc:
            ctx.violation('a primitive does not read back', repr(exc))
        # any cut is noticed
        cut = rng.randrange(len(raw))
        s = SerialIO(raw[:cut])
        try:
            s.read_int(n), s.read_var(2), s.read_listint(2, items), s.read_listvar(3, 1)
        except TLSError:
            pass
        except Exception as exc:
            ctx.violation(f'{type(exc).__name__} while decoding', repr(exc))
        else:
            ctx.violation('a malformed encoding is accepted', f'primitives cut at {cut} of {len(raw)}')
        # a limit is neither passed nor left unread
        a, b = rng.randbytes(rng.randint(0, 9)), rng.randbytes(rng.randint(0, 9))
        s = SerialIO(a + b)
        want_n = rng.randint(0, len(a) + len(b))
        try:
            with s.limit(len(a)):
                got = s.read_exactly(want_n)
        except (TLSError, ValueError):
            ctx.check(want_n != len(a), 'a limit is enforced too early', f'{want_n} {len(a)}')
        else:
            ctx.check(want_n == len(a) and got == a, 'a limit is not enforced', f'{want_n} {len(a)}')
        s = SerialIO(a + b)
        with s.limit(len(a)):
            ctx.check(s.read() == a, 'a limit is not enforced', 'read()')
        ctx.check(s.read() == b, 'a limit outlives its block', '')
    ctx.eval()


def run_alerts(spec, ctx):
    """ All of them. """
    for level in range(256):
        for desc in range(256):
            compare(ctx, 'ALERT', bytes([level, desc]), 'all')
    for d in AlertDescription:
        o = alerts.Alert[d]()
        ctx.check(bytes(o.serialize()) == bytes([1 if d in (0, 90) else 2, d]), 'the encoding is not the one of the RFC', repr(o))
    ctx.eval()
