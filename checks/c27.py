""" C27: an error raised anywhere inside never makes a connection unsafe. """
import os
import random

from siotls import TLSConfiguration

from checks import c05
from lib import pki, ref13, scen
from lib.aeadspy import spy
from lib.faults import KINDS, Plan
from lib.link import Ref, Sio
from lib.monitor import records
from lib.ref13 import HEARTBEAT

PID, LEVEL = 'C27', 'exploration'
RULE = 'distinct (role, history, line of the library that failed, kind of error) runs judged until their end'
ASSUMPTIONS = [
    'an error is raised when a line of the library is about to run, once per history, as an exhausted memory, a signal handler, an '
    'interrupt would; not inside of the primitives of the cryptography package',
    'an error raised while a message is processed makes the connection fail; elsewhere (before it is, after it was, while sending) the '
    'connection may go on, without having lost anything silently',
    'the alert which tells the peer may be protected by whatever keys were being set up',
]
MINIMUM = {'faults': 1800, 'faults while a message is processed': 400, 'faults while sending': 120, 'impostors refused': 500,
           'failed as they should': 700, 'went on': 60, 'interrupts': 500}

BAD_CHAINS = ('self_signed', 'unknown_root', 'fake_root', 'expired', 'other_host', 'client_eku', 'missing_inter', 'bad_signature', 'path_length')
BAD = ('cv-other-key', 'cv-flip', 'cv-unoffered', 'fin-flip', 'fin-zero', 'raw-untrusted', 'crl', 'stapled', 'requested', 'alpn')
# where nothing is run but to process what is received
PROCESSING = ('states/', 'contents/', 'crypto/key_exchanges.py', 'crypto/signatures.py', 'crypto/hkdf.py', 'crypto/ocsp.py', 'serial.py',
              'transcript.py', 'iana.py')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 50
    out = [{'what': 'good', 'role': r, 'n': n} for r in ('client', 'server') for n in range(1000 * k)]
    out += [{'what': 'bad', 'how': 'chain-' + b, 'n': n} for b in BAD_CHAINS for n in range(35 * k)]
    out += [{'what': 'bad', 'how': b, 'n': n} for b in BAD for n in range(35 * k)]
    out += [{'what': 'bad_client', 'how': b, 'n': n} for b in ('fin-flip', 'fin-zero', 'fin-missing', 'no-certificate') for n in range(60 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


class End(Sio):
    """ Whose calls may fail anywhere. """
    plan = None

    def feed(self, data):
        self.rx += data
        exc = self.plan.call(self.conn.receive_data, data)
        if exc is not None:
            self.errors.append(exc)
            self.error = self.error or exc
        return exc

    def out(self):
        b = bytes(self.conn.data_to_send())
        self.tx += b
        return b


def twice(history, ctx, judge):
    """ Once to know its points, once where one of them fails. """
    seed = ctx.rng.getrandbits(64)
    with Plan() as plan:
        sound = history(random.Random(seed), plan)
    judge(sound)
    weights = {'receive_data': 10, 'send_data': 3}
    phase = ctx.rng.choice([p for p in plan.during for _ in range(weights.get(p, 1))])
    points = plan.during[phase]
    lines = sorted({p[:2] for p in points})
    line = ctx.rng.choice(lines)
    target = ctx.rng.choice([p for p in points if p[:2] == line])
    kind = ctx.rng.choice(list(KINDS))
    spy.reset()
    spy.keep = []
    with Plan(target, kind) as plan:
        out = history(random.Random(seed), plan)
    if plan.raised is None:
        ctx.count('points not met again')
        return None
    ctx.count('faults')
    if not isinstance(plan.raised, Exception):
        ctx.count('interrupts')
    ctx.seen(ctx.spec['what'], ctx.spec.get('role'), ctx.spec.get('how'), *target[:2], kind)
    return plan, target, kind, out


def check_nonces(ctx, e, why):
    """ Of what was really emitted. """
    wire = set()
    for _, _, body in records(e.tx)[0]:
        wire.add(bytes(body))
    if spy.keep is None:
        return
    by = {}
    for key, nonce, out in spy.keep:
        if bytes(out) in wire:
            by.setdefault((key, nonce), set()).add(bytes(out))
    spy.keep = None
    ctx.check(all(len(x) == 1 for x in by.values()), 'a nonce protects two records which were emitted', why)


def deliver(rng, e, ref, notes=None):
    """ Until quiet. """
    for _ in range(40):
        data = e.out()
        if data:
            ref.feed(data)
        back = ref.out()
        if not data and not back:
            return
        whole = rng.random() < .3
        while back:
            if whole:
                part = back
            else:
                part = back[:5 + int.from_bytes(back[3:5], 'big')]
            back = back[len(part):]
            e.feed(part)


# ---------------------------------------------------------------- sound peers
def run_good(spec, ctx):
    role = spec['role']
    seed = ctx.rng.getrandbits(64)

    def history(rng, plan):
        srng = random.Random(seed)
        sc = scen.rand(srng, compatible=True)
        retry = srng.random() < .2 and len(sc['groups_c']) > 1
        if role == 'client':
            e = End(scen.client_config(sc), server_hostname=sc['host'])
            ref = Ref(scen.ref_server(sc, layout=ref13.Layout(srng, srng.choice(ref13.Layout.MODES), srng.choice(('none', 'none', 'none', 'random'))), tickets=srng.choice((0, 1)), cert_request=srng.random() < .2))
        else:
            e = End(scen.server_config(sc))
            ref = Ref(scen.ref_client(sc, layout=ref13.Layout(srng, srng.choice(ref13.Layout.MODES), srng.choice(('none', 'none', 'none', 'random'))), shares=[] if retry else [scen.expected(sc)['group']]))
        e.plan = plan
        sent, optional, given = [], [], b''
        ref.start()
        exc = plan.call(e.conn.initiate_connection)
        started = exc is None
        got = b''
        deliver(rng, e, ref)
        for _ in range(rng.randint(1, 4)):
            # what the peer sends
            if ref.connected and rng.random() < .8:
                data = os.urandom(rng.choice((1, 300, 300, 300, 20000)))
                ref.write(data)
                given += data
            if ref.connected and e.conn.is_connected() and e.conn.nconfig.can_echo_heartbeat and rng.random() < .5:
                payload = os.urandom(20)
                ref.peer.put(HEARTBEAT, b'\x01' + ref13.u16(20) + payload + os.urandom(16))
            # what it sends
            if e.conn.is_connected() and rng.random() < .8:
                data = os.urandom(rng.choice((1, 300, 300, 300, 20000)))
                for attempt in range(2):
                    exc = plan.call(e.conn.send_data, data)
                    (sent if exc is None else optional).append((len(sent), data))
                    if exc is None or rng.random() < .5:
                        break
            deliver(rng, e, ref)
            got += bytes(e.conn.data_to_read())
        if rng.random() < .5:
            plan.call(e.conn.close_sending_end)
            deliver(rng, e, ref)
            if ref.connected and rng.random() < .5:
                data = os.urandom(100)
                ref.write(data)
                given += data
        deliver(rng, e, ref)
        got += bytes(e.conn.data_to_read())
        return e, ref, sent, optional, given, got, started

    def judge(out):
        e, ref, sent, optional, given, got, started = out
        ctx.require(not e.errors and ref.error is None and got == given and bytes(ref.take()) == b''.join(d for _, d in sent),
                    'a history without any error goes wrong', f'{e.error!r} {ref.error!r}')

    found = twice(history, ctx, judge)
    if not found:
        return
    plan, target, kind, (e, ref, sent, optional, given, got, started) = found
    why = f'{role} {target} {kind} {plan.stack} {e.error!r} {ref.error!r}'[:600]
    c = e.conn
    ctx.check(given.startswith(got), 'an error alters the data which is received', f'{len(got)} of {len(given)} bytes {why}')
    received = bytes(ref.take())
    whole = b''.join(d for _, d in sent)
    ways = [whole]
    for at, data in optional:
        ways.append(b''.join(d for i, d in sent if i < at) + data + b''.join(d for i, d in sent if i >= at))
    ctx.check(any(w.startswith(received) for w in ways), 'an error alters the data which is sent',
              f'{len(received)} bytes received, {[len(w) for w in ways]} sent {why}')
    processing = any(f == 'connection.py' and n == 'receive_data' for f, n in plan.stack) and plan.stack[0][0].startswith(PROCESSING)
    if any(n == 'send_data' for _, n in plan.stack):
        ctx.count('faults while sending')
    if processing:
        ctx.count('faults while a message is processed')
        ctx.check(c.is_post_handshake() and not c.is_connected(), 'an error while a message is processed does not make the connection fail', why)
    if c.is_connected() and ref.connected:
        # it survived: then nothing may have been lost
        ctx.count('went on')
        ctx.check(got == given or e.errors, 'received data is lost without any failure', f'{len(got)} of {len(given)} bytes {why}')
        ctx.check(received in ways, 'sent data is lost without any failure', f'{len(received)} of {len(whole)} bytes {why}')
    else:
        ctx.count('failed as they should')
    if c.is_post_handshake() and not c.is_connected() and processing:
        try:
            c.send_data(b'more')
        except Exception:
            pass
        else:
            ctx.check(False, 'a connection which an error made fail can send', why)
    e.out()
    check_nonces(ctx, e, why)
    ctx.sample({'role': role, 'line': target, 'error': kind, 'received': len(got), 'of': len(given), 'connected': c.is_connected()})


# ---------------------------------------------------------------- impostors
class NoStatus:
    """ A status service whose answers tell that it is revoked. """
    def __init__(self, answer):
        self.answer = answer

    def request(self, url, req):
        return self.answer(req)

    def cache(self, until, req, res):
        pass

    def uncache(self, req):
        pass


def impostor(how, rng):
    """ (configuration, service, reference server) """
    kw, skw, service = {'trust_store': pki.store(pki.root())}, {'lenient': True}, None
    leaf = pki.leaf('p256', rng.choice(('root', 'inter')))
    key = leaf.key
    chain = [n.der for n in pki.chain(leaf)]
    if how.startswith('chain-'):
        chain, key = getattr(c05, 'b_' + how[6:])(rng)
    elif how == 'cv-other-key':
        key = pki.key('p256', 'impostor')
    elif how == 'cv-flip':
        def flip(p, m):
            b = bytearray(m)
            b[rng.randrange(8, len(b))] ^= 1 << rng.randrange(8)
            return [bytes(b)]
        skw['script'] = {'CV': flip}
    elif how == 'cv-unoffered':
        kw['signature_algorithms'] = [s for s in scen_sigs() if 'ecdsa_secp256r1' not in s.name]
        skw['select'] = {'scheme': 0x0403}
    elif how in ('fin-flip', 'fin-zero'):
        def bad(p, m):
            b = bytearray(m)
            if how == 'fin-zero':
                b[4:] = bytes(len(b) - 4)
            else:
                b[rng.randrange(4, len(b))] ^= 1 << rng.randrange(8)
            return [bytes(b)]
        skw['script'] = {'FIN': bad}
    elif how == 'raw-untrusted':
        kw = {'trusted_public_keys': [pki.key('ed25519', 'trusted').public_key()]}
        key = pki.key('ed25519', 'other')
        skw['raw_public_key'] = pki.spki(key.public_key())
        chain = [skw['raw_public_key']]
    elif how == 'crl':
        leaf = pki.leaf('p256', 'root')
        key, chain = leaf.key, [n.der for n in pki.chain(leaf)]
        kw['revocation_list'] = pki.crl(pki.root(), [leaf.cert.serial_number])
    elif how == 'stapled':
        leaf = pki.leaf('p256', 'root')
        key, chain = leaf.key, [n.der for n in pki.chain(leaf)]
        res = pki.ocsp_response(leaf, pki.root(), status="revoked")
        skw['entry_exts'] = {0: ref13.ext(5, b'\x01' + ref13.v24(res))}
        service = NoStatus(lambda req: res)
    elif how == 'requested':
        leaf = pki.leaf('p256', 'root', ocsp_url='http://127.0.0.1:9/')
        key, chain = leaf.key, [n.der for n in pki.chain(leaf)]
        res = pki.ocsp_response(leaf, pki.root(), status="revoked")
        service = NoStatus(lambda req: res)
    elif how == 'alpn':
        kw['alpn'] = ['http/1.1']
        skw['ee_extra'] = [(16, b'\x00\x03\x02h2')]
    return kw, service, dict(chain=chain, key=key, **skw)


def scen_sigs():
    from siotls.iana import SignatureScheme
    return [s for s in SignatureScheme if s in scen.SIGALGS]


def refused(ctx, e, ref, why, secret):
    c = e.conn
    ctx.check(not secret['connected'], 'an error lets an impostor in', why)
    ctx.check(not secret['sent'], 'an error lets data be sent to an impostor', why)
    ctx.check(not secret['data'], 'an error delivers the data of an impostor', why)
    ctx.check(not any(n == 'FIN' for n, _, _ in ref.peer.rx_msgs) or secret['finished ok'], 'an error makes an impostor get the Finished of its client', why)
    e.out()
    check_nonces(ctx, e, why)


def watched(e, notes):
    """ Look after every delivery. """
    real = e.feed

    def feed(data):
        exc = real(data)
        notes['connected'] |= e.conn.is_connected()
        notes['data'] |= bool(e.conn.data_to_read())
        if not notes['may send']:
            try:
                e.conn.send_data(b'secret')
                notes['sent'] = True
            except Exception:
                pass
        return exc
    e.feed = feed


def run_bad(spec, ctx):
    how = spec['how']
    seed = ctx.rng.getrandbits(64)

    def history(rng, plan):
        srng = random.Random(seed)
        kw, service, skw = impostor(how, srng)
        e = End(TLSConfiguration('client', **kw), server_hostname=pki.HOST, ocsp_service=service)
        e.plan = plan
        ref = Ref(ref13.RefServer(layout=ref13.Layout(srng, srng.choice(('single', 'random'))), early_app=b'trust me',
                                  cert_request=srng.random() < .2, **skw))
        notes = {'connected': False, 'sent': False, 'data': False, 'may send': False, 'finished ok': False}
        watched(e, notes)
        plan.call(e.conn.initiate_connection)
        deliver(rng, e, ref)
        return e, ref, notes

    found = twice(history, ctx, lambda out: refused(ctx, *out[:2], f'{how}, without any error', out[2]))
    if found:
        plan, target, kind, (e, ref, notes) = found
        refused(ctx, e, ref, f'{how} {target} {kind} {plan.stack} {e.error!r}'[:500], notes)
        ctx.count('impostors refused')
        ctx.sample({'impostor': how, 'line': target, 'error': kind})


def run_bad_client(spec, ctx):
    how = spec['how']
    seed = ctx.rng.getrandbits(64)

    def history(rng, plan):
        srng = random.Random(seed)
        sc = scen.rand(srng, compatible=True)
        kw = {}
        if how == 'no-certificate':
            kw['trusted_public_keys'] = [pki.key('ed25519', 'client0').public_key()]
        e = End(scen.server_config(sc, **kw))
        e.plan = plan

        def fin(p, m):
            b = bytearray(m)
            if how == 'fin-missing':
                return []
            if how == 'fin-zero':
                b[4:] = bytes(len(b) - 4)
            elif how == 'fin-flip':
                b[srng.randrange(4, len(b))] ^= 1 << srng.randrange(8)
            return [bytes(b)]
        peer = scen.ref_client(sc, layout=ref13.Layout(srng, srng.choice(('single', 'random'))), shares=[scen.expected(sc)['group']],
                               lenient=True, script={'FIN': fin})
        ref = Ref(peer)
        notes = {'connected': False, 'sent': False, 'data': False, 'may send': True, 'finished ok': True}
        watched(e, notes)
        ref.start()
        plan.call(e.conn.initiate_connection)
        deliver(rng, e, ref)
        if peer.connected:
            try:
                ref.write(b'let me in')
            except Exception:
                pass
            deliver(rng, e, ref)
        return e, ref, notes

    found = twice(history, ctx, lambda out: refused(ctx, *out[:2], f'{how}, without any error', out[2]))
    if found:
        plan, target, kind, (e, ref, notes) = found
        refused(ctx, e, ref, f'{how} {target} {kind} {plan.stack} {e.error!r}'[:500], notes)
        ctx.count('impostors refused')
        ctx.sample({'impostor': how, 'line': target, 'error': kind})
