""" C19: heartbeats are answered exactly as agreed, and leak nothing. """
import os

from siotls import TLSError

from lib import ref13, scen
from lib.link import Link, Ref, Sio
from lib.monitor import records
from lib.ref13 import APPDATA, HEARTBEAT

PID, LEVEL = 'C19', 'exploration'
RULE = ('distinct (role, agreement, kind of heartbeat, length of the payload and of the padding, fragment limit, place) '
        'heartbeats whose consequences on the wire and on the application data were judged')
ASSUMPTIONS = [
    'the endpoint has agreed once it said peer_allowed_to_send and the peer sent the extension too (RFC 6520)',
    'malformed heartbeats (inconsistent length, unknown type) may be ignored or fail the connection with an alert',
    'a client which restricts itself to a fragment limit the server did not accept may ignore what it could not answer',
]
MINIMUM = {'answered': 3000, 'not agreed': 1500, 'too little padding': 1000, 'inconsistent length': 500, 'unsolicited responses': 1000,
           'during the handshake': 600, 'in a closed connection': 100, 'application bytes compared': 500_000, 'largest': 40}


def cases(tier, seed):
    k = 4 if tier == 'quick' else 60
    out = [{'what': 'echo', 'role': r, 'n': n} for r in ('client', 'server') for n in range(200 * k)]
    out += [{'what': 'edge', 'role': r, 'n': n} for r in ('client', 'server') for n in range(20 * k)]
    out += [{'what': 'during', 'role': 'client', 'at': m, 'n': n} for m in ('SH', 'EE', 'CERT', 'CV', 'FIN') for n in range(20 * k)]
    out += [{'what': 'during', 'role': 'server', 'at': m, 'n': n} for m in ('CH', 'FIN') for n in range(40 * k)]
    out += [{'what': 'closed', 'role': r, 'n': n} for r in ('client', 'server') for n in range(20 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


def connect(spec, ctx, script=None, agreed=None):
    """ -> sio, ref, link, agreed, limit """
    rng, role = ctx.rng, spec['role']
    sc = scen.rand(rng, compatible=True)
    own, theirs = rng.choice((True, True, False)), rng.choice((1, 1, 2, None))
    if agreed:
        own, theirs = True, rng.choice((1, 2))
    sc['hb_c' if role == 'client' else 'hb_s'] = own
    lay = scen.layout(rng)
    if role == 'client':
        ack = rng.random() < .7
        ref = Ref(scen.ref_server(sc, layout=lay, script=script, heartbeat=theirs, accept_mfl=ack, lenient=True))
        sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
        link = Link(sio, ref, *scen.segmenters(rng))
        limit = sc['mfl'] if ack else None
    else:
        code = rng.choice((None, None, 1, 2, 3, 4))
        ref = Ref(scen.ref_client(sc, layout=lay, script=script, heartbeat=theirs, mfl=code, lenient=True,
                                  shares=[scen.expected(sc)['group']] if rng.random() < .8 else None))
        sio = Sio(scen.server_config(sc))
        link = Link(ref, sio, *scen.segmenters(rng))
        limit = 2 ** (8 + code) if code else 16384
    link.handshake()
    return sc, sio, ref, link, bool(own and theirs), limit


def established(ctx, sio, ref, what=''):
    ctx.require(sio.connected and ref.connected and sio.error is None, f'handshake fails{what}',
                f'{sio.error!r} {ref.error!r} {ref.peer.alerts_in}')


def declared(ctx, spec, sc, ref):
    """ What siotls said on the wire is what it was told to. """
    p = ref.peer
    own = sc['hb_c' if spec['role'] == 'client' else 'hb_s']
    if spec['role'] == 'client':
        ctx.check(p.chs and ref13.parse_client_hello(p.chs[-1])['heartbeat'] == (1 if own else 2) if hasattr(p, 'chs') else True,
                  'the client announces the wrong heartbeat mode', own)
    else:
        want = None if p.heartbeat is None else 1 if own else 2
        ctx.check(p.ee_heartbeat == want, 'the server announces the wrong heartbeat mode', f'{p.ee_heartbeat} {want}')


def message(rng, kind, limit):
    """ -> wire bytes, payload """
    room = limit - 3
    n = rng.choice((0, 1, 2, 16, 17, 100, 255, 256, 257, room - 16, rng.randint(0, room - 16)))
    n = max(0, min(n, room - 16))
    payload = os.urandom(n) if rng.random() < .8 else bytes(n)
    if kind in ('request', 'response'):
        pad = rng.choice((16, 16, 17, 32, 255, room - n, rng.randint(16, room - n)))
        pad = max(16, min(pad, room - n))
        return bytes([1 if kind == 'request' else 2]) + ref13.u16(n) + payload + os.urandom(pad), payload
    if kind == 'little':
        return b'\x01' + ref13.u16(n) + payload + os.urandom(rng.choice((0, 1, 8, 14, 15))), payload
    if kind == 'inconsistent':
        said = n + rng.choice((1, 2, 16, 17, 100, 1000, 16384, 65535 - n))
        rest = os.urandom(rng.randrange(0, 40))
        said = min(65535, max(said, n + len(rest) + 1))
        body = payload + rest
        how = rng.randrange(4)
        if how == 0:
            body = b''
        return (b'\x01' + ref13.u16(said) + body)[:limit], None
    if kind == 'short':
        return (b'\x01', b'\x01\x00', b'\x01\xff', b'', b'\x02\x00')[rng.randrange(5)], None
    if kind == 'type':
        return bytes([rng.choice((0, 3, 4, 255))]) + ref13.u16(n) + payload + os.urandom(16), payload
    raise AssertionError(kind)


SOUND = ('request', 'request', 'request', 'little', 'response')
BROKEN = ('inconsistent', 'inconsistent', 'short', 'type')
COUNTERS = {'little': 'too little padding', 'inconsistent': 'inconsistent length', 'response': 'unsolicited responses'}


class Judge:
    def __init__(self, ctx, spec, sio, ref, link, agreed, limit):
        self.ctx, self.spec, self.sio, self.ref, self.link = ctx, spec, sio, ref, link
        self.agreed, self.limit = agreed, limit
        self.paddings, self.sent_pads = set(), []
        self.base = len(ref.peer.heartbeats)

    def exchange(self, batch, app, own):
        """
        Send the batch of (kind, wire, payload) mixed with chunks of
        application data in one go, while siotls writes own.
        """
        ctx, sio, ref, rng = self.ctx, self.sio, self.ref, self.ctx.rng
        p = ref.peer
        items = [('hb', b) for b in batch] + [('app', a) for a in app]
        rng.shuffle(items)
        hb = [x for t, x in items if t == 'hb']
        data = b''.join(x for t, x in items if t == 'app')
        before, mark, got = len(p.heartbeats), len(sio.tx), len(p.app_in)
        if own:
            sio.write(own)
            out = sio.out()
            ref.feed(out)
            mark = len(sio.tx)
        late = bytearray(sio.take())
        for t, x in items:
            if t == 'hb':
                p.put(HEARTBEAT, x[1], pad=min(rng.choice((0, 0, 1, 100)), p.mfl - len(x[1])))
            else:
                for i in range(0, len(x), p.mfl):
                    p.put(APPDATA, x[i:i + p.mfl])
        for seg in self.link_cut(ref.out()):
            sio.feed(seg)
            late += sio.take()
        out = sio.out()
        ref.feed(out)
        late += sio.take()
        broken = any(k in BROKEN for k, _, _ in hb)
        if sio.error is not None and broken:
            return self.failed(hb, before, mark, data, late)
        ctx.require(sio.error is None, 'a connection fails because of a heartbeat', f'{[k for k, _, _ in hb]} {sio.error!r}')
        ctx.require(ref.error is None, 'what was sent back breaks the protocol', repr(ref.error))
        ctx.check(bytes(late) == data, 'heartbeats disturb the application data', f'{len(late)} bytes instead of {len(data)}')
        ctx.check(bytes(p.app_in[got:]) == own, 'heartbeats disturb the application data sent', len(p.app_in) - got)
        ctx.count('application bytes compared', len(data) + len(own))
        want = [pl for k, w, pl in hb if k == 'request'] if self.agreed else []
        answers = p.heartbeats[before:]
        if self.limit is None:            # self-restricted client
            fits = [x for x in want if self.could(x)]
            answers_pl = [self.payload(a) for a in answers]
            ctx.check(answers_pl in (fits, want), 'heartbeat requests are not all answered, once each',
                      f'{len(answers)} answers to {len(want)} requests')
        else:
            ctx.check(len(answers) == len(want), 'heartbeat requests are not all answered, once each' if self.agreed else
                      'a heartbeat is answered although it was not agreed',
                      f'{len(answers)} answers to {[(k, len(w)) for k, w, _ in hb]} limit {self.limit}')
            for a, pl in zip(answers, want):
                ctx.check(self.payload(a) == pl, 'a response carries another payload', f'{a[:40]!r} {len(a)} for {pl[:40]!r} {len(pl)}')
        for a in answers:
            self.response(a)
        recs = records(sio.tx[mark:])[0]
        ctx.check(len(recs) == len(answers), 'something else than the responses is sent', f'{len(recs)} records, {len(answers)} responses')
        for k, w, pl in hb:
            if not self.agreed:
                ctx.count('not agreed')
            elif k == 'request':
                ctx.count('answered')
                ctx.count('largest', len(pl) + 19 == self.limit)
            if k in COUNTERS:
                ctx.count(COUNTERS[k])
            ctx.seen(self.spec['role'], self.agreed, k, size(len(pl or b'')), size(len(w)), self.limit)
        return True

    def could(self, payload):
        """ In a record of the limit the client asked for. """
        return len(payload) + 19 <= self.sio.conn.max_fragment_length - 17

    def payload(self, a):
        self.ctx.require(len(a) >= 3 and len(a) >= 3 + int.from_bytes(a[1:3], 'big'), 'a response is malformed', a[:40])
        return a[3:3 + int.from_bytes(a[1:3], 'big')]

    def response(self, a):
        ctx = self.ctx
        pl = self.payload(a)
        pad = a[3 + len(pl):]
        ctx.check(a[0] == 2, 'a heartbeat which is no response is sent', a[0])
        ctx.check(len(pad) >= 16, 'a response has too little padding', len(pad))
        ctx.check(len(a) <= (self.limit or 16384), 'a response is longer than the negotiated limit', f'{len(a)} {self.limit}')
        ctx.check(pad not in self.paddings and len(set(pad)) > 4, 'the padding of a response is not fresh', pad[:40])
        ctx.check(not any(pad[:16] in s for s in self.sent_pads), 'the padding of a response is not fresh', 'that of a request')
        self.paddings.add(pad)
        if not ctx.evals and len(self.paddings) == 2:
            ctx.sample({'role': self.spec['role'], 'payload': len(pl), 'padding': pad.hex(), 'limit': self.limit})

    def failed(self, hb, before, mark, data, late):
        """ A malformed heartbeat may end the connection, with one alert. """
        ctx, p, sio = self.ctx, self.ref.peer, self.sio
        ctx.check(isinstance(sio.error, TLSError), 'a malformed heartbeat raises something else than a TLS error', repr(sio.error))
        ctx.check(len(p.alerts_in) == 1, 'a malformed heartbeat ends the connection without its alert', p.alerts_in)
        ctx.check(data.startswith(bytes(late)), 'heartbeats disturb the application data', f'{len(late)} of {len(data)}')
        prior = []
        for k, w, pl in hb:
            if k in BROKEN:
                if k in COUNTERS:
                    ctx.count(COUNTERS[k])
                ctx.seen(self.spec['role'], self.agreed, k, 'failed', size(len(w)))
                break
            if k == 'request' and self.agreed:
                prior.append(pl)
        answers = p.heartbeats[before:]
        if self.limit is not None:
            ctx.check([self.payload(a) for a in answers] == prior, 'something is sent back for a malformed heartbeat',
                      f'{len(answers)} answers, {len(prior)} requests before')
        for a in answers:
            self.response(a)
        ctx.check(len(records(sio.tx[mark:])[0]) == len(answers) + 1, 'something else than an alert is sent',
                  'for a malformed heartbeat')
        return False

    def link_cut(self, data):
        return scen.segmenters(self.ctx.rng)[0].cut(data)


def size(n):
    return n if n in (0, 1, 15, 16, 17, 19, 255, 256) else -n.bit_length()


def run_echo(spec, ctx):
    rng = ctx.rng
    sc, sio, ref, link, agreed, limit = connect(spec, ctx)
    established(ctx, sio, ref)
    if spec['role'] == 'server':
        declared(ctx, spec, sc, ref)
    j = Judge(ctx, spec, sio, ref, link, agreed, limit)
    cap = min(limit or 16384, ref.peer.mfl)
    for i in range(rng.choice((3, 8))):
        kinds = [rng.choice(SOUND) for _ in range(rng.choice((1, 1, 2, 5)))]
        if rng.random() < .2:
            kinds.insert(rng.randint(0, len(kinds)), rng.choice(BROKEN))
        batch = []
        for k in kinds:
            w, pl = message(rng, k, cap)
            batch.append((k, w, pl))
            if pl is not None:
                j.sent_pads.append(w[3 + len(pl):])
        app = [os.urandom(rng.choice((1, 50, 700, 3000))) for _ in range(rng.choice((0, 0, 1, 3)))]
        if not j.exchange(batch, app, os.urandom(rng.choice((0, 0, 10, 5000)))):
            return


def run_edge(spec, ctx):
    """ The largest messages that fit, all agreed. """
    rng = ctx.rng
    sc, sio, ref, link, agreed, limit = connect(spec, ctx, agreed=True)
    established(ctx, sio, ref)
    j = Judge(ctx, spec, sio, ref, link, agreed, limit)
    cap = min(limit or 16384, ref.peer.mfl)
    for total in rng.sample((cap, cap, cap - 1, cap - 15, cap - 16, cap - 17, cap - 18, cap - 33), 4):
        pad = rng.choice((16, 16, 16, 17, 40))
        pl = os.urandom(total - 3 - pad)
        if not j.exchange([('request', b'\x01' + ref13.u16(len(pl)) + pl + os.urandom(pad), pl)],
                          [b'x'] if rng.random() < .5 else [], rng.choice((b'', b'mine'))):
            return


def run_during(spec, ctx):
    """ At every step of the handshake, in clear or under its keys. """
    rng, at = ctx.rng, spec['at']
    sent = []

    def insert(peer, msg):
        out = []
        for _ in range(rng.choice((1, 1, 3))):
            k = rng.choice(('request', 'request', 'response', 'little'))
            w, pl = message(rng, k, 512)
            sent.append(k)
            out.append(('record', HEARTBEAT, w))
        # before or after the message, which ends what precedes it
        return [('flush',), *out, msg] if rng.random() < .7 or at in ('SH', 'CH', 'FIN') else [msg, ('flush',), *out]
    sc, sio, ref, link, agreed, limit = connect(spec, ctx, script={at: insert}, agreed=rng.random() < .7)
    p = ref.peer
    ctx.check(sent, 'the place was not reached', '')
    established(ctx, sio, ref, ' because of a heartbeat')
    ctx.check(not p.heartbeats, 'a heartbeat is answered during the handshake', f'{at} {sent} {len(p.heartbeats)}')
    n = sum(t == HEARTBEAT for t, _, _ in records(sio.tx)[0])
    ctx.check(n == 0, 'a heartbeat is answered in clear', n)
    ctx.count('during the handshake', len(sent))
    ctx.check(not sio.take(), 'heartbeats appear in the application data', '')
    j = Judge(ctx, spec, sio, ref, link, agreed, limit)
    j.exchange([('request', *message(rng, 'request', 512))], [b'after'], b'mine')
    ctx.seen('during', spec['role'], at, agreed, tuple(sorted(set(sent))))


def run_closed(spec, ctx):
    """ No answer once one side closed or the connection failed. """
    rng = ctx.rng
    how = rng.choice(('own', 'peer', 'alert', 'fail'))
    sc, sio, ref, link, agreed, limit = connect(spec, ctx, agreed=True)
    established(ctx, sio, ref)
    p = ref.peer
    w, pl = message(rng, 'request', 512)
    if how == 'own':
        sio.conn.close_sending_end()
        ref.feed(sio.out())
    elif how == 'peer':
        p.close()
    elif how == 'alert':
        p.send_alert(rng.choice(('internal_error', 'decode_error', 'handshake_failure')), 2)
    else:
        p.put(77, b'unknown content type')
    if how != 'own' and rng.random() < .5:
        sio.feed(ref.out())
    mark = len(sio.tx)
    sio.out()
    for _ in range(rng.choice((1, 3))):
        p.put(HEARTBEAT, w)
        p.put(HEARTBEAT, b'\x02' + w[1:])
    if how == 'own':
        p.put(APPDATA, b'still')
    sio.feed(ref.out())
    out = sio.out()
    recs = records(out)[0]
    if how == 'own':
        ctx.check(sio.error is None, 'a connection half closed fails because of a heartbeat', repr(sio.error))
        ctx.check(not out, 'a heartbeat is answered after close_notify', len(out))
        ctx.check(bytes(sio.take()) == b'still', 'heartbeats disturb the application data', how)
    else:
        ref.feed(bytes(sio.tx[mark:]))
        ctx.check(not p.heartbeats, f'a heartbeat is answered once the connection ended ({how})', len(p.heartbeats))
        ctx.check(len(recs) <= 1, 'more than an alert is sent once the connection ended', f'{how} {len(recs)}')
    ctx.count('in a closed connection')
    ctx.seen('closed', spec['role'], how, len(recs))
