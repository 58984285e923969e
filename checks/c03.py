""" C03: application data arrives complete, in order, without delay. """
import os

from lib import ref13, scen
from lib.link import Link, Ref, Segmenter, Sio

Sio.hold = True
PID, LEVEL = 'C03', 'exploration'
RULE = ('distinct (sender, receiver, fragment limit, segmentation, record layout, write size class) '
        'combinations whose bytes were compared at every delivery')
ASSUMPTIONS = ['immediacy is judged at record granularity with the independent sender and at '
               'write granularity with a siotls sender']
MINIMUM = {'bytes compared': 5_000_000, 'deliveries judged': 20_000, 'records delivered by ref': 2_000,
           'early data from the server': 10, 'large transfers': 4}


def cases(tier, seed):
    k = 3 if tier == 'quick' else 30
    out = [{'what': 'duplex', 'n': n} for n in range(200 * k)]
    out += [{'what': 'from-ref', 'n': n} for n in range(300 * k)]
    out += [{'what': 'to-ref', 'n': n} for n in range(150 * k)]
    out += [{'what': 'finished', 'n': n} for n in range(60 * k)]
    out += [{'what': 'sizes', 'mfl': m, 'suite': s} for m in scen.MFLS for s in scen.SUITES]
    out += [{'what': 'large', 'n': n} for n in range(6 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what'].replace('-', '_')](spec, ctx)


def size_class(n):
    return next((str(k) for k in (0, 1, 16, 511, 4095, 16383, 65536) if n <= k), 'more')


def sizes(rng, mfl):
    return rng.choice((0, 1, 2, 15, 16, 17, 255, 511, 512, mfl - 18, mfl - 17, mfl - 16, mfl - 1, mfl,
                       mfl + 1, 2 * mfl, 3 * mfl + 5, 4079, 4080, 16366, 16367, 16384, 40000,
                       rng.randint(0, 3000), rng.randint(0, 70000)))


def open_pair(ctx, sc, **kw):
    link = scen.connected_pair(sc, **kw)
    ctx.require(link.c.connected and link.s.connected, 'compatible handshake does not complete',
                f'{link.c.error!r} {link.s.error!r}')
    return link


class Pipe:
    """ One direction: bytes in flight, what they carry, and what was read. """
    def __init__(self, ctx, src, dst, seg, label):
        self.ctx, self.src, self.dst, self.label = ctx, src, dst, label
        self.rng, self.seg = ctx.rng, seg
        self.queue = bytearray()
        self.sent = bytearray()
        self.got = bytearray()
        self.tx = self.rx = 0
        self.marks = []          # (wire offset, application bytes complete at that offset)

    def write(self, data):
        self.sent += data
        self.src.write(bytearray(data) if self.rng.random() < .5 else data)
        self.collect()

    def collect(self):
        b = self.src.out()
        self.queue += b
        self.tx += len(b)
        self.marks.append((self.tx, len(self.sent)))

    def deliver(self, everything=False, read=True):
        n = len(self.queue) if everything else self.rng.randint(0, len(self.queue))
        data = bytes(self.queue[:n])
        del self.queue[:n]
        for piece in self.seg.cut(data):
            self.dst.feed(bytearray(piece) if self.rng.random() < .5 else piece)
            self.rx += len(piece)
            if read or self.rng.random() < .1:
                self.read()
        if everything:
            self.read()

    def read(self):
        new = self.dst.take()
        self.got += new
        ctx = self.ctx
        ctx.count('deliveries judged')
        ctx.count('bytes compared', len(new))
        n = len(self.got)
        ctx.require(self.dst.error is None, f'{self.label}: receiver fails on honest data', repr(self.dst.error))
        ctx.require(n <= len(self.sent) and (not new or self.got[n - len(new):] == self.sent[n - len(new):n]),
                    f'{self.label}: the bytes read are not those written',
                    f'{n} bytes read of {len(self.sent)}')
        due = 0
        while self.marks and self.marks[0][0] <= self.rx:
            due = self.marks.pop(0)[1]
        ctx.require(n >= due, f'{self.label}: data held back although its records were received',
                    f'{n} bytes readable of {due} after {self.rx} wire bytes')


def run_duplex(spec, ctx):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    link = open_pair(ctx, sc)
    segs = scen.segmenters(rng)
    up = Pipe(ctx, link.c, link.s, segs[0], 'client to server')
    down = Pipe(ctx, link.s, link.c, segs[1], 'server to client')
    total = 0
    for _ in range(rng.randint(3, 25)):
        pipe = rng.choice((up, down))
        r = rng.random()
        if r < .5:
            n = sizes(rng, sc['mfl'])
            if total + n < 200_000 and (pipe.seg.mode in ('whole', 'big', 'mixed') or n < 6000):
                total += n
                pipe.write(os.urandom(n))
                ctx.seen('sio', 'sio', sc['mfl'], pipe.seg.mode, size_class(n))
        else:
            pipe.deliver(read=rng.random() < .7)
    for p in (up, down):
        p.deliver(everything=True)
        ctx.check(p.got == p.sent, f'{p.label}: data lost', f'{len(p.got)} of {len(p.sent)}')
    ctx.eval()


def run_from_ref(spec, ctx):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    lay = ref13.Layout(rng, rng.choice(ref13.Layout.MODES), rng.choice(('none', 'random', 'max')),
                       empties=rng.random() < .5)
    if rng.random() < .5:
        sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
        ref = Ref(scen.ref_server(sc, layout=lay))
        link = Link(sio, ref)
    else:
        ref = Ref(scen.ref_client(sc, layout=lay))
        sio = Sio(scen.server_config(sc))
        link = Link(ref, sio)
    link.handshake()
    ctx.require(sio.connected and ref.connected, 'compatible handshake does not complete',
                f'{sio.error!r} {ref.error!r} {sc}')
    seg = Segmenter(rng, rng.choice(Segmenter.MODES))
    pipe = Pipe(ctx, ref, sio, seg, f'ref to {sio.side}')
    peer = ref.peer
    # one mark per record
    base_put = peer.put
    done = 0

    def put(ctype, data, pad=0, **kw):
        nonlocal done
        base_put(ctype, data, pad, **kw)
        if ctype == ref13.APPDATA:
            done += len(data)
        pipe.marks.append((pipe.tx + len(peer.outbuf), done))
        ctx.count('records delivered by ref')
    peer.put = put
    for _ in range(rng.randint(1, 8)):
        n = sizes(rng, sc['mfl'])
        if lay.mode == 'tiny' or seg.mode in ('byte', 'small', 'split5'):
            n %= 1500
        n = min(n, 50000)
        data = os.urandom(n)
        r = rng.random()
        if r < .15 and ref.side == 'server':
            peer.send_ticket(os.urandom(4))
        elif r < .3:
            peer.put(ref13.HEARTBEAT, b'\x01' + ref13.v16(b'ping') + bytes(16))
        elif r < .35:
            peer.put(ref13.ALERT, b'\x01\x5a')           # user_canceled is not fatal
        marks = len(pipe.marks)
        peer.send_app(data)
        pipe.sent += data
        b = ref.out()
        pipe.queue += b
        pipe.tx += len(b)
        ctx.seen('ref', sio.side, sc['mfl'], seg.mode, lay.mode, lay.padmode, size_class(n))
        if rng.random() < .6:
            pipe.deliver()
    pipe.deliver(everything=True)
    ctx.check(pipe.got == pipe.sent, f'{pipe.label}: data lost', f'{len(pipe.got)} of {len(pipe.sent)}')
    ctx.eval()
    ctx.sample({'records': len(pipe.sent), 'layout': lay.mode, 'pad': lay.padmode, 'segmentation': seg.mode})


def run_to_ref(spec, ctx):
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    if rng.random() < .5:
        sio = Sio(scen.client_config(sc), server_hostname=sc['host'])
        ref = Ref(scen.ref_server(sc))
        link = Link(sio, ref)
    else:
        ref = Ref(scen.ref_client(sc))
        sio = Sio(scen.server_config(sc))
        link = Link(ref, sio)
    link.handshake()
    ctx.require(sio.connected and ref.connected, 'compatible handshake does not complete',
                f'{sio.error!r} {ref.error!r} {sc}')
    seg = Segmenter(rng, rng.choice(('whole', 'mixed', 'big')))
    pipe = Pipe(ctx, sio, ref, seg, f'{sio.side} to ref')
    for _ in range(rng.randint(1, 10)):
        n = sizes(rng, sc['mfl'])
        pipe.write(os.urandom(n))
        ctx.seen(sio.side, 'ref', sc['mfl'], seg.mode, size_class(n))
        if rng.random() < .5:
            pipe.deliver()
    pipe.deliver(everything=True)
    ctx.check(pipe.got == pipe.sent, f'{pipe.label}: data lost', f'{len(pipe.got)} of {len(pipe.sent)}')
    ctx.eval()


def run_finished(spec, ctx):
    """ Data right behind a Finished, from both sides. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    c, s = scen.pair(sc)
    segs = scen.segmenters(rng)
    early, late = os.urandom(sizes(rng, sc['mfl']) % 20000), os.urandom(sizes(rng, sc['mfl']) % 20000)
    s.start()
    c.start()
    wrote = False
    for _ in range(4):
        for piece in segs[0].cut(c.out()):
            s.feed(piece)
        if not s.error and not s.conn.is_post_handshake():
            try:
                s.write(early)           # before the client's Finished
                wrote = True
                break
            except Exception:
                pass                     # not yet
        for piece in segs[1].cut(s.out()):
            c.feed(piece)
    ctx.require(wrote, 'server cannot send right after its Finished', f'{s.error!r} {sc}')
    for piece in segs[1].cut(s.out()):
        c.feed(piece)
    got = c.take()
    ctx.require(c.connected and c.error is None, 'client fails on data behind the server Finished',
                f'{c.error!r} {sc}')
    ctx.check(got == early, 'data behind the server Finished is lost', f'{len(got)} of {len(early)}')
    c.write(late)
    data = c.out()
    for piece in segs[0].cut(data):
        s.feed(piece)
    got = s.take()
    ctx.require(s.connected and s.error is None, 'server fails on data behind the client Finished',
                f'{s.error!r}')
    ctx.check(got == late, 'data behind the client Finished is lost', f'{len(got)} of {len(late)}')
    ctx.count('early data from the server')
    ctx.count('bytes compared', len(early) + len(late))
    ctx.seen('finished', segs[0].mode, segs[1].mode, size_class(len(early)), size_class(len(late)))
    ctx.eval()


def run_sizes(spec, ctx):
    """ Every size around the record boundaries. """
    sc = scen.simple(mfl=spec['mfl'], suites_c=[spec['suite']], suites_s=[spec['suite']])
    link = open_pair(ctx, sc)
    whole = Segmenter(ctx.rng)
    up = Pipe(ctx, link.c, link.s, whole, 'client to server')
    down = Pipe(ctx, link.s, link.c, whole, 'server to client')
    m = spec['mfl']
    for n in [*range(0, 40), *range(m - 40, m + 20), *range(2 * m - 40, 2 * m + 4),
              *range(4096 - 20, 4096 + 20)]:
        for p in (up, down):
            p.write(os.urandom(n))
            p.deliver(everything=True)
            ctx.check(len(p.got) == len(p.sent), f'{p.label}: data lost', f'write of {n} bytes')
            ctx.seen('sizes', spec['mfl'], spec['suite'], n)
    ctx.eval()


def run_large(spec, ctx):
    rng = ctx.rng
    sc = scen.simple(mfl=16384 if spec['n'] % 3 else 4096, suites_s=[rng.choice(scen.SUITES[:3])])
    link = open_pair(ctx, sc)
    up = Pipe(ctx, link.c, link.s, Segmenter(rng, rng.choice(('big', 'mixed'))), 'client to server')
    down = Pipe(ctx, link.s, link.c, Segmenter(rng, 'big'), 'server to client')
    for p in (up, down):
        p.write(rng.randbytes(rng.randint(2_000_000, 5_000_000)))
    while up.queue or down.queue:
        for p in (up, down):
            chunk = p.queue[:300_000]
            rest = p.queue[300_000:]
            p.queue = chunk
            p.deliver(everything=True)
            p.queue = rest
    for p in (up, down):
        ctx.check(p.got == p.sent, f'{p.label}: data lost', f'{len(p.got)} of {len(p.sent)}')
    ctx.count('large transfers')
    ctx.seen('large', spec['n'])
    ctx.eval()
