""" C23: a server told to authenticate its clients lets no other in. """
import os
import socket
import ssl
import threading

from siotls import TLSConfiguration, TLSConnection

from lib import pki, ref13, scen
from lib.link import Link, Ref, Sio, openssl_client
from lib.ref13 import APPDATA, CERT, CV, CV_CLIENT, CV_SERVER, FIN, HANDSHAKE, HEARTBEAT, KU, hs, u8, u16, u24, v8, v16, v24

PID, LEVEL = 'C23', 'exploration'
RULE = 'distinct (what the server trusts, its certificates, behaviour of the client, client certificate types, retry) histories'
ASSUMPTIONS = [
    'a server which cannot authenticate its client (client certificates are not supported yet) refuses everyone, which is safe: '
    'what is monitored is that nobody unauthenticated gets in, not that the authenticated do',
    'after a retry the request may be restricted to some of the signature algorithms of the server',
    'how the refusal is reported to the caller is not prescribed',
]
MINIMUM = {'refused': 1300, 'flights acted out': 900, 'requests': 900, 'no common type': 300, 'controls accepted': 250, 'sends refused': 3000,
           'observations': 10000, 'OpenSSL refused': 40, 'siotls clients refused': 60, 'wrapped refused': 15}

HOWS = ('empty', 'skip', 'skip-all', 'stranger', 'stranger-key', 'no-cv', 'bad-cv', 'garbage-cv', 'server-cv', 'other-transcript',
        'servers-own', 'expired', 'for-servers', 'self-issued', 'cv-alone', 'empty-cv', 'after-finished', 'twice', 'no-finished',
        'bad-finished', 'app-first', 'app-only', 'heartbeat', 'key-update', 'context', 'trailing-root', 'other-type', 'raw-as-x509')
TYPES = (None, None, None, (0,), (2,), (0, 2), (2, 0), (1,), (0, 1, 2), (255,))


def cases(tier, seed):
    k = 1 if tier == 'quick' else 20
    out = [{'what': 'client', 'how': h, 'n': n} for h in HOWS for n in range(60 * k)]
    out += [{'what': 'openssl', 'n': n} for n in range(60 * k)]
    out += [{'what': 'pair', 'n': n} for n in range(90 * k)]
    out += [{'what': 'wrapped', 'n': n} for n in range(20 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


# ---------------------------------------------------------------- server
def trusted_key(n=0):
    return pki.key('ed25519', f'client{n}')


def trust(rng):
    """ The settings which ask for authentication. """
    what = rng.choice(('store', 'keys', 'both'))
    d = {}
    if what != 'keys':
        d['trust_store'] = pki.store(*rng.choice(((), (pki.root(0), pki.root(1)))))
    if what != 'store':
        d['trusted_public_keys'] = [trusted_key(i).public_key() for i in range(rng.randint(1, 3))]
    return what, d


class Watch:
    """ Nobody unauthenticated gets in, however often one looks. """
    def __init__(self, ctx, s, what, secret):
        self.ctx, self.s, self.what, self.secret = ctx, s, what, secret

    def look(self):
        ctx, s = self.ctx, self.s
        ctx.count('observations')
        ctx.check(not s.connected, 'connected to a client which is not authenticated', self.what)
        data = s.take()
        ctx.check(not data, 'data of a client which is not authenticated', f'{self.what}: {data[:40]!r}')
        n = s.conn.nconfig
        ctx.check(n is None or (n.peer_certificate is None and n.peer_public_key is None),
                  'reports the identity of a client which is not authenticated', self.what)
        try:
            s.write(self.secret)
        except Exception:
            ctx.count('sends refused')
        else:
            ctx.violation('data accepted for a client which is not authenticated', self.what)


class Watched(Sio):
    watch = None

    def feed(self, data):
        super().feed(data)
        if self.watch:
            self.watch.look()

    def out(self):
        if self.watch:
            self.watch.look()
        return super().out()


# ---------------------------------------------------------------- client
def strangers():
    return pki.make('test client', pki.key('p256', 'stranger'), pki.root(5), eku=pki.CLIENT_AUTH, sans=(pki.HOST,))


def known(kind='p256', **kw):
    return pki.make('test client', pki.key(kind, 'known'), pki.root(0), sans=(pki.HOST,), **{'eku': pki.CLIENT_AUTH, **kw})


def certificate(*ders, context=b''):
    return hs(CERT, v8(context) + v24(b''.join(v24(d) + v16(b'') for d in ders)))


def cv_of(peer, key, cert, context=CV_CLIENT, more=b''):
    scheme = ref13.schemes_for(key.public_key())[0]
    return hs(CV, u16(scheme) + v16(ref13.sign(key, scheme, context + peer.th([cert] if cert else []) + more)))


def flight(how, rng, peer, server_node):
    """ What the client sends in place of its last flight: the messages, without Finished. """
    key, cert, cv = None, None, True
    if how == 'empty':
        return [certificate()]
    if how == 'empty-cv':
        cert = certificate()
        return [cert, cv_of(peer, trusted_key(7), cert)]
    if how in ('skip', 'skip-all', 'twice', 'no-finished', 'bad-finished', 'app-first', 'app-only', 'heartbeat', 'key-update'):
        return [] if how != 'no-finished' else [certificate()]
    if how == 'cv-alone':
        return [cv_of(peer, trusted_key(7), None)]
    if how in ('stranger', 'after-finished', 'context'):
        node = strangers()
        cert, key = certificate(node.der, context=b'x' if how == 'context' else b''), node.key
    elif how in ('stranger-key', 'raw-as-x509'):
        key = trusted_key(7 if how == 'stranger-key' else 0)
        cert = certificate(pki.spki(key.public_key()))
        if how == 'raw-as-x509':      # the key is trusted, it is another which signs
            key = trusted_key(7)
    elif how in ('no-cv', 'bad-cv', 'garbage-cv', 'server-cv', 'other-transcript'):
        node = known()
        cert, key = certificate(node.der), node.key
        if how == 'no-cv':
            return [cert]
        if how == 'bad-cv':
            return [cert, cv_of(peer, pki.key('p256', 'thief'), cert)]
        if how == 'garbage-cv':
            return [cert, hs(CV, u16(0x0403) + v16(os.urandom(rng.choice((0, 1, 70)))))]
        if how == 'server-cv':
            return [cert, cv_of(peer, key, cert, CV_SERVER)]
        return [cert, cv_of(peer, key, cert, more=b'x')]
    elif how == 'servers-own':
        cert, key = certificate(*[n.der for n in pki.chain(server_node)] or [server_node.der]), pki.key('p256', 'thief')
    elif how == 'expired':
        node = known(before=pki.now() - 900 * pki.HOUR, after=pki.now() - 1 * pki.HOUR)
        cert, key = certificate(node.der), node.key
    elif how == 'for-servers':        # a certificate which is not for clients
        node = known(eku=pki.SERVER_AUTH)
        cert, key = certificate(node.der), node.key
    elif how == 'self-issued':        # has the name of the trusted one
        fake = pki.make('test root 0 p256', pki.key('p256', 'fake-root'), ca=True, path_length=3)
        node = pki.make('test client', pki.key('p256', 'stranger'), fake, eku=pki.CLIENT_AUTH, sans=(pki.HOST,))
        cert, key = certificate(node.der, *[fake.der] * rng.randint(0, 1)), node.key
    elif how == 'trailing-root':      # the trusted one comes along
        node = strangers()
        cert, key = certificate(node.der, pki.root(0).der), node.key
    elif how == 'other-type':
        key = trusted_key(7)
        cert = certificate(rng.choice((pki.spki(key.public_key()), os.urandom(60), b'\x30\x00')))
    return [cert, cv_of(peer, key, cert)]


def script(how, rng, server_node, said):
    def cert(peer, msg):
        return []                     # comes with Finished, whether it was asked or not

    def fin(peer, msg):
        said.append(how)
        asked = peer.got_cr is not None
        if how == 'skip-all':
            return []
        msgs = flight(how, rng, peer, server_node)
        if not asked and rng.random() < .5:
            msgs = []
        finished = lambda extra: hs(FIN, peer.sched.finished(peer.sched.c_hs, peer.th(extra)))
        last = finished(msgs)
        if how == 'no-finished':
            last = None
        elif how == 'bad-finished':
            last = hs(FIN, os.urandom(peer.suite.hlen))
        elif how == 'after-finished':
            first = finished([])
            return [first, *msgs, finished([first, *msgs])]
        items = list(msgs)
        if how in ('app-first', 'app-only'):
            items.append(('record', APPDATA, b'secret of the client'))
            if how == 'app-only':
                return items
        elif how == 'heartbeat':
            items.append(('record', HEARTBEAT, b'\x01' + v16(b'beat') + bytes(16)))
        elif how == 'key-update':
            items.append(('record', HANDSHAKE, hs(KU, b'\x01')))
        if last is not None:
            items.append(last)
        if how == 'twice':
            items.append(finished([last]))
        return items
    return {'CERT': cert, 'FIN': fin}


def run_client(spec, ctx):
    rng, how = ctx.rng, spec['how']
    sc = scen.rand(rng, compatible=True)
    while sc['kind'] == 'rsapss':
        sc = scen.rand(rng, compatible=True)
    what, extra = trust(rng)
    node = scen.leaf_node(sc['kind'], sc['via'])
    types = rng.choice(TYPES)
    secret = b'secret of the server ' + os.urandom(8)
    shares = None
    retry = rng.random() < .3
    if retry:
        shares = []
    said = []

    def client(hostile):
        return Ref(scen.ref_client(sc, shares=shares, client_cert_types=types, layout=scen.layout(rng), lenient=hostile,
                                   script=script(how, rng, node, said) if hostile else {}))

    # the same, when nobody has to be authenticated
    if spec['n'] % 5 == 0:
        s, c = Sio(scen.server_config(sc)), client(False)
        Link(c, s, *scen.segmenters(rng)).handshake()
        ctx.require(s.connected and c.connected, 'the workload reaches nothing', f'{sc} {s.error} {c.error}')
        ctx.count('controls accepted')

    s, c = Watched(scen.server_config(sc, **extra)), client(True)
    s.watch = watch = Watch(ctx, s, f'{how} {what} {types} {"retry" if retry else ""}', secret)
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    watch.look()
    negotiated(ctx, rng, sc, extra, types, c.peer, watch.what)
    # it goes on as if it were in
    for i in range(rng.randint(1, 4)):
        x = rng.choice(('app', 'app', 'finished', 'empty', 'heartbeat', 'close', 'raw'))
        p = c.peer
        if x == 'app':
            p.send_app(b'secret of the client')
        elif x == 'finished' and p.sched:
            p.put(HANDSHAKE, hs(FIN, p.sched.finished(p.sched.c_hs, p.th())))
        elif x == 'empty':
            p.put(HANDSHAKE, certificate())
        elif x == 'heartbeat':
            p.put(HEARTBEAT, b'\x01' + v16(b'beat') + bytes(16))
        elif x == 'close':
            p.send_alert('close_notify')
        else:
            p.outbuf += os.urandom(30)
        link.run()
        watch.look()
    if rng.random() < .3:
        s.conn.close_receiving_end()
        watch.look()
    ctx.check(not c.peer.app_in, 'data sent to a client which is not authenticated', watch.what)
    ctx.check(secret not in bytes(s.tx), 'data sent to a client which is not authenticated', watch.what)
    ctx.check(not c.peer.heartbeats, 'a heartbeat answered to a client which is not authenticated', watch.what)
    ctx.seen('history', how, what, types, tuple(sc['server_certs']), retry)
    ctx.count('refused')
    ctx.count('flights acted out', len(said))
    ctx.sample({'how': how, 'trust': what, 'types': types, 'error': repr(s.error), 'alerts': c.peer.alerts_in,
                'asked': c.peer.got_cr is not None})


def negotiated(ctx, rng, sc, extra, types, peer, what):
    """ It asks for what it can check, among what the client has. """
    mine = ([0] if 'trust_store' in extra else []) + ([2] if 'trusted_public_keys' in extra else [])
    common = [t for t in mine if t in (types if types is not None else (0,))]
    if not common:
        ctx.check(peer.sched is None, 'goes on without a common client certificate type', what)
        ctx.check([a for _, a, _ in peer.alerts_in] == ['unsupported_certificate'], 'no common client certificate type: other alert',
                  f'{what} {peer.alerts_in}')
        ctx.count('no common type')
    elif peer.got_cr is not None or peer.connected:
        if not ctx.check(peer.got_cr is not None, 'authentication is not requested', what):
            return
        context, exts = peer.got_cr
        ctx.check(context == b'', 'a context in the request of the handshake', what)
        got = ref13.R(dict(exts).get(13, b'')).v16()
        got = [int.from_bytes(got[i:i + 2], 'big') for i in range(0, len(got), 2)]
        ctx.check(got == sc['sigs_s'] or (peer.hrr and got and set(got) <= set(sc['sigs_s'])),
                  'requests other signature algorithms than its own', lambda: f'{what} {got} {sc["sigs_s"]}')
        x = dict(peer.ee)
        ctx.check(x.get(ref13.X_CCT) == (None if types is None else u8(common[0])), 'another client certificate type', f'{what} {x}')
        ctx.count('requests')


def run_openssl(spec, ctx):
    """ OpenSSL, without certificate or with one the server doesn't trust. """
    rng = ctx.rng
    what, extra = trust(rng)
    c = openssl_client()
    secret = b'secret of the server ' + os.urandom(8)
    s = Watched(scen.server_config(scen.simple(kind=rng.choice(('p256', 'rsa')), **{'server_certs': ['x509']}), **extra))
    s.watch = watch = Watch(ctx, s, f'openssl {what}', secret)
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    for _ in range(3):
        try:
            c.write(b'secret of the client')
        except ssl.SSLError:
            pass
        link.run()
        watch.look()
    ctx.check(not c.app, 'data sent to a client which is not authenticated', watch.what)
    ctx.count('OpenSSL refused')
    ctx.seen('history', 'openssl', what, repr(c.error)[:60])


def run_pair(spec, ctx):
    """ siotls against siotls. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=True)
    what, extra = trust(rng)
    own = {}
    if rng.random() < .6:             # it has an identity, the client side cannot use it yet
        node = rng.choice((strangers(), known()))
        own = {'private_key': node.key, 'certificate_chain': [node.cert]}
        if rng.random() < .5:
            own['public_key'] = node.key.public_key()
    kw = {} if sc['host'] is None else {'server_hostname': sc['host']}
    c = Sio(scen.client_config(sc, **own), **kw)
    secret = b'secret of the server ' + os.urandom(8)
    s = Watched(scen.server_config(sc, **extra))
    s.watch = watch = Watch(ctx, s, f'pair {what} {sorted(own)}', secret)
    link = Link(c, s, *scen.segmenters(rng)).handshake()
    for _ in range(3):
        if c.connected:
            c.write(b'secret of the client')
        link.run()
        watch.look()
    ctx.check(not c.take(), 'data sent to a client which is not authenticated', watch.what)
    ctx.check(c.error is not None or not c.connected or not s.connected, 'both connected', watch.what)
    ctx.count('siotls clients refused')
    ctx.seen('history', 'pair', what, tuple(sorted(own)), tuple(sc['server_certs']))


def run_wrapped(spec, ctx):
    """ Behind a socket: the handshake of the server doesn't return. """
    rng = ctx.rng
    what, extra = trust(rng)
    a, b = socket.socketpair()
    got = []

    def client():
        x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        x.check_hostname, x.verify_mode = False, ssl.CERT_NONE
        a.settimeout(20)
        try:
            with x.wrap_socket(a) as t:
                t.sendall(b'secret of the client')
                while d := t.recv(1000):
                    got.append(d)
        except OSError:
            pass

    t = threading.Thread(target=client, daemon=True)
    t.start()
    b.settimeout(20)
    conn = TLSConnection(scen.server_config(scen.simple(kind='p256', server_certs=['x509']), **extra))
    w = conn.wrap(b)
    try:
        w.do_handhskake()
    except Exception as exc:
        ctx.sample({'wrapped': repr(exc)})
    else:
        ctx.violation('the handshake of the wrapper returns without authentication', what)
    for use in (lambda: w.read(), lambda: w.write(b'secret of the server')):
        if not rng.random() < .7:
            continue
        try:
            data = use()
        except Exception:
            data = b''
        ctx.check(not data or not isinstance(data, (bytes, bytearray)), 'data of a client which is not authenticated', what)
    ctx.check(not conn.is_connected(), 'connected to a client which is not authenticated', what)
    b.close()
    t.join(30)
    a.close()
    ctx.check(not got, 'data sent to a client which is not authenticated', what)
    ctx.count('wrapped refused')
    ctx.seen('history', 'wrapped', what)
