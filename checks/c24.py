""" C24: unusable settings are refused, insecure ones are announced, and what was accepted doesn't change. """
import copy
import dataclasses
import logging
import os

from siotls import TLSConfiguration, TLSConnection
from siotls.iana import ALPNProtocol, CipherSuites, MaxFragmentLengthOctets, NamedGroup, SignatureScheme

from lib import pki, ref13, scen
from lib.link import Link, Ref, Sio
from lib.monitor import KeyLog

PID, LEVEL = 'C24', 'exploration'
RULE = 'distinct (side, which settings are given, which are empty or misplaced) configurations judged'
ASSUMPTIONS = [
    'the checks are those the configuration announces in its errors: it does not check that the private key is that of the '
    'certificate, nor that the side is one of the two',
    'an announcement is a record on one of the siotls loggers, of level warning at least for what is insecure',
]
MINIMUM = {'accepted': 700, 'refused': 700, 'frozen fields': 20000, 'warnings': 250, 'no warning': 250, 'connections': 600,
           'unchanged': 600, 'defaults': 200, 'misplaced hostnames': 100, 'key log announced': 40}
FIELDS = [f.name for f in dataclasses.fields(TLSConfiguration)]


def cases(tier, seed):
    k = 1 if tier == 'quick' else 25
    out = [{'what': 'settings', 'n': n} for n in range(1600 * k)]
    out += [{'what': 'defaults', 'n': n} for n in range(200 * k)]
    out += [{'what': 'life', 'n': n} for n in range(400 * k)]
    out += [{'what': 'replaced', 'n': n} for n in range(200 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


class Logs(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        if record.name != 'siotls.keylog':
            self.records.append(record)

    def __enter__(self):
        self.logger = logging.getLogger('siotls')
        self.was = self.logger.level, self.logger.disabled
        self.logger.setLevel(logging.DEBUG)
        self.logger.addHandler(self)
        return self

    def __exit__(self, *exc):
        self.logger.removeHandler(self)
        self.logger.setLevel(self.was[0])

    def warnings(self):
        return [r for r in self.records if r.levelno >= logging.WARNING]


# ---------------------------------------------------------------- model
def settings(rng):
    """ Any settings, often with something wrong. """
    sub = lambda items, cls: [cls(x) for x in rng.sample(list(items), rng.randint(1, min(4, len(items))))]
    d = {}
    if rng.random() < .5:
        d['cipher_suites'] = sub(scen.SUITES, CipherSuites)
    if rng.random() < .5:
        d['key_exchanges'] = sub(scen.FAST_GROUPS, NamedGroup)
    if rng.random() < .5:
        d['signature_algorithms'] = sub(scen.SIGALGS, SignatureScheme)
    for k in ('cipher_suites', 'key_exchanges', 'signature_algorithms'):
        if rng.random() < .06:
            d[k] = rng.choice(([], ()))
    node = scen.leaf_node(rng.choice(('p256', 'rsa', 'ed25519')), 'root')
    if rng.random() < .75:
        d['private_key'] = node.key
    if rng.random() < .6:
        d['certificate_chain'] = [node.cert] if rng.random() < .9 else []
    if rng.random() < .4:
        d['public_key'] = node.key.public_key()
    if rng.random() < .35:
        d['trust_store'] = pki.store()
    if rng.random() < .35:
        d['trusted_public_keys'] = [pki.key('ed25519', i).public_key() for i in range(rng.randint(0, 3))]
    if rng.random() < .3:
        d['max_fragment_length'] = rng.choice(list(MaxFragmentLengthOctets))
    if rng.random() < .5:
        d['can_echo_heartbeat'] = rng.random() < .5
    if rng.random() < .4:
        d['alpn'] = [ALPNProtocol(a) for a in scen.some(rng, scen.ALPNS, 0)]
    if rng.random() < .25:
        d['server_hostnames'] = rng.choice(([], [pki.HOST], ['a.test', 'b.test']))
    if rng.random() < .3:
        d['log_keys'] = rng.random() < .5
    if rng.random() < .2:
        d['max_chain_depth'] = rng.randint(0, 9)
    if rng.random() < .1:
        d['revocation_list'] = pki.crl(pki.root(0), [1])
    return d


def wrong(side, d):
    """ Why such settings cannot be used. """
    out = [k for k in ('cipher_suites', 'key_exchanges', 'signature_algorithms') if k in d and not d[k]]
    if side == 'server':
        if int(d.get('max_fragment_length', 16384)) != 16384:
            out.append('max_fragment_length')
        if d.get('private_key') is None:
            out.append('private_key')
        if not d.get('certificate_chain') and not d.get('public_key'):
            out.append('identity')
    elif d.get('server_hostnames'):
        out.append('server_hostnames')
    return out


def verifies(d):
    return bool(d.get('trust_store') or d.get('trusted_public_keys'))


def snapshot(config):
    """ What the configuration says: the settings themselves, lists by content. """
    return {k: (type(v), [id(x) if not isinstance(x, (int, str)) else x for x in v]) if isinstance(v, (list, tuple)) else v
            for k in FIELDS for v in (getattr(config, k),)}


# ---------------------------------------------------------------- cases
def run_settings(spec, ctx):
    rng = ctx.rng
    side, d = rng.choice(('client', 'server')), settings(rng)
    why = wrong(side, d)
    given = {k: list(v) if isinstance(v, list) else v for k, v in d.items()}
    with Logs() as logs:
        try:
            config = TLSConfiguration(side, **d)
        except ValueError as exc:
            ctx.check(why, 'usable settings are refused', f'{side} {sorted(d)}: {exc}')
            ctx.check(str(exc), 'refused without a reason', side)
            ctx.count('refused')
            ctx.seen(side, 'refused', tuple(why), tuple(sorted(d)))
            return
    if not ctx.check(not why, 'unusable settings are accepted', f'{side} {why} {sorted(d)}'):
        return
    ctx.count('accepted')
    ctx.seen(side, 'accepted', tuple(sorted(k for k in d)), verifies(d))
    for k, v in given.items():
        ctx.check(getattr(config, k) == v, 'not the given setting', k)
    ctx.check(config.side == side, 'another side', side)
    ctx.check(config.other_side == {'client': 'server', 'server': 'client'}[side], 'the other side', side)
    ctx.check(config.require_peer_authentication is verifies(d), 'authentication', f'{side} {sorted(d)}')
    if side == 'client':
        announced(ctx, not verifies(d), logs.warnings(), 'the peer is not verified')
    else:
        ctx.check(not logs.warnings(), 'warns about a sound configuration', str(logs.warnings()))
        ctx.check(any(r.levelno >= logging.INFO for r in logs.records) == verifies(d), 'client certificates: not announced',
                  str(logs.records))
    frozen(ctx, rng, config)
    connection(ctx, rng, config, d)


def announced(ctx, expected, warnings, what):
    if expected:
        ctx.check(warnings, 'not announced: ' + what, str(warnings))
        ctx.count('warnings')
    else:
        ctx.check(not warnings, 'announced while it is not so: ' + what, str(warnings))
        ctx.count('no warning')


def frozen(ctx, rng, config):
    """ Not altered by assignment. """
    before = snapshot(config)
    for k in (*FIELDS, 'require_peer_authentication', 'other_side'):
        for value in (None, getattr(config, k)):
            try:
                setattr(config, k, value)
            except AttributeError:
                ctx.count('frozen fields')
            else:
                ctx.violation('a setting can be assigned', k)
        try:
            delattr(config, k)
        except AttributeError:
            pass
        else:
            ctx.violation('a setting can be deleted', k)
    ctx.check(snapshot(config) == before, 'assigning changes the settings', config.side)


def connection(ctx, rng, config, d):
    """ The settings of the connection itself. """
    host = rng.choice((None, None, '', pki.HOST, pki.IP, 'a.test'))
    with Logs() as logs:
        try:
            conn = TLSConnection(config, server_hostname=host)
        except ValueError:
            ctx.check(config.side == 'server' and host, 'a usable connection is refused', f'{config.side} {host}')
            ctx.count('misplaced hostnames')
            return
    if not ctx.check(config.side == 'client' or not host, 'a server accepts the name of a server to reach', str(host)):
        return
    if config.side == 'client':
        announced(ctx, verifies(d) and not host, logs.warnings(), 'the name of the peer is not verified')
    with Logs() as logs:
        if d.get('log_keys') and rng.random() < .5:
            with KeyLog():
                conn.initiate_connection()
            ctx.check(not logs.warnings() and any(r.levelno == logging.INFO for r in logs.records),
                      'the key log is not announced', str(logs.records))
            ctx.count('key log announced')
        else:
            conn.initiate_connection()
            ctx.check(bool(logs.warnings()) is bool(d.get('log_keys')), 'a key log nobody listens to', str(logs.records))
            ctx.count('key log announced', bool(d.get('log_keys')))
    ctx.check(conn.config is config, 'the connection has another configuration', config.side)
    ctx.check(not conn.is_connected() and not conn.is_post_handshake(), 'connected from the start', config.side)
    ctx.check(bool(conn.data_to_send()) is (config.side == 'client'), 'the client talks first', config.side)
    ctx.count('connections')


def run_defaults(spec, ctx):
    """ The defaults belong to each configuration. """
    rng = ctx.rng
    node = scen.leaf_node('p256', 'root')
    base = {'client': {}, 'server': {'private_key': node.key, 'certificate_chain': [node.cert]}}
    lists = ('cipher_suites', 'key_exchanges', 'signature_algorithms', 'trusted_public_keys', 'alpn', 'server_hostnames')
    side = rng.choice(('client', 'server'))
    a, z = TLSConfiguration(side, **base[side]), TLSConfiguration(side, **base[side])
    was = {k: list(getattr(a, k)) for k in lists}
    ctx.check(all(was[k] for k in lists[:3]) and not any(was[k] for k in lists[3:]), 'defaults', str(was))
    for k in lists:
        v = getattr(a, k)
        x = rng.choice(('clear', 'append', 'reverse', 'pop'))
        {'clear': v.clear, 'append': lambda: v.append(object()), 'reverse': v.reverse, 'pop': lambda: v and v.pop()}[x]()
    other = rng.choice(('client', 'server'))
    b = TLSConfiguration(other, **base[other])
    for c in (b, z):
        for k in lists:
            ctx.check(getattr(c, k) == was[k], 'defaults are shared', k)
            ctx.count('defaults')
    ctx.seen('defaults', side, other, spec['n'] % 40)


def run_life(spec, ctx):
    """ What the configuration says is the same after its connections, whatever happened to them. """
    rng = ctx.rng
    sc = scen.rand(rng, compatible=rng.choice((True, True, None)))
    cc, sconf = scen.client_config(sc), scen.server_config(sc)
    before = [snapshot(c) for c in (cc, sconf)]
    derived = [(list(c.certificate_types), list(c.peer_certificate_types), c.require_peer_authentication) for c in (cc, sconf)]
    for _ in range(rng.randint(1, 3)):
        kw = {} if sc['host'] is None else {'server_hostname': sc['host']}
        x = rng.choice(('pair', 'client', 'server', 'garbage'))
        c = Sio(cc, **kw) if x != 'server' else Ref(scen.ref_client(sc, shares=rng.choice((None, [])), layout=scen.layout(rng)))
        s = Sio(sconf) if x != 'client' else Ref(scen.ref_server(sc, hrr_group=rng.choice((None, 0x18)), layout=scen.layout(rng)))
        link = Link(c, s, *scen.segmenters(rng))
        if x == 'garbage':
            link.intercept = lambda d, b: os.urandom(len(b)) if rng.random() < .3 else b
        link.handshake()
        for e in (c, s):
            if e.connected:
                e.write(b'x' * rng.randint(1, 3000))
        link.run()
        for e in (c, s):
            if e.connected:
                e.close()
        link.run()
        ctx.seen('life', x, bool(c.connected), tuple(sc['server_certs']), tuple(sc['trust']))
        ctx.count('unchanged')
    for c, was, types in zip((cc, sconf), before, derived):
        now = snapshot(c)
        ctx.check(now == was, 'a connection changes its configuration', lambda: f'{c.side} {[k for k in now if now[k] != was[k]]}')
        ctx.check((list(c.certificate_types), list(c.peer_certificate_types), c.require_peer_authentication) == types,
                  'a connection changes the certificate types of its configuration', c.side)


def run_replaced(spec, ctx):
    """ Settings which come by copy are judged like the others. """
    rng = ctx.rng
    side = rng.choice(('client', 'server'))
    node = scen.leaf_node('p256', 'root')
    base = {} if side == 'client' else {'private_key': node.key, 'certificate_chain': [node.cert]}
    d = settings(rng)
    config = TLSConfiguration(side, **base)
    config.certificate_types, config.peer_certificate_types        # computed once
    before = snapshot(config)
    full = {**base, **d}
    why = wrong(side, full)
    try:
        other = dataclasses.replace(config, **d)
    except ValueError:
        ctx.check(why, 'usable settings are refused', f'{side} {sorted(full)}')
        ctx.count('refused')
    else:
        ctx.check(not why, 'unusable settings are accepted', f'{side} {why}')
        ctx.check(other.peer_certificate_types == ([0] if d.get('trust_store') else [])
                  + ([2] if d.get('trusted_public_keys') else []), 'certificate types of the peer', str(other.peer_certificate_types))
        ctx.check(other.certificate_types == ([0] if full.get('certificate_chain') else []) + ([2] if full.get('public_key') else []),
                  'certificate types', str(other.certificate_types))
        ctx.check(other.require_peer_authentication is verifies(full), 'authentication', side)
        ctx.count('accepted')
    ctx.check(snapshot(config) == before, 'a copy changes its original', side)
    ctx.seen('replaced', side, tuple(why), tuple(sorted(d)))
