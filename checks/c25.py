""" C25: the bundled client trusts the authorities of the system, and no other. """
import builtins
import contextlib
import io
import ipaddress
import logging
import os
import platform
import socket
import ssl
import subprocess
import sys
import threading
from datetime import timedelta

from cryptography import x509
from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat
from cryptography.x509.verification import PolicyBuilder, VerificationError

from siotls import trust_store
from siotls.examples import simple_client

from lib import pki, responder

PID, LEVEL = 'C25', 'exploration'
RULE = 'distinct (distribution, bundle) stores and (server, host, way to run the client) outcomes judged'
ASSUMPTIONS = [
    'the system is a tree of files: what the library opens under /etc, /usr/lib and /var/lib is looked up in a scratch copy',
    'a system is unknown when neither its ID nor one of its ID_LIKE is one of the six families which are supported',
]
MINIMUM = {'stores judged': 150, 'systems refused': 60, 'servers accepted': 60, 'servers refused': 150,
           'insecure': 30, 'commands': 40}
SERVE = 30

DEB = '/etc/ssl/certs/ca-certificates.crt'
ARCH = '/etc/ca-certificates/extracted/tls-ca-bundle.pem'
RED = '/etc/pki/ca-trust/extracted/pem/tls-ca-bundle.pem'
SUSE = '/var/lib/ca-certificates/ca-bundle.pem'
PATHS = (DEB, ARCH, RED, SUSE)
FAMILIES = {'alpine': DEB, 'arch': ARCH, 'debian': DEB, 'fedora': RED, 'suse': SUSE, 'ubuntu': DEB}
# (lines of os-release, bundle)
SYSTEMS = [
    (('ID=alpine',), DEB), (('ID=arch', 'BUILD_ID=rolling'), ARCH), (('ID=manjaro', 'ID_LIKE=arch'), ARCH),
    (('ID="endeavouros"', 'ID_LIKE="arch"'), ARCH), (('ID=debian', 'VERSION_ID="12"'), DEB),
    (('ID=raspbian', 'ID_LIKE=debian'), DEB), (("ID='kali'", "ID_LIKE='debian'"), DEB),
    (('ID=ubuntu', 'ID_LIKE=debian'), DEB), (('ID=linuxmint', 'ID_LIKE="ubuntu debian"'), DEB),
    (('ID=pop', 'ID_LIKE="ubuntu debian"'), DEB), (('ID=fedora',), RED), (('ID="rhel"', 'ID_LIKE="fedora"'), RED),
    (('ID="centos"', 'ID_LIKE="rhel fedora"'), RED), (('ID="rocky"', 'ID_LIKE="rhel centos fedora"'), RED),
    (('ID="amzn"', 'ID_LIKE="fedora"'), RED), (('ID="opensuse-leap"', 'ID_LIKE="suse opensuse"'), SUSE),
    (('ID="opensuse-tumbleweed"', 'ID_LIKE="opensuse suse"'), SUSE), (('ID="sles"', 'ID_LIKE="suse"'), SUSE),
]
UNKNOWN = [('ID=gentoo',), ('ID=nixos', 'ID_LIKE=""'), ('ID="void"',), ('ID=slackware', 'ID_LIKE=slack'), (),
           ('ID=solus',), ('ID=debianish', 'ID_LIKE="notdebian archlike"'), ('NAME=debian', 'VERSION_CODENAME=ubuntu'),
           ('ID=guix', 'ID_LIKE=guix')]
KNOWN_BAD = ('no-bundle', 'no-release', 'garbage', 'empty', 'other-system')
SERVERS_GOOD = ('root', 'inter', 'ocsp-good')
SERVERS_BAD = ('unknown-root', 'unknown-inter', 'self-signed', 'expired', 'not-yet', 'other-name', 'other-address', 'no-name',
               'for-clients', 'by-leaf', 'no-inter', 'decoy', 'ocsp-revoked', 'ocsp-unknown', 'same-name-root')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 14
    out = [{'what': 'store', 'n': n} for n in range(240 * k)]
    out += [{'what': 'refuse', 'n': n} for n in range(100 * k)]
    out += [{'what': 'connect', 'server': s, 'n': n} for s in SERVERS_BAD for n in range(8 * k)]
    out += [{'what': 'connect', 'server': s, 'n': n} for s in SERVERS_GOOD for n in range(20 * k)]
    out += [{'what': 'connect', 'server': 'system', 'n': n} for n in range(12 * k)]
    out += [{'what': 'insecure', 'n': n} for n in range(40 * k)]
    out += [{'what': 'command', 'server': s, 'n': n} for s in SERVERS_BAD for n in range(2 * k)]
    out += [{'what': 'command', 'server': s, 'n': n} for s in SERVERS_GOOD for n in range(5 * k)]
    out += [{'what': 'command', 'server': 'system', 'n': n} for n in range(4 * k)]
    out += [{'what': 'command', 'server': 'insecure', 'n': n} for n in range(8 * k)]
    return out


def run_case(spec, ctx):
    globals()['run_' + spec['what']](spec, ctx)
    ctx.eval()


# ---------------------------------------------------------------- systems

# shared with the commands, where it comes before the client
MACHINE = '''
import builtins, io, os, platform
def pretend(root, system):
    real = io.open
    def inside(file):
        try:
            path = os.path.normpath(os.fspath(file))
        except TypeError:
            return file
        if isinstance(path, str) and path.startswith(('/etc/', '/usr/lib/os-release', '/var/lib/', '/usr/share/', '/usr/local/')):
            return root + path
        return file
    def fake(file, *a, **kw):
        return real(inside(file), *a, **kw)
    builtins.open = io.open = fake
    platform._os_release_cache = None
    if system != 'Linux':
        platform.system = lambda: system
'''
exec(compile(MACHINE, '<machine>', 'exec'))     # noqa: S102


@contextlib.contextmanager
def machine(root, system='Linux'):
    saved = builtins.open, io.open, platform.system, getattr(platform, '_os_release_cache', None)
    pretend(root, system)      # noqa: F821
    try:
        yield
    finally:
        builtins.open, io.open, platform.system, platform._os_release_cache = saved


def pem(rng, nodes):
    out = [rng.choice(('', '# the authorities\n', '\n\n'))]
    for node in nodes:
        text = node.cert.public_bytes(Encoding.PEM).decode()
        if rng.random() < .3:
            text = f'# {node.cert.subject.rfc4514_string()}\n{text}'
        out.append(text + rng.choice(('', '', '\n')))
    return ''.join(out).encode()


def authority(rng, cn=None):
    return pki.make(cn or f'authority {rng.getrandbits(30)}', pki.key(rng.choice(('p256', 'p256', 'p384')), f'au{rng.randrange(12)}'),
                    ca=True, key_usage=pki.usage(True))


def release(rng, lines):
    lines = ['NAME="Some system"', 'PRETTY_NAME="Some 1"', *lines, 'HOME_URL="https://system.test/"']
    rng.shuffle(lines)
    if rng.random() < .3:
        lines.insert(0, '# comment')
    return '\n'.join(lines) + '\n'


def a_system(rng):
    """ (lines of os-release, where its bundle is) """
    r = rng.random()
    if r < .55:
        return rng.choice(SYSTEMS)
    fams = list(FAMILIES)
    if r < .7:       # its own name comes first
        own = rng.choice(fams)
        return (f'ID={own}', f'ID_LIKE="{" ".join(rng.sample(fams, rng.randint(1, 3)))}"'), FAMILIES[own]
    like = rng.sample(fams, rng.randint(1, 4))
    words = [f'x{rng.randrange(99)}' for _ in range(rng.randint(0, 2))] + like
    return ('ID=some', f'ID_LIKE="{" ".join(words)}"'), FAMILIES[like[0]]


def build(rng, lines, bundles, where=None):
    """ A tree of files: bundles is {path: bytes}. """
    root = os.path.join(os.environ['SIOTLS_SCRATCH'], f'machine-{os.getpid()}-{rng.getrandbits(40):x}')
    if lines is not None:
        bundles = {where or rng.choice(('/etc/os-release', '/etc/os-release', '/usr/lib/os-release')):
                   release(rng, lines).encode(), **bundles}
    os.mkdir(root)
    for path, data in bundles.items():
        os.makedirs(os.path.dirname(root + path), exist_ok=True)
        with open(root + path, 'wb') as f:
            f.write(data)
    return root


def trusts(store, anchor, rng):
    leaf = pki.make('x', pki.key('p256', 'leaf'), anchor, sans=('name.test',), eku=pki.SERVER_AUTH)
    try:
        PolicyBuilder().store(store).build_server_verifier(x509.DNSName('name.test')).verify(leaf.cert, [])
    except VerificationError:
        return False
    return True


def run_store(spec, ctx):
    rng = ctx.rng
    lines, path = a_system(rng)
    mine = [authority(rng) for _ in range(rng.choice((1, 1, 2, 5, 20)))]
    others = {p: [authority(rng) for _ in range(2)] for p in PATHS if p != path}
    bundles = {p: pem(rng, a) for p, a in others.items() if rng.random() < .8}
    bundles[path] = pem(rng, mine + rng.sample(mine, rng.randint(0, 1)))
    root = build(rng, lines, bundles)
    try:
        with machine(root):
            store = trust_store.get_system_store()
    except Exception as exc:
        return ctx.check(False, 'the authorities of a known system cannot be read', f'{exc!r} {lines}')
    for a in rng.sample(mine, min(len(mine), 6)):
        ctx.check(trusts(store, a, rng), 'an authority of the system is not trusted', f'{lines} {path}')
    for a in rng.sample(sum(others.values(), []), 3) + [authority(rng, mine[0].cert.subject.rfc4514_string()[3:])]:
        if a.spki not in {m.spki for m in mine if m.cert.subject == a.cert.subject}:
            ctx.check(not trusts(store, a, rng), 'an authority which is not one of the system is trusted', f'{lines} {path}')
    ctx.count('stores judged')
    ctx.seen('store', *lines, len(mine))
    ctx.sample({'system': lines, 'bundle': path, 'authorities': len(mine)})


def broken(rng, ctx):
    """ (root, system) of a machine whose authorities are not known. """
    bundles = {p: pem(rng, [authority(rng)]) for p in PATHS}
    how = rng.choice(KNOWN_BAD + ('unknown',) * 5)
    if how == 'unknown':
        return how, build(rng, rng.choice(UNKNOWN), bundles), 'Linux'
    lines, path = a_system(rng)
    if how == 'other-system':
        return how, build(rng, lines, bundles), rng.choice(('Darwin', 'Windows', 'Java', 'FreeBSD', ''))
    if how == 'no-release':
        return how, build(rng, None, bundles), 'Linux'
    if how == 'no-bundle':
        del bundles[path]
    else:
        bundles[path] = b'' if how == 'empty' else rng.choice((
            b'not a certificate\n', os.urandom(300), b'-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n'))
    return how, build(rng, lines, bundles), 'Linux'


def run_refuse(spec, ctx):
    rng = ctx.rng
    how, root, system = broken(rng, ctx)
    store = error = None
    try:
        with machine(root, system):
            store = trust_store.get_system_store()
    except Exception as exc:
        error = exc
    ctx.check(error is not None, 'authorities are made up for a system which has none', f'{how} {store!r}')
    ctx.count('systems refused')
    ctx.seen('refused', how, type(error).__name__)


# ---------------------------------------------------------------- servers

class OpenSSLServer:
    """ One client, of whom all is noted. """
    def __init__(self, chain, key, host):
        self.dir = os.path.join(os.environ['SIOTLS_SCRATCH'], f'tls-{os.getpid()}-{os.urandom(6).hex()}')
        os.mkdir(self.dir)
        pemfile = os.path.join(self.dir, 'pem')
        with open(pemfile, 'wb') as f:
            f.write(key.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
            for c in chain:
                f.write(c.cert.public_bytes(Encoding.PEM))
        self.tls = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.tls.minimum_version = ssl.TLSVersion.TLSv1_3
        self.tls.load_cert_chain(pemfile)
        self.page = 'page ' + os.urandom(12).hex()
        self.got, self.established, self.error, self.sni = b'', False, None, None
        self.tls.sni_callback = self.named
        self.sock = socket.create_server((host, 0))
        self.sock.settimeout(SERVE)
        self.host, self.port = self.sock.getsockname()[:2]
        self.thread = threading.Thread(target=self.serve, daemon=True)
        self.thread.start()

    def named(self, sock, name, ctx):
        self.sni = name

    def serve(self):
        try:
            raw, _ = self.sock.accept()
            raw.settimeout(SERVE)
            with self.tls.wrap_socket(raw, server_side=True) as s:
                # established once the client's Finished was read
                self.established = True
                while b'\r\n\r\n' not in self.got:
                    data = s.recv(4096)
                    if not data:
                        return
                    self.got += data
                s.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s' % (len(self.page), self.page.encode()))
                with contextlib.suppress(OSError):
                    s.unwrap()
        except Exception as exc:     # judged by the checks
            self.error = exc

    def close(self):
        self.sock.close()
        self.thread.join(SERVE)


def settle(srv, failed):
    if failed:      # the client may have failed before it called
        srv.thread.join(.05)
        if srv.thread.is_alive():
            with contextlib.suppress(OSError):
                socket.create_connection((srv.host, srv.port), timeout=SERVE).close()
    srv.thread.join(SERVE)
    srv.sock.close()


def a_server(rng, how, host, ip, answers):
    """ (chain, key, authorities of the system, authorities elsewhere) """
    good = authority(rng)
    t = pki.now()
    kind = rng.choice(('p256', 'p256', 'p384', 'rsa'))
    key = pki.key(kind, 'leaf') if kind != 'rsa' else pki.key('rsa', 0)
    mine = 'ip:' + ip if host == ip else host
    sans = rng.choice(((mine,), (mine, 'other.test'), ('other.test', mine)))
    kw = {'sans': sans, 'eku': pki.SERVER_AUTH}
    system, chain_up, issuer = [good] + [authority(rng) for _ in range(rng.randint(0, 3))], [], good
    decoys = [authority(rng)]
    rng.shuffle(system)
    if how in ('inter', 'no-inter') or how.startswith('ocsp') and rng.random() < .5:
        issuer = pki.make(f'inter {rng.getrandbits(20)}', pki.key('p256', 'int'), good, ca=True, path_length=0)
        chain_up = [issuer] if how != 'no-inter' else []
    elif how == 'unknown-root':
        issuer = authority(rng)
        chain_up = [issuer] * rng.randint(0, 1)
    elif how == 'unknown-inter':
        issuer = pki.make('inter', pki.key('p256', 'int'), authority(rng), ca=True, path_length=0)
        chain_up = [issuer]
    elif how == 'decoy':
        issuer = decoys[0]
    elif how == 'same-name-root':
        # it pretends to be one of the authorities
        issuer = pki.make(good.cert.subject.rfc4514_string()[3:], pki.key('p256', 'pretender'), ca=True)
        chain_up = [issuer] * rng.randint(0, 1)
    elif how == 'by-leaf':
        issuer = pki.make('other.test', pki.key('p256', 'int'), good, sans=('other.test',), eku=pki.SERVER_AUTH)
        chain_up = [issuer]
    if how == 'expired':
        kw.update(before=t - timedelta(days=9), after=t - timedelta(seconds=rng.choice((3, 3600, 86400))))
    elif how == 'not-yet':
        kw.update(before=t + timedelta(seconds=rng.choice((600, 86400))), after=t + timedelta(days=9))
    elif how == 'other-name':
        kw['sans'] = rng.choice((('other.test',), ('x' + host,) if host != ip else ('other.test',), ('localhost.test', 'host')))
    elif how == 'other-address':
        kw['sans'] = (f'ip:{ipaddress.ip_address(ip) + rng.choice((1, 256))}', 'other.test')
    elif how == 'no-name':
        kw['sans'] = ()
    elif how == 'for-clients':
        kw['eku'] = pki.CLIENT_AUTH
    if how.startswith('ocsp'):
        kw['ocsp_url'] = answers.base + '/status'
    if how == 'self-signed':
        leaf = pki.make(host, key, None, **kw)
    else:
        leaf = pki.make(host, key, issuer, **kw)
    if how.startswith('ocsp'):
        answers.body = pki.ocsp_response(leaf, issuer, how.partition('-')[2])
    return [leaf, *chain_up], key, system, decoys


class Answers:
    def __init__(self):
        self.body = b''
        self.responder = responder.Responder(lambda hit: responder.http(self.body))
        self.base = self.responder.base

    def close(self):
        self.responder.close()


@contextlib.contextmanager
def quiet():
    logs = logging.getLogger('siotls.examples')
    before = logs.level, logging.root.manager.disable
    out = io.StringIO()
    try:
        logs.setLevel(logging.INFO)
        logging.disable(logging.NOTSET)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            yield out
    finally:
        logs.setLevel(before[0])
        logging.disable(before[1])


def prepared(ctx, spec, insecure=False):
    """ (server, responder, machine) of a case. """
    rng, how = ctx.rng, spec['server'] if 'server' in spec else 'insecure'
    ip = str(ipaddress.IPv4Address(0x7f000000 + rng.randint(2, 0xfffffd)))
    host = ip
    if rng.random() < .3 and how != 'other-address':
        host, ip = 'localhost', '127.0.0.1'
    answers = Answers()
    kind = rng.choice(SERVERS_GOOD[:2] + tuple(s for s in SERVERS_BAD if not s.startswith('ocsp'))) if how == 'insecure' else \
        'root' if how == 'system' else how
    chain, key, mine, others = a_server(rng, kind, host, ip, answers)
    if how == 'system':
        # the machine is not one whose authorities are known
        why, root, system = broken(rng, ctx)
    elif how == 'insecure' and rng.random() < .5:
        why, root, system = broken(rng, ctx)
    else:
        lines, path = a_system(rng)
        bundles = {p: pem(rng, others) for p in PATHS if p != path and rng.random() < .8}
        bundles[path] = pem(rng, mine)
        why, root, system = lines, build(rng, lines, bundles), 'Linux'
    srv = OpenSSLServer(chain, key, ip)
    return srv, answers, host, root, system, f'{kind} {host} {why}'


def judge(ctx, how, srv, out, failed, why, detail=''):
    settle(srv, failed)
    if how in SERVERS_GOOD or how == 'insecure':
        ctx.check(not failed and srv.page in out, 'the client refuses a server it should accept', f'{why}: {detail} {srv.error!r}')
        ctx.check(srv.got.startswith(b'GET / HTTP/1.1\r\n'), 'the server gets another request', f'{srv.got[:200]!r} {why}')
        ctx.count('insecure' if how == 'insecure' else 'servers accepted')
    else:
        ctx.check(failed, 'the client goes on with a server it cannot trust', f'{why}: {out[:200]}')
        ctx.check(srv.page not in out and not srv.got, 'the client talks to a server it cannot trust',
                  f'{why}: {srv.got[:200]!r} {out[:200]}')
        ctx.check(not srv.established, 'the handshake completes with a server which cannot be trusted', why)
        ctx.count('servers refused')


def run_connect(spec, ctx):
    how = spec['server']
    srv, answers, host, root, system, why = prepared(ctx, spec)
    error = None
    try:
        with machine(root, system), quiet() as out:
            try:
                simple_client.connect(host, srv.port, check_certificate=how != 'insecure')
            except Exception as exc:
                error = exc
        judge(ctx, how, srv, out.getvalue(), error is not None, why, repr(error))
        if how.startswith('ocsp'):
            ctx.check(len(answers.responder.hits) >= 1, 'the status of the server is not asked', why)
    finally:
        answers.close()
        srv.sock.close()
    ctx.seen('connect', how, host == 'localhost', type(error).__name__)


def run_insecure(spec, ctx):
    run_connect({**spec, 'server': 'insecure'}, ctx)


def run_command(spec, ctx):
    how, rng = spec['server'], ctx.rng
    srv, answers, host, root, system, why = prepared(ctx, spec)
    code = MACHINE + 'import sys, runpy\npretend(sys.argv[1], sys.argv[2])\n' \
        "sys.argv = ['siotls', *sys.argv[3:]]\nrunpy.run_module('siotls', run_name='__main__', alter_sys=True)\n"
    env = dict(os.environ, PYTHONPATH=os.environ.get('SIOTLS_SRC', '/repo/src'))
    env.pop('SIOTLS_VERIF_STAGE', None)
    args = ['client', '--host', host, '--port', str(srv.port)] + ['--insecure'] * (how == 'insecure') + rng.choice(([], [], ['-v']))
    try:
        r = subprocess.run([sys.executable, '-B', '-c', code, root, system, *args], stdin=subprocess.DEVNULL, capture_output=True,
                           env=env, cwd=root, check=False, timeout=4 * SERVE)
        judge(ctx, how, srv, r.stdout.decode(errors='replace'), r.returncode != 0, why, r.stderr[-400:])
    finally:
        answers.close()
        srv.sock.close()
    ctx.count('commands')
    ctx.seen('command', how, host == 'localhost', r.returncode)
