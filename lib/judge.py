""" Oracles about a single siotls endpoint, shared by the checks. """
from siotls import TLSError

from .link import alert_name
from .monitor import Tap


def all_secrets(keylog):
    """ Of the only connection which logs in this case. """
    out = {}
    for line in keylog.lines:
        parts = line.split(' ')
        if len(parts) == 3:
            out[parts[0]] = bytes.fromhex(parts[2])
    return out


def own_tap(sio, keylog, asked=None, peer=None):
    """ What this endpoint emitted, decrypted with the secrets it logged. """
    sio.out()
    n = sio.conn.nconfig
    suite = mfl = None
    if n is not None and n.cipher_suite is not None:
        suite = int(n.cipher_suite)
    if n is not None and n.max_fragment_length is not None:
        mfl = int(n.max_fragment_length)
    asked = asked or int(sio.conn.config.max_fragment_length or 16384)
    secrets = all_secrets(keylog)
    if peer is not None and peer.sched is not None:
        # the application secrets are only logged once the handshake is over
        for label, attr in (('SERVER_TRAFFIC_SECRET_0', 's_ap'), ('CLIENT_TRAFFIC_SECRET_0', 'c_ap')):
            secret = getattr(peer.sched, attr, None)
            if secret and label not in secrets:
                secrets[label] = secret
    kw = dict(secrets=secrets, own=(sio.side,), mfl=mfl or 16384,
              asked=min(asked, mfl) if mfl else asked, suite=suite)
    if sio.side == 'client':
        tap = Tap(sio.tx, b'', **kw)
        return tap, tap.client
    tap = Tap(b'', sio.tx, **kw)
    return tap, tap.server


def outcome(ctx, sio, side, why, can_send=True, alerted=False):
    """
    Whatever came in: only TLS errors come out, an error is fatal, and is
    told to the peer once. alerted: the peer sent alerts, which are not
    answered.
    """
    for exc in sio.errors:
        ctx.check(isinstance(exc, TLSError), f'{type(exc).__name__} comes out of receive_data',
                  lambda: f'{why}: {exc!r} cause={exc.__cause__!r} {trace(exc)}')
    if sio.error is None:
        fatal = [a for a in side.alerts if a[0] == 2]
        ctx.check(not fatal, 'a fatal alert is sent although nothing was raised', f'{why}: {fatal}')
        return
    ctx.check(len(sio.errors) == 1, 'receiving raises more than once', f'{why}: {sio.errors}')
    ctx.check(not sio.connected, 'still connected after an error', f'{why}: {sio.error!r}')
    ctx.check(sio.post_handshake, 'not failed after an error', f'{why}: {sio.error!r}')
    fatal = [a for a in side.alerts if a[0] == 2]
    if not can_send:
        ctx.check(not fatal, 'an alert is sent on a closed direction', f'{why}: {fatal}')
        return
    name = alert_name(sio.error)
    opaque = [r for r in side.records if r.get('opaque')]
    if alerted and not fatal:
        pass
    elif len(opaque) == 1 and not fatal:
        ctx.count('alerts under a secret nobody knows')
    elif isinstance(sio.error, TLSError):
        ctx.check([a[1] for a in fatal] == [name], 'the raised error is not the alert on the wire',
                  f'{why}: raised {sio.error!r}, sent {fatal}')
    ctx.check(not side.records or not fatal or side.records[-1].get('inner') == 21,
              'something follows the fatal alert', f'{why}: {side.records[-1:]}')


def trace(exc):
    import traceback
    return ''.join(traceback.format_tb(exc.__traceback__)[-3:])
