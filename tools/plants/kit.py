""" What the demonstrations share: configurations, and bytes carried around. """
import sys

import pki
import ref13
from siotls import TLSConfiguration, TLSConnection
from siotls.iana import CipherSuites, NamedGroup

HOST = pki.HOST


def fail(why):
    print('BROKEN:', why)
    sys.exit(1)


def need(ok, why):
    if not ok:
        fail(why)


def server_config(leaf=None, **kw):
    leaf = leaf or pki.leaf()
    kw.setdefault('certificate_chain', [n.cert for n in pki.chain(leaf)])
    return TLSConfiguration('server', private_key=leaf.key, **kw)


def client_config(**kw):
    kw.setdefault('trust_store', pki.store())
    return TLSConfiguration('client', **kw)


def server(*a, ocsp_service=None, **kw):
    return TLSConnection(server_config(*a, **kw), ocsp_service=ocsp_service)


def client(hostname=HOST, ocsp_service=None, **kw):
    return TLSConnection(client_config(**kw), server_hostname=hostname, ocsp_service=ocsp_service)


def give(conn, data, errors=None):
    """ Deliver, keep what it raises. """
    if not data:
        return
    try:
        conn.receive_data(bytes(data))
    except Exception as exc:
        if errors is None:
            raise
        errors.append(exc)


def pump(c, s, errors=None, on_c2s=None, on_s2c=None):
    """ Carry the bytes of two siotls connections until both are quiet. """
    while True:
        a, b = bytes(c.data_to_send()), bytes(s.data_to_send())
        if not a and not b:
            return
        give(s, on_c2s(a) if on_c2s and a else a, errors)
        give(c, on_s2c(b) if on_s2c and b else b, errors)


def start(c, s):
    c.initiate_connection()
    s.initiate_connection()


def connected(ckw=None, skw=None):
    c, s = client(**(ckw or {})), server(**(skw or {}))
    start(c, s)
    pump(c, s)
    need(c.is_connected() and s.is_connected(), 'no connection')
    return c, s


def ref_server(leaf=None, **kw):
    leaf = leaf or pki.leaf()
    return ref13.RefServer([n.der for n in pki.chain(leaf)], leaf.key, **kw)


def ref_pump(conn, peer, errors=None):
    """ Carry the bytes of a siotls connection and of a reference peer. """
    while True:
        a, b = bytes(conn.data_to_send()), peer.out()
        if not a and not b:
            return
        if a:
            peer.feed(a)
        give(conn, b, errors)


def ref_to_server(conn, **kw):
    """ A reference client, connected to that siotls server. """
    peer = ref13.RefClient(**kw)
    conn.initiate_connection()
    peer.start()
    return peer


def ref_to_client(conn, peer, errors=None):
    conn.initiate_connection()
    ref_pump(conn, peer, errors)
    return peer


def split_records(data):
    out = []
    while data:
        n = 5 + int.from_bytes(data[3:5], 'big')
        out.append(bytes(data[:n]))
        data = data[n:]
    return out
