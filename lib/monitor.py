"""
Passive wire monitor: takes the bytes both endpoints emitted and the traffic
secrets of the connection (from the key log, or from an independent peer) and
reconstructs, record by record, what was sent under which key.
"""
import hmac
import logging
import struct

from . import ref13
from .ref13 import ALERT, APPDATA, CCS, HANDSHAKE, HEARTBEAT, Rec, RefError, SUITES


class KeyLog(logging.Handler):
    """ Collects what goes through the library's key logger. """
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def __enter__(self):
        logging.getLogger('siotls.keylog').addHandler(self)
        return self

    def __exit__(self, *exc):
        logging.getLogger('siotls.keylog').removeHandler(self)

    def secrets(self, client_random):
        """ {label: secret} of one connection; the last one wins. """
        out = {}
        for line in self.lines:
            parts = line.split(' ')
            if len(parts) == 3 and parts[1] == client_random.hex():
                out[parts[0]] = bytes.fromhex(parts[2])
        return out


def records(stream):
    """ [(type, version, body)] and the unparsed rest. """
    out, p = [], 0
    stream = bytes(stream)
    while p + 5 <= len(stream):
        t, v, n = struct.unpack('!BHH', stream[p:p + 5])
        if p + 5 + n > len(stream):
            break
        out.append((t, v, stream[p + 5:p + 5 + n]))
        p += 5 + n
    return out, stream[p:]


class Side:
    """ One direction of a connection. """
    def __init__(self, name):
        self.name = name
        self.records = []       # dicts
        self.messages = []      # (type, bytes, epoch)
        self.app = bytearray()
        self.alerts = []        # (level, desc, epoch)
        self.heartbeats = []
        self.problems = []      # (mechanism, detail)
        self.nonces = []        # (key, nonce)


class Tap:
    """
    own: the sides emitted by the code under test ('client', 'server'),
    the only ones whose problems are reported.
    secrets: {'c_hs','s_hs','c_ap','s_ap'} -> bytes, as far as known.
    mfl: fragment limit both agreed on (16384 when none), and the limit
    the client asked for, which it may respect before it is agreed.
    """
    def __init__(self, c2s, s2c, secrets, own=('client', 'server'), mfl=16384, asked=None,
                 suite=None):
        self.own, self.mfl, self.asked = own, mfl, asked or mfl
        self.secrets = {
            'c_hs': secrets.get('c_hs') or secrets.get('CLIENT_HANDSHAKE_TRAFFIC_SECRET'),
            's_hs': secrets.get('s_hs') or secrets.get('SERVER_HANDSHAKE_TRAFFIC_SECRET'),
            'c_ap': secrets.get('c_ap') or secrets.get('CLIENT_TRAFFIC_SECRET_0'),
            's_ap': secrets.get('s_ap') or secrets.get('SERVER_TRAFFIC_SECRET_0'),
        }
        self.client, self.server = Side('client'), Side('server')
        self.suite = suite and SUITES[suite]
        self._parse_server(s2c)
        self._parse_client(c2s)

    @property
    def problems(self):
        return [(s.name, m, d) for s in (self.client, self.server) if s.name in self.own
                for m, d in s.problems]

    # the server: clear up to the ServerHello, hs up to its Finished, then app
    def _parse_server(self, stream):
        self._parse(self.server, stream, 's')

    def _parse_client(self, stream):
        self._parse(self.client, stream, 'c')

    def _parse(self, side, stream, d):
        recs, rest = records(stream)
        bad = lambda m, det='': side.problems.append((m, det))
        if rest:
            bad('incomplete record emitted', f'{len(rest)} trailing bytes')
        rec, epoch, hsbuf, closed = None, 'clear', b'', False
        for i, (t, v, body) in enumerate(recs):
            info = {'i': i, 'outer': t, 'len': len(body), 'epoch': epoch}
            side.records.append(info)
            if v != 0x0303 and not (v == 0x0301 and i == 0 and d == 'c'):
                bad('record version', f'{v:#x} in record {i}')
            if closed:
                bad('record after close_notify or fatal alert', f'record {i} type {t}')
            if t == CCS:
                info['inner'] = CCS
                if body != b'\x01':
                    bad('malformed change_cipher_spec', body.hex())
                if epoch == 'app' or (d == 'c' and not self._seen_ch(side)):
                    bad('change_cipher_spec outside of the handshake', f'record {i}')
                continue
            # the client's first protected record switches it to its handshake keys
            if rec is None and t == APPDATA:
                if self.suite is None or not self.secrets[d + '_hs']:
                    if self.secrets.get(d + '_hs') is None:
                        info['inner'] = None
                        info['opaque'] = True
                        continue
                rec, epoch = Rec(self.suite, self.secrets[d + '_hs']), 'hs'
                info['epoch'] = epoch
            if rec is None:
                if t not in (HANDSHAKE, ALERT):
                    bad('clear record of a type that must be protected', f'type {t}')
                    continue
                if len(body) > 16384:
                    bad('clear record too long', len(body))
                if not body:
                    bad('empty clear record', f'type {t}')
                inner, data = t, body
                limit = max(self.mfl, self.asked) if d == 's' else self.asked
                if d == 'c' and len(body) > self.asked:
                    bad('fragment above the limit the client asked for', len(body))
            else:
                if t != APPDATA:
                    bad('clear record while keys are in place', f'record {i} type {t}')
                    continue
                info['seq'] = rec.seq
                try:
                    plain = rec.open(struct.pack('!BHH', t, v, len(body)), body)
                except RefError:
                    if epoch == 'hs' and self.secrets[d + '_ap']:
                        # a client may only be known to have switched by its Finished
                        bad('record does not decrypt in sequence', f'record {i} ({epoch})')
                    else:
                        bad('record does not decrypt in sequence', f'record {i} ({epoch})')
                    break
                side.nonces.append((rec.key, rec.iv, info['seq']))
                try:
                    inner, data, pad = ref13.split_inner(plain)
                except RefError:
                    bad('protected record without content type', f'record {i}')
                    continue
                info['pad'] = pad
                chunk = min(4096, self.mfl)
                chunks = {chunk, min(4096, self.asked)} if epoch == 'hs' else {chunk}
                if not any(len(body) % c == 0 for c in chunks):
                    bad('protected record not padded to its granularity',
                        f'{len(body)} bytes, granularity {chunks}, record {i}')
                if len(body) > self.mfl + 256:
                    bad('ciphertext above the limit', len(body))
                if len(plain) > max(self.mfl, self.asked if epoch == 'hs' else 0) + 1:
                    bad('inner plaintext above the limit', len(plain))
            info['inner'], info['plain'] = inner, len(data)
            if len(data) > max(self.mfl, self.asked if epoch != 'app' else 0):
                bad('fragment above the agreed limit', f'{len(data)} > {self.mfl} record {i}')
            if inner != HANDSHAKE and hsbuf:
                bad('record interleaved in a handshake message', f'type {inner}')
            if inner == HANDSHAKE:
                if not data:
                    bad('empty handshake record')
                hsbuf += data
                while len(hsbuf) >= 4 and len(hsbuf) >= 4 + int.from_bytes(hsbuf[1:4], 'big'):
                    n = 4 + int.from_bytes(hsbuf[1:4], 'big')
                    msg, hsbuf = hsbuf[:n], hsbuf[n:]
                    side.messages.append((msg[0], msg, epoch))
                    change = None
                    if msg[0] == ref13.SH and d == 's':
                        try:
                            sh = ref13.parse_server_hello(msg[4:])
                            self.suite = SUITES.get(sh['suite'])
                            if not sh['hrr']:
                                change = ('s_hs', 'hs')
                        except RefError as exc:
                            bad('malformed ServerHello', exc)
                    if msg[0] == ref13.FIN:
                        change = (d + '_ap', 'app')
                    if change:
                        if hsbuf:
                            bad('handshake record spans a key change')
                        sec = self.secrets[change[0]]
                        if sec is None or self.suite is None:
                            rec, epoch = None, change[1]
                            # nothing more can be decrypted
                            return self._opaque(side, recs[i + 1:])
                        rec, epoch = Rec(self.suite, sec), change[1]
            elif inner == ALERT:
                if len(data) != 2:
                    bad('malformed alert', data.hex())
                else:
                    side.alerts.append((data[0], ref13.ALERTS.get(data[1], data[1]), info['epoch']))
                    if data[1] not in ref13.ALERTS:
                        bad('unknown alert', data.hex())
                    if data[0] != (1 if data[1] in (0, 90) else 2):
                        bad('alert level', data.hex())
                    if data[1] != 90:
                        closed = True
            elif inner == APPDATA:
                if epoch != 'app':
                    bad('application data before the application keys', f'record {i}')
                side.app += data
            elif inner == HEARTBEAT:
                side.heartbeats.append(data)
            else:
                bad('unknown inner content type', inner)
        if hsbuf:
            bad('unfinished handshake message', f'{len(hsbuf)} bytes')

    def _opaque(self, side, recs):
        for t, v, body in recs:
            side.records.append({'outer': t, 'len': len(body), 'epoch': '?', 'opaque': True})

    @staticmethod
    def _seen_ch(side):
        return any(r.get('inner') == HANDSHAKE for r in side.records)

    # ---- what the handshake says
    def transcript(self):
        """ Messages in protocol order up to the server Finished, then the client's. """
        c, s = list(self.client.messages), list(self.server.messages)
        out = []
        if not c or not s:
            return None
        out.append(c.pop(0)[1])
        first = s[0][1]
        if first[0] == ref13.SH and first[6:38] == ref13.HRR_RANDOM:
            import hashlib
            ch1 = out.pop()
            out += [ref13.hs(ref13.MSGHASH, hashlib.new(self.suite.hash, ch1).digest()), first]
            s.pop(0)
            if not c:
                return None
            out.append(c.pop(0)[1])
        self.n_hello = len(out)
        for t, msg, epoch in s:
            if epoch == 'app':
                break
            out.append(msg)
        self.server_end = len(out)
        for t, msg, epoch in c:
            if epoch == 'app':
                break
            out.append(msg)
        return out

    def check_finished(self):
        """ Recomputes both Finished with the logged secrets. """
        import hashlib
        msgs = self.transcript()
        if not msgs or self.suite is None:
            return ['no transcript']
        problems = []
        sched = ref13.Schedule(self.suite)
        h = lambda ms: hashlib.new(self.suite.hash, b''.join(ms)).digest()
        for what, idx, sec in (('server', self.server_end - 1, 's_hs'), ('client', len(msgs) - 1, 'c_hs')):
            if msgs[idx][0] != ref13.FIN:
                problems.append(f'no {what} Finished')
                continue
            want = sched.finished(self.secrets[sec], h(msgs[:idx]))
            if not hmac.compare_digest(want, msgs[idx][4:]):
                problems.append(f'{what} Finished does not match')
        return problems


def tap_link(link, secrets, **kw):
    return Tap(link.c2s, link.s2c, secrets, **kw)
