""" Planted bugs, fifth batch. """
BUGS = []


def bug(id, property, needs, breaks, *edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks,
                 'edits': edits, 'demo': demo})


bug('receive-extend', 'C26', 'something else than bytes is given as received data: a list or a range of small integers',
    'it is taken as data, and the connection fails later on',
    ('connection.py', "        self._input_data += data\n", "        self._input_data.extend(data)\n"),
    demo='''
import kit
c, s = kit.connected()
for wrong in ([23, 3, 3], range(4), {1: 2}):
    try:
        s.receive_data(wrong)
    except TypeError:
        pass
    else:
        kit.fail(f'{wrong!r} is received')
c.send_data(b'hello')
s.receive_data(bytes(c.data_to_send()))
kit.need(bytes(s.data_to_read()) == b'hello', 'what follows a misuse is lost')
''')

bug('empty-is-eof', 'C26', 'the application gives what a non-blocking transport has, which is nothing for now',
    'the peer is said to have closed, what it sends next is refused',
    ('connection.py', '''            e = f"empty data: {data}"
            raise ValueError(e)
''', '''            self.close_receiving_end()  # the transport is at its end
            return
'''),
    demo='''
import kit
c, s = kit.connected()
try:
    s.receive_data(b'')
except ValueError:
    pass
c.send_data(b'hello')
try:
    s.receive_data(bytes(c.data_to_send()))
except Exception as exc:
    kit.fail(f'the connection is over after nothing was received: {exc!r}')
kit.need(bytes(s.data_to_read()) == b'hello', 'the data is lost')
''')

bug('nothing-sent-early', 'C26', 'an application which sends an empty chunk before the handshake is over',
    'a record of application data is emitted in the middle of the handshake, which the server refuses',
    ('connection.py', '''        if (content.content_type == ContentType.APPLICATION_DATA
            and not self._state.can_send_application_data):
''', '''        if (content.content_type == ContentType.APPLICATION_DATA
            and not (self._state.can_send_application_data or not content.content_data)):
'''),
    demo='''
import kit
c, s = kit.client(), kit.server()
kit.start(c, s)
hello = bytes(c.data_to_send())
try:
    c.send_data(b'')
except Exception:
    pass
else:
    kit.fail('a client may send before the handshake is over')
kit.need(not c.data_to_send(), 'a refused call makes the client send')
kit.give(s, hello)
kit.pump(c, s)
kit.need(c.is_connected() and s.is_connected(), 'the handshake fails')
''')


bug('internal-error-survived', 'C27', 'an unexpected error (memory, a handler of the logs) while a message of a connection is processed',
    'the message is lost, the connection goes on as if it had not been sent',
    ('connection.py', "                self._fail(alerts.InternalError())\n", '                logger.exception("internal error")\n'),
    demo='''
import kit, logging
c, s = kit.connected()

class Full(logging.Handler):
    raised = 0
    def emit(self, record):
        if 'received' in record.getMessage() and not self.raised:
            self.raised += 1
            raise MemoryError

logger = logging.getLogger('siotls')
logger.setLevel(logging.DEBUG)
logger.propagate = False
handler = Full()
logger.addHandler(handler)
c.send_data(b'first')
try:
    s.receive_data(bytes(c.data_to_send()))
except MemoryError:
    pass
logger.removeHandler(handler)
c.send_data(b'second')
try:
    s.receive_data(bytes(c.data_to_send()))
except Exception:
    pass
got = bytes(s.data_to_read())
kit.need(b'firstsecond'.startswith(got), f'what was sent first is lost without any failure: {got}')
''')

FAULTS = '''
import kit, sys, os, siotls
HERE = os.path.dirname(siotls.__file__)

class Points:
    """ An error when the n-th line of the library is about to run. """
    def __init__(self, n):
        self.n = n
        self.raised = False

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(HERE):
            return None
        if event == 'line':
            self.n -= 1
            if self.n == 0:
                self.raised = True
                raise MemoryError
        return self.trace

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
'''

bug('sent-by-pieces', 'C27', 'an error in the middle of sending data which takes several records, and an application which sends it again',
    'the peer gets the first records twice',
    ('connection.py', '''        self._output_data += b''.join(
            b''.join([
                record_type.to_bytes(1, 'big'),
                TLSVersion.TLS_1_2.to_bytes(2, 'big'),  # legacy version
                len(fragment).to_bytes(2, 'big'),
                fragment,
            ])
            for fragment in fragments
        )
''', '''        for fragment in fragments:
            self._output_data += b''.join([
                record_type.to_bytes(1, 'big'),
                TLSVersion.TLS_1_2.to_bytes(2, 'big'),  # legacy version
                len(fragment).to_bytes(2, 'big'),
                fragment,
            ])
'''),
    demo=FAULTS + '''
data = os.urandom(40000)
for n in range(1, 2000):
    c, s = kit.connected()
    with Points(n) as points:
        try:
            c.send_data(data)
        except MemoryError:
            pass
    if not points.raised:
        break
    c.send_data(data)
    try:
        s.receive_data(bytes(c.data_to_send()))
    except Exception:
        pass
    got = bytes(s.data_to_read())
    kit.need((data + data).startswith(got), f'data is received twice when the line {n} fails')
''')


bug('ccs-cut', 'C28', "the transport cuts a change_cipher_spec record right before its last byte",
    'that byte is taken as the start of a record, the connection fails',
    ('connection.py', r"data[3:6] == b'\x00\x01\x01'", r"data[3:6] in (b'\x00\x01\x01', b'\x00\x01')"),
    demo=r'''
import kit
ccs = b'\x14\x03\x03\x00\x01\x01'
for n in range(1, 6):
    c, s = kit.client(), kit.server()
    kit.start(c, s)
    s.receive_data(bytes(c.data_to_send()))
    flight = bytes(s.data_to_send())
    hello = kit.split_records(flight)[0]
    rest = flight[len(hello):].removeprefix(ccs)
    try:
        c.receive_data(hello + ccs[:n])
        c.receive_data(ccs[n:] + rest)
    except Exception as exc:
        kit.fail(f'the handshake fails when a record is cut after {n} bytes: {exc!r}')
    kit.need(c.is_connected(), f'no connection when a record is cut after {n} bytes')
''')

bug('big-read-refused', 'C28', 'an application which gives what it received in pieces of more than 128 KiB, the peer having sent much at once',
    'the connection refuses what it accepts in smaller pieces',
    ('connection.py', '''        if not data:
            e = f"empty data: {data}"
            raise ValueError(e)
        if not self._state.can_receive:
''', '''        if not data:
            e = f"empty data: {data}"
            raise ValueError(e)
        if len(self._input_data) + len(data) > 8 * self.max_fragment_length:
            e = "too much data"  # don't let the peer fill the memory
            raise ValueError(e)
        if self._state.can_receive is False:
'''),
    demo='''
import kit
data = bytes(300000)
for size in (1, 10, 1000):
    c, s = kit.connected()
    c.send_data(data)
    wire = bytes(c.data_to_send())
    n = len(wire) // size + 1
    try:
        for i in range(0, len(wire), n):
            s.receive_data(wire[i:i + n])
    except Exception as exc:
        kit.fail(f'{len(wire)} bytes are refused when they come in pieces of {n}: {exc!r}')
    kit.need(bytes(s.data_to_read()) == data, 'the data is altered')
''')

bug('aia-without-ocsp', 'C07', 'a client with a status service, and a certificate which tells where its issuer is but no responder',
    'StopIteration comes out of receive_data instead of a TLS error, and a legitimate server is refused',
    ('crypto/ocsp.py', '''        ),
        None
    )
''', '''        )
    )
'''),
    demo='''
import kit
from kit import pki


class Service:
    def request(self, url, req):
        raise TimeoutError(url)

    def cache(self, until, req, res):
        pass

    def uncache(self, req):
        pass


leaf = pki.make('leaf', pki.key('p256', 'leaf0'), pki.root(), sans=(kit.HOST,), eku=pki.SERVER_AUTH, issuer_url='first')
conn = kit.client(ocsp_service=Service())
errors = []
kit.ref_to_client(conn, kit.ref_server(leaf), errors)
kit.need(not errors, repr(errors))
kit.need(conn.is_connected(), 'a legitimate server is refused')
''')

bug('nameless-unverified', 'C05', 'a client which was told trusted authorities but no host name',
    'whatever certificate the server presents, it is accepted',
    ('states/client/wait_certificate.py', '''        self.nconfig.peer_certificate = content.certificate_list[0].certificate
        if self.config.require_peer_authentication:
''', '''        self.nconfig.peer_certificate = content.certificate_list[0].certificate
        if self.config.require_peer_authentication and self.server_hostname:
'''),
    demo='''
import kit
from kit import pki

rogue = pki.make('rogue', pki.key('p256', 'rogue'), None, ca=True)
leaf = pki.make('leaf', pki.key('p256', 'leaf0'), rogue, sans=(kit.HOST,), eku=pki.SERVER_AUTH)
for hostname in (kit.HOST, None):
    conn = kit.client(hostname)
    errors = []
    kit.ref_to_client(conn, kit.ref_server(leaf), errors)
    kit.need(not conn.is_connected(), f'connected to an impostor, host name {hostname!r}')
''')
