"""Writes /verif/properties.jsonl (kept as Python so that it stays readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['src/siotls/' + f for f in files],
            mechanism=[dict(name=n, where='src/siotls/' + w) for n, w in mech],
            **({'observe_at': observe} if observe else {}))))

p('C01', 'Compatible peers always complete a TLS 1.3 handshake',
  "Whenever a client and a server share a cipher suite, a group, a signature scheme fitting the server's key, a certificate type and (if any is required) an application protocol, and the server's identity is acceptable to the client, the handshake completes on both sides and both can exchange application data. This holds against another siotls endpoint as well as against any independent conforming TLS 1.3 implementation, in both roles, with and without a HelloRetryRequest, and however the bytes are segmented, coalesced or fragmented.",
  ['configurations', 'inputs', 'schedules'],
  'All combinations of 5 suites, 10 groups, all signature schemes and key kinds, authentication modes (X.509, raw public key, none), optional extensions, record layouts and network segmentations.',
  'The tests complete a few fixed handshakes with the default suites and x25519/P-256 over local sockets with one read pattern; most suites, groups, key kinds, record layouts and the retry flow between independent stacks are never driven.',
  ['connection.py', 'states/client/start.py', 'states/client/wait_server_hello.py', 'states/server/wait_client_hello.py', 'states/server/wait_finished.py', 'states/client/wait_finished.py', 'crypto/key_exchanges.py', 'crypto/signatures.py'],
  [('handshake state machine', 'states/'), ('record layer', 'connection.py'), ('transcript', 'transcript.py')],
  ['TLSConnection.is_connected', 'bytes on the wire'])

p('C02', 'Negotiated parameters are mutually offered, preferred and agreed',
  "The server selects the first entry of its own preference lists that the client offered, for cipher suite, group, signature scheme, application protocol and certificate type; both endpoints report the same negotiated values and the client's first flight advertises exactly its configuration. If any mandatory parameter has no common value the handshake fails on both sides with a fatal alert, and a client never accepts a selection it did not offer.",
  ['configurations', 'inputs'],
  'All preference lists on both sides (subsets, orders, GREASE and unknown code points, absent extensions), and every server selection including unoffered ones.',
  'Unit tests call individual negotiation helpers with one or two hand-made lists; agreement between both ends, orders, unknown values and unoffered selections need a sweep over configurations.',
  ['states/server/wait_client_hello.py', 'states/client/wait_encrypted_extensions.py', 'states/client/wait_server_hello.py', 'states/client/start.py', 'configuration.py'],
  [('server selection', 'states/server/wait_client_hello.py'), ('client validation', 'states/client/wait_encrypted_extensions.py')],
  ['TLSConnection.nconfig', 'hello messages on the wire'])

p('C03', 'Application data arrives complete, in order and without delay',
  "The bytes an endpoint reads are exactly the bytes its peer wrote, in order, with nothing lost, duplicated, invented or held back: once all the bytes of a complete record have been received the data it carries is readable. This holds in both directions for any write sizes (empty and multi-megabyte included), any segmentation of the byte stream, any legal record layout and padding produced by the peer, and any negotiated maximum fragment length.",
  ['inputs', 'schedules', 'configurations'],
  'All write-size sequences, segmentations (byte by byte to everything at once, handshake bytes coalesced with data), record layouts, fragment limits and suites.',
  'Tests exchange a few short strings; boundary sizes around record limits and padding chunks, tiny reads, coalesced records and foreign record layouts are not reached.',
  ['connection.py', 'states/connected.py', 'contents/application_data.py'],
  [('fragmentation and padding', 'connection.py'), ('record reassembly', 'connection.py')],
  ['TLSConnection.send_data', 'TLSConnection.data_to_read'])

p('C04', 'Tampered, replayed, reordered or dropped records are never accepted',
  "After the first key exchange message, any modification, insertion, replay, reordering, deletion or redirection of protected bytes makes the receiver fail with a fatal error; everything it delivered before that is a prefix of what the authentic peer sent. In particular a stream cut short is never reported as a clean close by the peer.",
  ['fault_sequences', 'inputs', 'schedules'],
  'All positions and kinds of active attack (bit flips of any byte of header, ciphertext or tag, swaps, drops, duplicates, cross-direction and cross-connection splices, truncations) on handshake and application records of all suites.',
  'No test modifies protected traffic; a flaw shows up only for a specific byte, sequence number or suite.',
  ['connection.py', 'crypto/ciphers.py', 'transcript.py', 'states/client/wait_finished.py', 'states/server/wait_finished.py'],
  [('AEAD record protection with implicit sequence numbers', 'crypto/ciphers.py'), ('Finished over the transcript', 'crypto/ciphers.py')],
  ['TLSConnection.data_to_read', 'alerts on the wire'])

p('C05', 'A client only connects to the authenticated server it asked for',
  "A client configured with trust anchors or trusted public keys reaches the connected state only if the server presented a currently valid chain to a trusted anchor for the requested host name or address, if any (or a trusted raw public key), proved possession of the matching private key over this very handshake with an offered scheme fitting that key, and sent a correct Finished. Any deviation ends in a fatal alert before any application data is accepted from or sent to that server, and a legitimate server is accepted.",
  ['inputs', 'configurations'],
  'All certificates, chains, host names, keys, signature schemes, signatures, Finished values and omissions a hostile server can present.',
  'Tests check a couple of self-issued certificates; the space of wrong names, dates, issuers, usages, keys, schemes, replays and skipped messages needs a hostile server with full control over its flight.',
  ['states/client/wait_certificate.py', 'states/client/wait_certificate_verify.py', 'states/client/wait_finished.py', 'states/client/wait_cert_cr.py', 'crypto/signatures.py', 'configuration.py'],
  [('chain and name verification', 'states/client/wait_certificate.py'), ('proof of possession', 'states/client/wait_certificate_verify.py'), ('Finished verification', 'states/client/wait_finished.py')],
  ['TLSConnection.is_connected'])

p('C06', 'Revoked certificates are rejected and only sound statuses are trusted',
  "A client never completes a handshake with a chain that contains a certificate listed in its revocation list, nor with one whose online status (stapled, or fetched through the configured service) is not a successful, good, current, correctly signed answer for that very certificate and issuer. A sound good status is accepted; a server staples only statuses it found sound, and only when the client asked for one.",
  ['inputs', 'configurations', 'fault_sequences'],
  'All revocation lists, positions of the revoked certificate in the chain, and all status responses (status, serial, issuer, dates, signer, signature, malformed), stapled or fetched.',
  'Tests use one or two fixed responses; each single wrong field of a response, each chain position and service failure is a separate case.',
  ['crypto/ocsp.py', 'states/client/wait_certificate.py', 'states/server/wait_client_hello.py'],
  [('revocation list lookup', 'states/client/wait_certificate.py'), ('status validation', 'crypto/ocsp.py'), ('stapling', 'states/server/wait_client_hello.py')])

p('C07', 'Hostile input never crashes, hangs or blows up an endpoint',
  "Whatever bytes a peer sends, at any point of a connection and in any segmentation, receiving them either succeeds or raises the library's own TLS error; a raised error is fatal, puts a matching alert on the wire when the endpoint can still send, and leaves the connection failed. Processing time and buffered memory stay bounded by the amount of bytes received; a lasting connection keeps nothing of the traffic it has already processed and delivered, a connection which is over keeps nothing of what still arrives and sends nothing because of it, and nothing remains of past connections.",
  ['inputs', 'schedules'],
  'All byte strings at every handshake stage and in the connected state, in clear and (from a peer holding the keys) under protection, including structure-aware mutations of every field of every message.',
  'Tests send well-formed messages; the malformed space is unbounded.',
  ['connection.py', 'serial.py', 'contents/', 'states/'],
  [('bounded parsing', 'serial.py'), ('error to alert conversion', 'connection.py')],
  ['exceptions out of TLSConnection.receive_data', 'alerts on the wire'])

p('C08', 'Messages are only accepted in protocol order',
  "An endpoint processes a handshake, alert or application message only at a point where the TLS 1.3 protocol allows it: omitting, repeating, swapping or injecting any handshake message, sending messages of the wrong role, interleaving records inside a fragmented message, or sending application data before the peer's handshake is verified makes it fail with a fatal alert. No application data is ever delivered from, and no application data can be sent to, a peer before the protocol permits it.",
  ['histories', 'inputs'],
  'All sequences of handshake messages and content types of both roles, at every state, with correct keys for each epoch.',
  'Tests drive the expected order only; orders must be explored with a peer that keeps the cryptography right while misordering messages.',
  ['states/', 'transcript.py', 'connection.py'],
  [('state classes', 'states/'), ('transcript order net', 'transcript.py')])

p('C09', 'Everything sent is well-formed, protected and within limits',
  "All bytes an endpoint emits form valid TLS 1.3 records and messages: record lengths respect the protocol and the negotiated fragment limit, handshake messages are complete, nothing but hellos, alerts and change_cipher_spec appears in clear, application data never appears in clear, and the size of every protected record is padded to a multiple of the smaller of 4096 bytes and the fragment limit. Every protected record decrypts under the key of its phase with consecutive sequence numbers starting at zero.",
  ['inputs', 'configurations', 'histories'],
  'All configurations, handshakes, write sizes, fragment limits, alerts, heartbeats and closures.',
  'Tests compare a few serialized objects; limits and padding only matter at sizes and limits that they do not sweep, under encryption.',
  ['connection.py', 'crypto/ciphers.py', 'contents/'],
  [('record emission', 'connection.py')], ['TLSConnection.data_to_send'])

p('C10', 'Keys follow the TLS 1.3 schedule and are only logged on request',
  "The traffic secrets, Finished values and exporter secret are those RFC 8446 derives from the shared key and the handshake transcript, for each suite, with and without a HelloRetryRequest. Secrets are written to the key log only by connections configured to do so, in the NSS format, each exactly once, identical on both sides, and no secret otherwise leaves the library through its logs or its wire output.",
  ['configurations', 'inputs'],
  'All suites, groups, retry flows, message layouts and logging configurations.',
  'Tests replay one RFC 8448 trace with one suite; other hashes, retry transcripts and log settings are not compared with an independent schedule.',
  ['crypto/ciphers.py', 'crypto/hkdf.py', 'transcript.py', 'states/'],
  [('key schedule', 'crypto/ciphers.py'), ('transcript hash and retry rewrite', 'transcript.py')], ["logger 'siotls.keylog'", 'protected records'])

p('C11', 'Closing is orderly in each direction',
  "Closing the sending side emits exactly one close_notify after all data written before it, makes any later send fail, and leaves receiving possible; receiving a close_notify or an end of stream ends receiving for good without losing data received before it, and leaves sending possible until closed. A close before the handshake completes never leaves the connection connected, and repeating a close has no further effect.",
  ['histories', 'schedules'],
  'All interleavings of writes, reads, half-closes, ends of stream and deliveries on both sides, before, during and after the handshake.',
  'Tests close once at the end; the interleavings of two half-closes with data in flight are not explored.',
  ['connection.py', 'states/closed.py', 'states/connected.py', 'states/__init__.py'],
  [('half-close bookkeeping', 'connection.py')])

p('C12', 'A failed connection stays failed and silent',
  "Once a connection failed, whether by its own detection of an error or by a fatal alert of its peer, it never reports itself connected again, delivers no further application data, sends nothing more than the single alert describing its own error, and refuses to send data. A peer's fatal alert, known or unknown and at any level, is terminal and never answered.",
  ['histories', 'inputs', 'fault_sequences'],
  'All failure causes at all stages, followed by all sequences of further operations and inputs, including valid continuation traffic.',
  'Tests stop at the first exception; what happens afterwards is not observed.',
  ['connection.py', 'states/failed.py', 'states/__init__.py', 'contents/alerts.py'],
  [('terminal state', 'states/failed.py'), ('alert handling', 'states/__init__.py')])

p('C13', 'Wire encoding and decoding are exact inverses and strict',
  "For every message, extension, alert and record content, decoding what the library encodes yields an equal value, encoding what it decoded from canonical bytes yields the same bytes, and the encoding is the one of the RFCs. Truncated, over-long, trailing or otherwise malformed encodings, and extensions in messages where they are not allowed, are refused with a TLS error.",
  ['inputs'],
  'All values of all message and extension types (empty and maximal lists, unknown code points), and all truncations, extensions and length corruptions of their encodings.',
  'Tests parse one sample per type, round trips and malformed neighbours are not swept, nor compared with an independent encoder.',
  ['serial.py', 'contents/', 'contents/handshakes/', 'contents/handshakes/extensions/'],
  [('bounded reader and writer', 'serial.py'), ('message classes', 'contents/')])

p('C14', 'Key exchanges and signatures match their standards and refuse bad input',
  "For each supported group both sides of an exchange, and any independent implementation of that group, obtain the same shared key with the standard encoding and length; degenerate, off-curve, out-of-range, wrongly sized or otherwise invalid public shares are refused by both roles. For each signature scheme a signature verifies only for the same message, key and scheme, as an independent implementation would, and HKDF outputs match RFC 5869.",
  ['inputs', 'configurations'],
  'All groups, schemes and keys; all shares including the known invalid classes of each group; all signatures with modified message, key, scheme or bytes.',
  'Tests do one exchange per group against itself; leading-zero secrets, invalid points and cross-implementation agreement need many keys and hostile shares.',
  ['crypto/key_exchanges.py', 'crypto/signatures.py', 'crypto/hkdf.py', 'crypto/ffdhe.py'],
  [('key exchanges', 'crypto/key_exchanges.py'), ('signature suites', 'crypto/signatures.py')])

p('C15', 'No nonce is ever reused and key usage limits are enforced',
  "Under one key an endpoint never protects two records with the same nonce, and never protects or accepts more records than the limit of its suite: at the limit it refuses to go on instead of wrapping around or reusing a nonce. Keys of distinct directions, phases and connections are distinct.",
  ['histories', 'configurations'],
  'All suites, all interleavings of sends in all phases, up to and beyond the usage limit.',
  'Limits are millions of records away and no test observes nonces.',
  ['crypto/ciphers.py', 'connection.py'],
  [('sequence numbers and usage limit', 'crypto/ciphers.py')])

p('C16', 'Connections are independent and draw fresh secrets',
  "Connections sharing one configuration, used sequentially, interleaved or from different threads, never affect each other: no shared object is modified by a connection and each behaves as if alone, whatever happens to the others. Randoms, key shares and traffic keys are fresh for each connection (and each hello where the protocol wants it).",
  ['schedules', 'histories', 'configurations'],
  'All interleavings of many connections (successful, retried, failed, hostile) over shared configuration objects and in threads.',
  'Tests create one connection at a time and drop it.',
  ['connection.py', 'configuration.py', 'states/', 'contents/'],
  [('per-connection state', 'connection.py'), ('frozen configuration', 'configuration.py')])

p('C17', 'The socket wrapper preserves the guarantees over real sockets',
  "A wrapped blocking socket performs the handshake, transfers all written data intact whatever partial sends and short reads the socket makes, returns the data received before an end of stream or a close, then returns empty reads, and sends any pending alert before an error reaches its caller. Leaving the context closes the TLS session with a close_notify.",
  ['schedules', 'fault_sequences', 'inputs'],
  'All partial sends, short reads, ends of stream, resets and transfer sizes at any point of the session.',
  'Tests use local sockets with small messages, which never produce short writes nor ends of stream in the middle of a record.',
  ['wrapper.py', 'connection.py'],
  [('blocking wrapper', 'wrapper.py')])

p('C18', 'Fetched statuses are cached soundly and within bounds',
  "The HTTP status service returns, for a request, either a response cached for that very request and still current or what the responder just answered; expired or discarded entries are never served, at most 64 entries are kept with those expiring first evicted, and caching never fails. Only http URLs are contacted, and oversized or mistyped answers are refused.",
  ['histories', 'inputs', 'fault_sequences'],
  'All sequences of request, cache, uncache and time passing, and all HTTP answers.',
  'Tests do single calls; eviction order, expiry and interleavings need long histories against a model.',
  ['ocsp_over_http.py'],
  [('bounded cache', 'ocsp_over_http.py')])

p('C19', 'Heartbeats are echoed exactly and never leak',
  "A heartbeat request received on an established connection that agreed to answer heartbeats yields exactly one response carrying the same payload, nothing else, plus fresh padding; in every other case (not agreed, too little padding, inconsistent length, handshake under way, unsolicited response) nothing beyond what was received is ever sent back. Heartbeats never disturb application data nor appear inside it.",
  ['inputs', 'histories', 'configurations'],
  'All payload and padding lengths, claimed lengths, negotiation outcomes, stages and interleavings with data and closures.',
  'Tests cover negotiation only; the echo with its length fields is the classic over-read and needs hostile lengths.',
  ['contents/heartbeat.py', 'states/__init__.py', 'states/server/wait_client_hello.py', 'states/client/wait_encrypted_extensions.py'],
  [('heartbeat answer', 'states/__init__.py')])

p('C20', 'A HelloRetryRequest is used once and changes nothing else',
  "A server asks for another key share only if the client supports the selected group and did not share a key for it, at most once per connection; the client then answers with a second hello equal to the first except for the requested key share and the echoed cookie. Both sides refuse a second retry, a retry for an unsupported or already shared group, a changed cipher suite or random and a second hello that no longer offers what was selected, and the retried handshake is authenticated as a whole.",
  ['inputs', 'configurations', 'histories'],
  'All groups, offers, cookies, selections and inconsistencies between the first and second flight, in both roles.',
  'Tests complete one retry; the inconsistencies require a peer that misbehaves between flights.',
  ['states/client/start.py', 'states/client/wait_server_hello.py', 'states/server/wait_client_hello.py', 'transcript.py'],
  [('retry handling', 'states/server/wait_client_hello.py'), ('retry validation', 'states/client/wait_server_hello.py')])

p('C21', 'Errors are reported with the alert the protocol prescribes',
  "When an endpoint detects an error its caller gets a TLS error and its peer one fatal alert (unless it has closed its sending end), both with the same description, which is the one RFC 8446 prescribes for that class of error: unexpected, malformed, oversized or undecryptable records, bad signatures and Finished values, missing extensions, unoffered or inconsistent selections, unsupported versions, no common parameters or protocols, and unacceptable certificates. Alerts sent once keys are in place are protected with the current key.",
  ['inputs', 'histories'],
  'All classes of errors at each stage where they can occur, in both roles and for all suites.',
  'Tests check the exception of a few helpers, not the alert that is put on the wire nor its protection.',
  ['connection.py', 'contents/alerts.py', 'states/'],
  [('fatal alert emission', 'connection.py')])

p('C22', 'The demo server answers every client correctly and keeps serving',
  "The bundled server answers a GET of the root with a 200 page and other requests with the matching error status, over TLS, with well-formed HTTP messages whose length header is the number of bytes of the body; the bundled client can talk to it. No client behaviour (garbage, failed handshakes, early disconnects, resets) stops it from serving the next client.",
  ['inputs', 'histories', 'fault_sequences'],
  'All requests and all client misbehaviours, in any order.',
  'Tests start it for one curl request.',
  ['examples/simple_server.py', 'examples/simple_client.py', '__main__.py', 'utils.py'],
  [('serve loop', 'examples/simple_server.py'), ('HTTP helpers', 'utils.py')])

p('C23', 'A server told to authenticate its clients lets no unauthenticated one in',
  "A server configured with a trust store or a list of trusted public keys requests a certificate of its clients, of a type both sides know, and refuses those with no such type in common. As long as its client did not prove to hold the key of a certificate or of a public key it trusts, it never reports itself connected, never delivers data of that client nor sends it application data, and never reports an identity for it. This holds whatever the client sends: nothing, an empty certificate, a Finished alone, certificates of others, of unknown issuers, expired or for another purpose, missing, wrong or replayed signatures, repeated, reordered or early messages.",
  ['inputs', 'histories', 'configurations'],
  'All clients, all their flights and what they go on sending, all server configurations which trust something.',
  'No test has a server which authenticates its clients; failing closed is a statement about all flights a client may send.',
  ['configuration.py', 'states/server/wait_client_hello.py', 'states/server/wait_flight2.py', 'states/server/wait_finished.py', 'wrapper.py'],
  [('authentication requirement', 'configuration.py'), ('state after the server flight', 'states/server/wait_client_hello.py')])

p('C24', 'Unusable settings are refused, insecure ones announced, others kept',
  "A configuration is accepted exactly when it can work: at least one cipher suite, group and signature algorithm; for a server, a private key, a certificate chain or a public key, and no fragment limit of its own; for a client, no server hostnames; a server connection takes no name of a server to reach. Other settings raise a ValueError. A client which won't verify its peer, or the peer's name, and a key log which is on without a handler or with one, are announced in the logs, and only then. Once accepted a configuration can neither be assigned to nor altered by the connections made with it, its defaults are not shared with others, and it says exactly what it was given.",
  ['configurations', 'histories'],
  'All combinations of settings given, omitted, empty or misplaced, on both sides, and all histories of the connections which use them.',
  'There are no tests of the validation; the combinations of settings and later connections are too many for examples.',
  ['configuration.py', 'connection.py', 'states/server/wait_client_hello.py'],
  [('validation', 'configuration.py'), ('connection settings', 'connection.py')])

p('C25', 'The bundled client trusts the authorities of the system, no other',
  "Unless it is told --insecure, the bundled client (the function and the command line) completes a handshake with, sends its request to and prints the answer of a server only if that server proves, for the host that was given, a currently valid chain to an authority of the system's bundle, with a good status when its certificate names a responder. That bundle is the one of the running distribution, found by its ID or else by the first of its ID_LIKE that is known; all of its certificates are trusted and nothing else is. A system which isn't known, or whose bundle is missing or unreadable, is an error, never another set of authorities. The command exits with a non-zero status whenever the server was not talked to.",
  ['inputs', 'configurations'],
  'All os-release files, contents of the bundles and servers presenting any chain, over real sockets, in-process and as a command.',
  'No test runs the command line or reads a bundle; the systems a test runs on are few.',
  ['trust_store.py', '__main__.py', 'examples/simple_client.py'],
  [('bundle lookup', 'trust_store.py'), ('verification on by default', '__main__.py')],
  ['get_system_store', 'exit status and output of the command', 'what a server receives'])

p('C26', 'Calls that cannot be honoured are refused and change nothing',
  "At any point of a connection's life, a call of the API that cannot be honoured (data that isn't bytes-like or is None, no received data at all, starting twice, rekeying which isn't supported, sending application data before the protocol permits it or once the sending end is closed or the connection failed) raises an exception, emits nothing, delivers nothing and leaves what the connection reports as it was; the connection then goes on as if the call had not been made. Every bytes-like object (bytes, bytearray, contiguous or strided memoryviews, arrays of any item) is sent as the bytes it holds, and every contiguous one is received likewise.",
  ['programs', 'histories'],
  'All interleavings of misuses with the deliveries, writes and closes of any connection, in any role; all layouts of buffers.',
  'The tests call the API as it should be, with bytes.',
  ['connection.py', 'states/__init__.py'],
  [('state checks', 'connection.py'), ('start once', 'states/__init__.py'), ('fragmentation of application data', 'connection.py')],
  ['exceptions', 'data_to_send', 'data_to_read', 'is_connected', 'nconfig', 'what the peer receives'])

p('C27', 'An error raised anywhere inside never makes a connection unsafe',
  "Whatever error is raised at whatever point inside of the library, once (memory exhausted, a signal or log handler that raises, an interrupt of the keyboard, a cancellation), the guarantees still hold when the application catches it and goes on with the connection: an impostor is never connected to, sent data to nor listened to; what is received is a prefix of what was sent, with nothing missing or doubled; a call to send_data that raised was sent whole or not at all; no two records that are emitted share a nonce. An error raised while a received message is processed makes the connection fail.",
  ['fault_sequences', 'crash_points'],
  'An error of any kind at any line the library runs, in any role and history, with sound peers and with impostors.',
  'The tests never make anything fail in the middle of the library.',
  ['connection.py', 'states/', 'crypto/ciphers.py'],
  [('internal errors fail the connection', 'connection.py'), ('verification before the next state', 'states/client/wait_certificate_verify.py'), ('records emitted at once', 'connection.py')],
  ['is_connected', 'send_data', 'data_to_read', 'what the peer receives', 'AEAD calls and emitted records'])

p('C28', 'How the transport cuts the bytes changes nothing',
  "What a connection does depends on the bytes it receives, not on how they are cut into calls of receive_data (byte by byte, inside of headers, record by record, many records or flights at once, of any size) nor on how often its output and its data are collected meanwhile: the data delivered, the records emitted (their types and lengths), the parameters negotiated, the error and its alert, and whether it ends connected, closed or failed are the same, for sound peers as for faulty and hostile ones.",
  ['schedules', 'inputs', 'histories'],
  'All segmentations of all streams, sound or not, in both roles.',
  'The tests deliver whole flights, or what a real socket happens to return.',
  ['connection.py'],
  [('records', 'connection.py'), ('handshake messages over records', 'connection.py')],
  ['data_to_read', 'records of data_to_send', 'exceptions', 'is_connected', 'nconfig', 'what the peer concludes'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
