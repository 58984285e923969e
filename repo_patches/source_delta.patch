From edaf8e73e32f9f6e4d4ae1228e5b80f2b4145302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 01/61] fix: raise the existing RecordOverflow alert on
 oversized records

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 0f60da4..c1591ec 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -216,7 +216,7 @@ class TLSConnection:
         if content_length > max_fragment_length:
             e =(f"the record is longer ({content_length} bytes) than "
                 f"the allowed maximum ({max_fragment_length} bytes)")
-            raise alerts.RecordOverFlow(e)
+            raise alerts.RecordOverflow(e)
 
         if len(self._input_data) - 5 < content_length:
             return None
-- 
2.43.0


From 9459a8a2e5dc043ac17687c352fc7463353140e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 02/61] fix: don't pad already aligned records past the maximum
 record length

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index c1591ec..5f98848 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -351,7 +351,7 @@ class TLSConnection:
 
         for fragment in fragments:
             fragment_length = len(fragment) + 1 + self._cipher.tag_length
-            padding = b'\x00' * (chunk_size - fragment_length % chunk_size)
+            padding = b'\x00' * (-fragment_length % chunk_size)
             data = b''.join([
                 fragment,
                 content_type.to_bytes(1, 'big'),
-- 
2.43.0


From 8a613fafafc0a0c12cc33442a97cf237605ba3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 03/61] fix: accept coalesced handshakes and never stall on
 buffered handshake records

---
 src/siotls/connection.py | 73 +++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5f98848..d629b9c 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,8 +5,8 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, TLSVersion
-from siotls.serial import SerialIO, TLSBufferError, TooMuchDataError
+from siotls.iana import AlertLevel, ContentType, HandshakeType, TLSVersion
+from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
 from . import states
@@ -21,6 +21,15 @@ cipher_plaintext = types.SimpleNamespace(
     should_rekey=False,
 )
 
+# handshakes upon which the receiver changes its reading key
+KEY_CHANGES = (
+    HandshakeType.CLIENT_HELLO,
+    HandshakeType.SERVER_HELLO,
+    HandshakeType.END_OF_EARLY_DATA,
+    HandshakeType.FINISHED,
+    HandshakeType.KEY_UPDATE,
+)
+
 def startswith_change_cipher_spec(data):
     return data[0:1] == b'\x14' and data[3:6] == b'\x00\x01\x01'
 
@@ -116,6 +125,10 @@ class TLSConnection:
                     raise alerts.DecodeError(*exc.args) from exc
                 logger.debug("received %s", content_name)
                 if content_type == ContentType.HANDSHAKE:
+                    if self._input_handshake and content.msg_type in KEY_CHANGES:
+                        e =("handshakes cannot span key changes but more data "
+                            f"follows {content_name} inside its record")
+                        raise alerts.UnexpectedMessage(e)
                     self._transcript.update(
                         content_data, self.config.other_side, content.msg_type
                     )
@@ -244,47 +257,39 @@ class TLSConnection:
         return innertext[i], innertext[:i]
 
     def _read_next_content(self):
-        # handshakes can be fragmented over multiple following records,
-        # other content types are not subject to fragmentation
-
-        record = self._read_next_record()
-        if not record:
-            return None
-
-        content_type, fragment = record
-        if not self._input_handshake:
-            if content_type != ContentType.HANDSHAKE:
-                return content_type, fragment
-            else:
-                self._input_handshake = fragment
-        elif content_type != ContentType.HANDSHAKE:
-            e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                f"but {content_type} found")
-            raise alerts.UnexpectedMessage(e)
-        else:
-            self._input_handshake += fragment
+        # handshakes can be fragmented over multiple following records
+        # and many handshakes can be coalesced inside a single record,
+        # other content types are subject to neither
 
-        if len(self._input_handshake) < 4:  # noqa: PLR2004
-            return None
-        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big')
-        while len(self._input_handshake) - 4 < handshake_length:
+        while not (handshake := self._pop_next_handshake()):
             record = self._read_next_record()
             if not record:
                 return None
+
             content_type, fragment = record
             if content_type != ContentType.HANDSHAKE:
-                e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                    f"but {content_type} found")
+                if self._input_handshake:
+                    e =(f"expected {ContentType.HANDSHAKE} continuation "
+                        f"record but {content_type} found")
+                    raise alerts.UnexpectedMessage(e)
+                return content_type, fragment
+
+            if not fragment:
+                e = f"empty {ContentType.HANDSHAKE} record"
                 raise alerts.UnexpectedMessage(e)
             self._input_handshake += fragment
-        if len(self._input_handshake) - 4 > handshake_length:
-            e = (f"expected {handshake_length + 4} bytes but "
-                 f"{len(self._input_handshake)} read")
-            raise TooMuchDataError(e)
 
-        content_data = self._input_handshake
-        self._input_handshake = bytearray()
-        return content_type, content_data
+        return ContentType.HANDSHAKE, handshake
+
+    def _pop_next_handshake(self):
+        if len(self._input_handshake) < 4:  # noqa: PLR2004
+            return None
+        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big') + 4
+        if len(self._input_handshake) < handshake_length:
+            return None
+        handshake = self._input_handshake[:handshake_length]
+        self._input_handshake = self._input_handshake[handshake_length:]
+        return handshake
 
     def _send_content(self, content: Content):
         if (content.content_type == ContentType.APPLICATION_DATA
-- 
2.43.0


From b3e8cddd833ea0b76114c9fdaef11cd1b2247365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 04/61] fix: closing or failing a connection is final in every
 state

---
 src/siotls/connection.py      | 16 +++++++++++++---
 src/siotls/states/__init__.py |  3 +--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index d629b9c..b17687b 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -102,9 +102,12 @@ class TLSConnection:
         if not self._state.can_receive:
             e = f"cannot receive new messages in state {self._state.name()}"
             raise alerts.UnexpectedMessage(e)
+        if isinstance(self._state, states.Failed):
+            return  # ignore all incoming data
+
         self._input_data += data
 
-        while True:
+        while self._state.can_receive and not isinstance(self._state, states.Failed):
             try:
                 next_content = self._read_next_content()
                 if not next_content:
@@ -140,7 +143,7 @@ class TLSConnection:
                 self._fail(alerts.InternalError())
                 raise
 
-        if self._cipher.should_rekey:
+        if self._state.can_send and self._cipher.should_rekey:
             self.rekey()
 
     def send_data(self, data: bytes):
@@ -167,11 +170,17 @@ class TLSConnection:
             logger.warning("EOF or CloseNotify alert during handshake")
             self._fail()
             return
+        if isinstance(self._state, states.Failed):
+            return
         if type(self._state) != states.Closed:
             self._move_to_state(states.Closed)
         self._state.can_receive = False
 
     def close_sending_end(self):
+        if not self.is_post_handshake():
+            self._send_content(alerts.CloseNotify())
+            self._fail()
+            return
         if not isinstance(self._state, states.Closed | states.Failed):
             self._move_to_state(states.Closed)
         if self._state.can_send:
@@ -184,7 +193,8 @@ class TLSConnection:
                 e =("can only fail with a fatal alert which "
                     f"{fatal_alert!r} is not")
                 raise ValueError(e)
-            self._send_content(fatal_alert)
+            if self._state.can_send:
+                self._send_content(fatal_alert)
         self._move_to_state(states.Failed)
 
     def is_post_handshake(self):
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 9498b89..703697b 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -36,8 +36,7 @@ class State(metaclass=abc.ABCMeta):
         if content.content_type == ContentType.ALERT:
             alert = content
             if alert.description == AlertDescription.CLOSE_NOTIFY:
-                self._move_to_state(Closed)
-                self._state.recv_closed = True
+                self.close_receiving_end()
                 logger.debug("%s closed its sending side", self.config.other_side)
             elif alert.level == AlertLevel.WARNING:
                 logger.debug("warning alert from %s: %s",
-- 
2.43.0


From 6a305af764ea634adb310a967d28ab451ed9408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 05/61] fix: don't answer fatal alerts, treat unknown and
 misleveled error alerts as fatal

---
 src/siotls/connection.py      |  3 ++-
 src/siotls/states/__init__.py | 17 +++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index b17687b..97eeb08 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -137,7 +137,8 @@ class TLSConnection:
                     )
                 self._state.process(content)
             except alerts.TLSFatalAlert as alert:
-                self._fail(alert)
+                if not isinstance(self._state, states.Failed):
+                    self._fail(alert)
                 raise
             except Exception:
                 self._fail(alerts.InternalError())
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 703697b..d13476c 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -1,8 +1,8 @@
 import abc
 import logging
 
-from siotls.contents.alerts import Alert, UnexpectedMessage
-from siotls.iana import AlertDescription, AlertLevel, ContentType
+from siotls.contents.alerts import TLSFatalAlert, UnexpectedMessage
+from siotls.iana import AlertDescription, ContentType
 
 logger = logging.getLogger('siotls.connection')
 
@@ -38,12 +38,17 @@ class State(metaclass=abc.ABCMeta):
             if alert.description == AlertDescription.CLOSE_NOTIFY:
                 self.close_receiving_end()
                 logger.debug("%s closed its sending side", self.config.other_side)
-            elif alert.level == AlertLevel.WARNING:
-                logger.debug("warning alert from %s: %s",
-                     self.config.other_side, content.description.name)
+            elif alert.description == AlertDescription.USER_CANCELED:
+                logger.debug("user canceled alert from %s", self.config.other_side)
             else:
+                # all other alerts (even unknown ones) are fatal, no
+                # matter their level, and must not be answered
+                self._fail()
                 e = f"fatal alert from {self.config.other_side}"
-                raise Alert[alert.description](e)
+                if isinstance(alert, TLSFatalAlert):
+                    raise type(alert)(e)
+                e += f": {alert.description}"
+                raise TLSFatalAlert(e)
         elif content.content_type == ContentType.HEARTBEAT:
             raise NotImplementedError
         else:
-- 
2.43.0


From 98753c6c1753f186cdc177dd3006051e4edc8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 06/61] fix: client-side transcript and validation upon
 HelloRetryRequest

---
 src/siotls/states/client/start.py             | 12 +++----
 src/siotls/states/client/wait_server_hello.py | 32 ++++++++++++-------
 src/siotls/transcript.py                      | 16 +++++++++-
 3 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 6b1f584..b331414 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -27,8 +27,9 @@ class ClientStart(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, cookie=None):
+    def __init__(self, connection, cookie=None, key_exchange=None):
         super().__init__(connection)
+        self._key_exchange = key_exchange or self.config.key_exchanges[0]
         self._cookie = cookie
         self._key_shares = {}
 
@@ -65,10 +66,9 @@ class ClientStart(State):
         if self._cookie:
             extensions.append(Cookie(self._cookie))
 
-        key_exchange = self.config.key_exchanges[0]
-        private_key, my_key_share = TLSKeyExchange[key_exchange].init()
-        self._key_shares[key_exchange] = private_key
-        extensions.append(KeyShareRequest({key_exchange: my_key_share}))
+        private_key, my_key_share = TLSKeyExchange[self._key_exchange].init()
+        self._key_shares[self._key_exchange] = private_key
+        extensions.append(KeyShareRequest({self._key_exchange: my_key_share}))
 
         self._send_content(ClientHello(
             self._client_unique, self.config.cipher_suites, extensions,
@@ -76,7 +76,7 @@ class ClientStart(State):
         self._move_to_state(
             ClientWaitServerHello,
             key_shares=self._key_shares,
-            client_hello_transcript_hash=self._transcript.digest(),
+            client_hello_transcript_hashes=self._transcript.digests(),
         )
 
     def process(self, message):
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index f3e2c53..2e103f7 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -1,5 +1,3 @@
-import dataclasses
-
 from siotls.configuration import TLSNegotiatedConfiguration
 from siotls.contents import ChangeCipherSpec, alerts
 from siotls.crypto import TLSCipherSuite, TLSKeyExchange
@@ -14,17 +12,17 @@ class ClientWaitServerHello(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, key_shares, client_hello_transcript_hash):
+    def __init__(self, connection, key_shares, client_hello_transcript_hashes):
         super().__init__(connection)
         self._is_first_server_hello = self.nconfig is None
         self._key_shares = key_shares
-        self._client_hello_transcript_hash = client_hello_transcript_hash
+        self._client_hello_transcript_hashes = client_hello_transcript_hashes
 
     def process(self, content):
         if (content.content_type != ContentType.HANDSHAKE
             or (content.msg_type is not HandshakeType.SERVER_HELLO
                 and (content.msg_type is not HandshakeType_.HELLO_RETRY_REQUEST
-                     and self._is_first_server_hello))):
+                     or not self._is_first_server_hello))):
             super().process(content)
             return
 
@@ -40,6 +38,10 @@ class ClientWaitServerHello(State):
                 'client', self._client_unique, log_keys=self.config.log_keys)
             self._transcript.post_init(self._cipher.digestmod)
             self._send_content(ChangeCipherSpec())
+        elif content.cipher_suite != self.nconfig.cipher_suite:
+            e =(f"the server's selected {content.cipher_suite} is not the one "
+                f"it selected in HelloRetryRequest: {self.nconfig.cipher_suite}")
+            raise alerts.IllegalParameter(e)
 
         if content.msg_type is HandshakeType_.HELLO_RETRY_REQUEST:
             self._process_hello_retry_request(content)
@@ -58,16 +60,22 @@ class ClientWaitServerHello(State):
                 f"offered in ClientHello: {self.config.key_exchanges}")
             raise alerts.IllegalParameter(e)
 
-        # make sure we select the algorithms selected by the server
-        self.config = dataclasses.replace(self.config,
-            cipher_suites=[self.nconfig.cipher_suite],
-            key_exchanges=[key_share.selected_group],
-        )
+        if key_share.selected_group in self._key_shares:
+            e =(f"the server's selected {key_share.selected_group} was already "
+                "shared in ClientHello")
+            raise alerts.IllegalParameter(e)
 
-        self._transcript.do_hrr_dance(self.config.side, self._client_hello_transcript_hash)
+        self._transcript.do_hrr_dance(
+            self.config.side,
+            self._client_hello_transcript_hashes[self._cipher.digestmod().name],
+        )
 
         cookie_ext = hello_retry_request.extensions.get(ExtensionType.COOKIE)
-        self._move_to_state(ClientStart, cookie=cookie_ext and cookie_ext.cookie)
+        self._move_to_state(
+            ClientStart,
+            cookie=cookie_ext and cookie_ext.cookie,
+            key_exchange=key_share.selected_group,
+        )
         self.connection.initiate_connection()
 
     def _process_server_hello(self, server_hello):
diff --git a/src/siotls/transcript.py b/src/siotls/transcript.py
index fa6ea99..ea2f209 100644
--- a/src/siotls/transcript.py
+++ b/src/siotls/transcript.py
@@ -49,7 +49,7 @@ otherwise the transcript wouldn't be right.
 import hashlib
 
 from siotls.contents import alerts
-from siotls.iana import HandshakeType
+from siotls.iana import HandshakeType, HandshakeType_
 
 ORDER = [
     ('server', HandshakeType.SERVER_HELLO, False),
@@ -74,6 +74,7 @@ class Transcript:
             raise ValueError(e)
         self._hashes = [dm() for dm in digestmods]
         self._order_i = 1
+        self._hello_retry_request = b''
 
     def post_init(self, digestmod):
         name = digestmod().name
@@ -86,6 +87,10 @@ class Transcript:
 
     def do_hrr_dance(self, side, client_hello_transcript_hash):
         """
+        The server does it right before sending HelloRetryRequest, the
+        client does it once it processed HelloRetryRequest.
+
+
         Transcript-Hash(ClientHello1, HelloRetryRequest, ... Mn) =
             Hash(message_hash ||        /* Handshake type */
                  00 00 Hash.length  ||   /* Handshake message length (bytes) */
@@ -97,6 +102,7 @@ class Transcript:
             b'\x00\x00',
             self._hashes[0].digest_size.to_bytes(1, 'big'),
             client_hello_transcript_hash,
+            self._hello_retry_request,
         ]))
         self._order_i = (side == 'client')
 
@@ -115,6 +121,10 @@ class Transcript:
                 f"but found {(side, handshake_type)} instead")
             raise alerts.UnexpectedMessage(e)
 
+        if handshake_type is HandshakeType_.HELLO_RETRY_REQUEST:
+            # needed client-side by do_hrr_dance()
+            self._hello_retry_request = bytes(handshake_data)
+
         for hash_ in self._hashes:
             hash_.update(handshake_data)
         self._order_i += 1
@@ -122,6 +132,10 @@ class Transcript:
     def digest(self):
         return self._hashes[0].digest()
 
+    def digests(self):
+        """ All the digests by name, when it is too soon for digest(). """
+        return {hash_.name: hash_.digest() for hash_ in self._hashes}
+
     def hexdigest(self):
         return self._hashes[0].hexdigest()
 
-- 
2.43.0


From c145b7d49449dbdedb5854dfa5756d6137635dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 07/61] fix: expose the negotiated key exchange and signature
 algorithm on both sides

---
 src/siotls/states/client/wait_server_hello.py | 2 +-
 src/siotls/states/server/wait_client_hello.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 2e103f7..bfc3527 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -119,5 +119,5 @@ class ClientWaitServerHello(State):
             except ValueError as exc:
                 e = "error while resuming key share"
                 raise alerts.IllegalParameter(e) from exc
-            self.nconfig.key_exchanges = key_share_ext.group
+            self.nconfig.key_exchange = key_share_ext.group
             return shared_key
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 16febe9..a1c8c33 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -283,6 +283,7 @@ class ServerWaitClientHello(State):
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self._signature = suites[server_suite](self.config.private_key)
+                self.nconfig.signature_algorithm = server_suite
                 return [], []
         e = "no common signature algorithm found"
         raise alerts.HandshakeFailure(e)
-- 
2.43.0


From 780bb4c7f97f9f6b18bceadec3f871c30ff8b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 08/61] fix: answer bad_record_mac upon record deprotection
 failures

---
 src/siotls/crypto/ciphers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index c1f693e..2934f2b 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -150,7 +150,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
         try:
             return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)
         except InvalidTag as exc:
-            raise alerts.DecryptError from exc
+            raise alerts.BadRecordMac from exc
 
     def _next_read_nonce(self):
         nonce = self._read_iv ^ next(self._read_seq)
-- 
2.43.0


From a6bf8c75e8d4236bad530667b04410ecfbefa37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 09/61] fix: offer the configured max fragment length and
 enforce limits on decrypted records

---
 src/siotls/connection.py          | 21 +++++++++++++++++++--
 src/siotls/states/client/start.py |  5 ++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 97eeb08..002dc24 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,7 +5,13 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, HandshakeType, TLSVersion
+from siotls.iana import (
+    AlertLevel,
+    ContentType,
+    HandshakeType,
+    MaxFragmentLengthOctets,
+    TLSVersion,
+)
 from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
@@ -224,6 +230,13 @@ class TLSConnection:
             return self.nconfig.max_fragment_length
         return self.config.max_fragment_length
 
+    @property
+    def _max_input_fragment_length(self):
+        # the peer is only aware of our limit once it is negotiated
+        if self.nconfig and self.nconfig.max_fragment_length is not None:
+            return self.nconfig.max_fragment_length
+        return MaxFragmentLengthOctets.MAX_16384
+
     def _read_next_record(self):
         while startswith_change_cipher_spec(self._input_data):
             self._input_data = self._input_data[6:]
@@ -234,7 +247,7 @@ class TLSConnection:
         content_type, _legacy_version, content_length = \
             struct.unpack('!BHH', self._input_data[:5])
 
-        max_fragment_length = self.max_fragment_length
+        max_fragment_length = self._max_input_fragment_length
         if self._cipher.must_decrypt:
             max_fragment_length += 256
         if content_length > max_fragment_length:
@@ -265,6 +278,10 @@ class TLSConnection:
         else:
             e = "missing content type in encrypted record"
             raise alerts.UnexpectedMessage(e)
+        if len(innertext) - 1 > self._max_input_fragment_length:
+            e =(f"the decrypted record is longer ({len(innertext) - 1} bytes) "
+                f"than the allowed maximum ({self._max_input_fragment_length} bytes)")
+            raise alerts.RecordOverflow(e)
         return innertext[i], innertext[:i]
 
     def _read_next_content(self):
diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index b331414..244bec3 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -8,6 +8,7 @@ from siotls.contents.handshakes.extensions import (
     Heartbeat,
     HostName,
     KeyShareRequest,
+    MaxFragmentLength,
     OCSPStatusRequest,
     ServerCertificateTypeRequest,
     ServerNameListRequest,
@@ -16,7 +17,7 @@ from siotls.contents.handshakes.extensions import (
     SupportedVersionsRequest,
 )
 from siotls.crypto import TLSKeyExchange
-from siotls.iana import HeartbeatMode, TLSVersion
+from siotls.iana import HeartbeatMode, MaxFragmentLengthOctets, TLSVersion
 
 from .. import State
 from . import ClientWaitServerHello
@@ -55,6 +56,8 @@ class ClientStart(State):
             else:
                 # server_hostname is an ip address
                 pass  # the ServerName extension doesn't support ip addresses
+        if self.config.max_fragment_length != MaxFragmentLengthOctets.MAX_16384:
+            extensions.append(MaxFragmentLength(octets=self.config.max_fragment_length))
         if self.config.alpn:
             extensions.append(ALPN(self.config.alpn))
         if self.config.public_key:  # x509 assumed when extension missing
-- 
2.43.0


From a0f67ec4f513f462360f35f937200a37e860a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 10/61] fix: answer heartbeat requests instead of crashing

---
 src/siotls/connection.py         |  6 ++++--
 src/siotls/contents/heartbeat.py |  4 ++--
 src/siotls/states/__init__.py    | 24 ++++++++++++++++++++++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 002dc24..10a04c5 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -9,6 +9,7 @@ from siotls.iana import (
     AlertLevel,
     ContentType,
     HandshakeType,
+    HeartbeatMessageType,
     MaxFragmentLengthOctets,
     TLSVersion,
 )
@@ -328,9 +329,10 @@ class TLSConnection:
             e = f"cannot send content in state {self._state.name()}"
             raise TLSError(e)
         if (content.content_type == ContentType.HEARTBEAT
-            and (not self.config.can_send_heartbeat
-                 or self.nconfig and not self.nconfig.can_send_heartbeat)):
+            and content.heartbeat_type == HeartbeatMessageType.heartbeat_request
+            and not (self.nconfig and self.nconfig.can_send_heartbeat)):
             e = "cannot send heartbeat on this connection"
+            raise TLSError(e)
 
         logger.debug("will send %s", type(content).__name__)
         data = content.serialize()
diff --git a/src/siotls/contents/heartbeat.py b/src/siotls/contents/heartbeat.py
index f99c508..8a53350 100644
--- a/src/siotls/contents/heartbeat.py
+++ b/src/siotls/contents/heartbeat.py
@@ -47,9 +47,9 @@ class Heartbeat(Content, Serializable):
         return cls(heartbeat_type, payload, padding)
 
     def serialize(self):
-        return b''.join(
+        return b''.join([
             self.heartbeat_type.to_bytes(1, 'big'),
             len(self.payload).to_bytes(2, 'big'),
             self.payload,
             self.padding,
-        )
+        ])
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index d13476c..5ebf070 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -1,9 +1,13 @@
 import abc
+import contextlib
 import logging
+import secrets
 
+from siotls.contents import Heartbeat
 from siotls.contents.alerts import TLSFatalAlert, UnexpectedMessage
-from siotls.iana import AlertDescription, ContentType
+from siotls.iana import AlertDescription, ContentType, HeartbeatMessageType
 
+HEARTBEAT_PADDING = 16  # minimum length
 logger = logging.getLogger('siotls.connection')
 
 
@@ -50,12 +54,28 @@ class State(metaclass=abc.ABCMeta):
                 e += f": {alert.description}"
                 raise TLSFatalAlert(e)
         elif content.content_type == ContentType.HEARTBEAT:
-            raise NotImplementedError
+            self._process_heartbeat(content)
         else:
             e =(f"cannot process {type(content).__name__} in state "
                 f"{self.name()}")
             raise UnexpectedMessage(e)
 
+    def _process_heartbeat(self, heartbeat):
+        # RFC-6520: silently discard the messages we cannot answer
+        if (heartbeat.heartbeat_type != HeartbeatMessageType.heartbeat_request
+            or len(heartbeat.padding) < HEARTBEAT_PADDING
+            or not self.is_post_handshake()
+            or not self.nconfig.can_echo_heartbeat
+            or not self.can_send):
+            return
+        response = Heartbeat(
+            HeartbeatMessageType.heartbeat_response,
+            heartbeat.payload,
+            secrets.token_bytes(HEARTBEAT_PADDING),
+        )
+        with contextlib.suppress(ValueError):  # doesn't fit in a record
+            self._send_content(response)
+
 # isort: off
 from .closed import Closed
 from .connected import Connected
-- 
2.43.0


From dfb1501d68bf8898d0a2b80525eac1fa57cc6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 11/61] fix: server writes with its application traffic key
 right after Finished

---
 src/siotls/crypto/ciphers.py                  | 23 ++++++++++++++++---
 src/siotls/states/server/wait_client_hello.py |  1 +
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 2934f2b..46df082 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -99,6 +99,12 @@ class _TLSSecrets:
             resumption_master,
         )
 
+    def derive_server_application_traffic(self, server_finished_transcript_hash):
+        assert self.state is CipherState.APPLICATION
+        derive_master_secret = self._make_deriver(
+            self._hashzeros, server_finished_transcript_hash, update_salt=False)
+        return derive_master_secret(b's ap traffic')
+
 
 class TLSCipherSuite(metaclass=RegistryMeta):
     _registry: ClassVar = {}
@@ -260,6 +266,19 @@ class TLSCipherSuite(metaclass=RegistryMeta):
             key_logger.info("SERVER_HANDSHAKE_TRAFFIC_SECRET %s %s",
                 self._client_unique_hex, server_handshake_traffic.hex())
 
+    def derive_server_write_secret(self, server_finished_transcript_hash):
+        """
+        The server writes with its application traffic key right after
+        it sent Finished, it still reads with the client's handshake
+        traffic key up to the client's Finished.
+        """
+        server_application_traffic = self._secrets.derive_server_application_traffic(
+            server_finished_transcript_hash)
+        server_key, server_iv = self._derive_key_and_iv(server_application_traffic)
+        self._write_cipher = self._ciphermod(server_key)
+        self._write_iv = int.from_bytes(server_iv, 'big')
+        self._write_seq = peekable(iter(range(self.usage_limit)))
+
     def derive_master_secrets(
         self, server_finished_transcript_hash, client_finished_transcript_hash
     ):
@@ -283,9 +302,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
             self._read_iv = int.from_bytes(server_iv, 'big')
             self._read_seq = peekable(iter(range(self.usage_limit)))
         else:
-            self._write_cipher = self._ciphermod(server_key)
-            self._write_iv = int.from_bytes(server_iv, 'big')
-            self._write_seq = peekable(iter(range(self.usage_limit)))
+            # the server already writes with its application traffic key
             self._read_cipher = self._ciphermod(client_key)
             self._read_iv = int.from_bytes(client_iv, 'big')
             self._read_seq = peekable(iter(range(self.usage_limit)))
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index a1c8c33..6adcbdc 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -86,6 +86,7 @@ class ServerWaitClientHello(State):
         self._send_finished()
 
         server_finished_transcript_hash = self._transcript.digest()
+        self._cipher.derive_server_write_secret(server_finished_transcript_hash)
         if self.config.require_peer_authentication:
             self._move_to_state(ServerWaitFlight2, server_finished_transcript_hash)
         else:
-- 
2.43.0


From e37cceecc0eb29fc7020760eb019c77cf7cfa351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 12/61] fix: decode the remaining handshakes, ignore new
 session tickets

---
 .../contents/handshakes/end_of_early_data.py  | 13 +++-
 src/siotls/contents/handshakes/key_update.py  | 24 +++++++-
 .../contents/handshakes/new_session_ticket.py | 59 ++++++++++++++++++-
 src/siotls/states/connected.py                |  7 ++-
 4 files changed, 97 insertions(+), 6 deletions(-)

diff --git a/src/siotls/contents/handshakes/end_of_early_data.py b/src/siotls/contents/handshakes/end_of_early_data.py
index 3c98386..0a57208 100644
--- a/src/siotls/contents/handshakes/end_of_early_data.py
+++ b/src/siotls/contents/handshakes/end_of_early_data.py
@@ -9,4 +9,15 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class EndOfEarlyData(Handshake, SerializableBody):
     msg_type = HandshakeType.END_OF_EARLY_DATA
-    ...
+
+    _struct = "struct {} EndOfEarlyData;"
+
+    def __init__(self):
+        pass
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        return cls()
+
+    def serialize_body(self):
+        return b''
diff --git a/src/siotls/contents/handshakes/key_update.py b/src/siotls/contents/handshakes/key_update.py
index f1b3d38..416f639 100644
--- a/src/siotls/contents/handshakes/key_update.py
+++ b/src/siotls/contents/handshakes/key_update.py
@@ -1,5 +1,7 @@
 import dataclasses
+import textwrap
 
+from siotls.contents import alerts
 from siotls.iana import HandshakeType
 from siotls.serial import SerializableBody
 
@@ -9,4 +11,24 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class KeyUpdate(Handshake, SerializableBody):
     msg_type = HandshakeType.KEY_UPDATE
-    ...
+
+    _struct = textwrap.dedent("""
+        struct {
+            KeyUpdateRequest request_update;
+        } KeyUpdate;
+    """).strip('\n')
+    request_update: bool
+
+    def __init__(self, request_update):
+        self.request_update = request_update
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        request_update = stream.read_int(1)
+        if request_update not in (0, 1):
+            e = f"invalid key update request: {request_update}"
+            raise alerts.IllegalParameter(e)
+        return cls(bool(request_update))
+
+    def serialize_body(self):
+        return self.request_update.to_bytes(1, 'big')
diff --git a/src/siotls/contents/handshakes/new_session_ticket.py b/src/siotls/contents/handshakes/new_session_ticket.py
index cf05b47..df631a5 100644
--- a/src/siotls/contents/handshakes/new_session_ticket.py
+++ b/src/siotls/contents/handshakes/new_session_ticket.py
@@ -1,12 +1,65 @@
 import dataclasses
+import textwrap
 
-from siotls.iana import HandshakeType
-from siotls.serial import SerializableBody
+from siotls.iana import ExtensionType, HandshakeType
+from siotls.serial import SerialIO, SerializableBody
 
 from . import Handshake
+from .extensions import Extension
 
 
 @dataclasses.dataclass(init=False)
 class NewSessionTicket(Handshake, SerializableBody):
     msg_type = HandshakeType.NEW_SESSION_TICKET
-    ...
+
+    _struct = textwrap.dedent("""
+        struct {
+            uint32 ticket_lifetime;
+            uint32 ticket_age_add;
+            opaque ticket_nonce<0..255>;
+            opaque ticket<1..2^16-1>;
+            Extension extensions<0..2^16-2>;
+        } NewSessionTicket;
+    """).strip('\n')
+    ticket_lifetime: int
+    ticket_age_add: int
+    ticket_nonce: bytes
+    ticket: bytes
+    extensions: dict[ExtensionType | int, Extension]
+
+    def __init__(
+        self, ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions
+    ):
+        self.ticket_lifetime = ticket_lifetime
+        self.ticket_age_add = ticket_age_add
+        self.ticket_nonce = ticket_nonce
+        self.ticket = ticket
+        self.extensions = {ext.extension_type: ext for ext in extensions}
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):
+        ticket_lifetime = stream.read_int(4)
+        ticket_age_add = stream.read_int(4)
+        ticket_nonce = stream.read_var(1)
+        ticket = stream.read_var(2)
+
+        extensions = []
+        list_stream = SerialIO(stream.read_var(2))
+        while not list_stream.is_eof():
+            extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
+            extensions.append(extension)
+
+        return cls(ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions)
+
+    def serialize_body(self):
+        extensions = b''.join(ext.serialize() for ext in self.extensions.values())
+        return b''.join([
+            self.ticket_lifetime.to_bytes(4, 'big'),
+            self.ticket_age_add.to_bytes(4, 'big'),
+            len(self.ticket_nonce).to_bytes(1, 'big'),
+            self.ticket_nonce,
+            len(self.ticket).to_bytes(2, 'big'),
+            self.ticket,
+            len(extensions).to_bytes(2, 'big'),
+            extensions,
+        ])
diff --git a/src/siotls/states/connected.py b/src/siotls/states/connected.py
index 221c805..ab1805b 100644
--- a/src/siotls/states/connected.py
+++ b/src/siotls/states/connected.py
@@ -1,4 +1,4 @@
-from siotls.iana import ContentType
+from siotls.iana import ContentType, HandshakeType
 
 from . import State
 
@@ -9,6 +9,11 @@ class Connected(State):
     can_send_application_data = True
 
     def process(self, message):
+        if (self.config.side == 'client'
+            and message.content_type == ContentType.HANDSHAKE
+            and message.msg_type == HandshakeType.NEW_SESSION_TICKET):
+            return  # session resumption is not supported
+
         if message.content_type != ContentType.APPLICATION_DATA:
             super().process(message)
             return
-- 
2.43.0


From 4e87cd7809aad6b5111120bbef81ff0294c4b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 13/61] fix: answer malformed and untimely messages with TLS
 alerts

---
 src/siotls/connection.py                      |  2 +-
 src/siotls/contents/__init__.py               |  2 +-
 src/siotls/contents/handshakes/__init__.py    |  2 +-
 src/siotls/contents/handshakes/certificate.py | 21 ++++++++++++-------
 .../handshakes/extensions/__init__.py         |  1 +
 .../extensions/certificate_authorities.py     |  2 +-
 .../handshakes/extensions/use_srtp.py         |  4 ++--
 src/siotls/states/client/wait_certificate.py  |  7 +++----
 8 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 10a04c5..928e74f 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -131,7 +131,7 @@ class TLSConnection:
                     )
                     content_name = type(content).__name__
                     stream.assert_eof()
-                except TLSBufferError as exc:
+                except (TLSBufferError, ValueError) as exc:
                     raise alerts.DecodeError(*exc.args) from exc
                 logger.debug("received %s", content_name)
                 if content_type == ContentType.HANDSHAKE:
diff --git a/src/siotls/contents/__init__.py b/src/siotls/contents/__init__.py
index 9530461..1a5d2ca 100644
--- a/src/siotls/contents/__init__.py
+++ b/src/siotls/contents/__init__.py
@@ -15,7 +15,7 @@ class Content:
     def get_parser(abc, content_type):
         try:
             return _content_registry[ContentType(content_type)]
-        except ValueError as exc:
+        except (ValueError, KeyError) as exc:
             raise DecodeError(*exc.args) from exc
 
 
diff --git a/src/siotls/contents/handshakes/__init__.py b/src/siotls/contents/handshakes/__init__.py
index 03d7247..f156379 100644
--- a/src/siotls/contents/handshakes/__init__.py
+++ b/src/siotls/contents/handshakes/__init__.py
@@ -45,7 +45,7 @@ class Handshake(Content, Serializable):
         length = stream.read_int(3)
         try:
             cls = _handshake_registry[HandshakeType(msg_type)]
-        except ValueError as exc:
+        except (ValueError, KeyError) as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
         with stream.limit(length):
             return cls.parse_body(stream, **kwargs)
diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 9328735..904f26c 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -1,13 +1,14 @@
 import dataclasses
 import textwrap
 
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.primitives.asymmetric.types import PublicKeyTypes
 from cryptography.hazmat.primitives.serialization import (
     Encoding,
     PublicFormat,
     load_der_public_key,
 )
-from cryptography.x509 import Certificate, load_der_x509_certificate
+from cryptography.x509 import Certificate, InvalidVersion, load_der_x509_certificate
 
 from siotls.contents import alerts
 from siotls.iana import CertificateType, ExtensionType, HandshakeType
@@ -49,7 +50,10 @@ class CertificateEntry(Serializable):
     @classmethod
     def parse(cls, stream, **kwargs):
         data = stream.read_var(3)
-        certificate = cls._parse_certificate(data)
+        try:
+            certificate = cls._parse_certificate(data)
+        except (ValueError, UnsupportedAlgorithm, InvalidVersion) as exc:
+            raise alerts.BadCertificate(*exc.args) from exc
 
         extensions = []
         list_stream = SerialIO(stream.read_var(2))
@@ -133,12 +137,15 @@ class Certificate(Handshake, SerializableBody):
     def parse_body(cls, stream, *, config, nconfig, **kwargs):
         try:
             Entry = _certificate_entry_registry[  # noqa: N806
-                nconfig.client_certificate_type
-                if config.other_side == 'client' else
-                nconfig.server_certificate_type
+                nconfig and (
+                    nconfig.client_certificate_type
+                    if config.other_side == 'client' else
+                    nconfig.server_certificate_type
+                )
             ]
-        except IndexError as exc:
-            raise alerts.CertificateUnknown(*exc.args) from exc
+        except KeyError as exc:
+            e = "the certificate type is not negotiated yet"
+            raise alerts.UnexpectedMessage(e) from exc
 
         certificate_request_context = stream.read_var(1)
 
diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index 033f379..b23881c 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -89,6 +89,7 @@ class Extension(Serializable):
                 f'UnkonwnExtension{extension_type}',
                 (UnknownExtension, Extension),
                 {'extension_type': extension_type},
+                register=False,
             )
 
         extension_length = stream.read_int(2)
diff --git a/src/siotls/contents/handshakes/extensions/certificate_authorities.py b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
index bc95903..8061245 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_authorities.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
@@ -32,7 +32,7 @@ class CertificateAuthorities(Extension, SerializableBody):
         autorities = stream.read_listvar(2, 2)
         return cls(autorities)
 
-    def serialize(self):
+    def serialize_body(self):
         autorities = b''.join([
             b''.join([
                 len(autority).to_bytes(2, 'big'),
diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index 7fcc2ce..d5293b8 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -42,9 +42,9 @@ class UseSRTP(Extension, SerializableBody):
 
         return cls(protection_profiles, mki)
 
-    def serialize(self):
+    def serialize_body(self):
         return b''.join([
-            (len(self.mki) * 2).to_bytes(2, 'big'),
+            (len(self.protection_profiles) * 2).to_bytes(2, 'big'),
             bytes(itertools.chain.from_iterable(self.protection_profiles)),
             len(self.mki).to_bytes(1, 'big'),
             self.mki,
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 69036f2..253b57b 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -32,10 +32,9 @@ class ClientWaitCertificate(State):
             super().process(content)
             return
 
-        if self.config.require_peer_authentication:
-            if not content.certificate_list:
-                e = "missing certificate"
-                raise alerts.BadCertificate(e)
+        if not content.certificate_list:
+            e = "missing certificate"
+            raise alerts.BadCertificate(e)
         self._check_certificate_types(content.certificate_list)
         match self.nconfig.server_certificate_type:
             case CertificateType.X509:
-- 
2.43.0


From 06a840bc9b0bdd5ed2778082629793f45db72b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 14/61] fix: only use and accept signature schemes that fit the
 certificate's key

---
 src/siotls/crypto/signatures.py               | 30 +++++++++++++++++-
 .../states/client/wait_certificate_verify.py  | 31 ++++++++++++++-----
 src/siotls/states/server/wait_client_hello.py |  8 +++--
 3 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 2eff651..96226de 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -5,11 +5,18 @@ from typing import ClassVar
 
 from cryptography.hazmat._oid import PublicKeyAlgorithmOID, SignatureAlgorithmOID
 from cryptography.hazmat.primitives import hashes
-from cryptography.hazmat.primitives.asymmetric import ec, padding, types
+from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, types
 
 from siotls.iana import SignatureScheme
 from siotls.utils import RegistryMeta
 
+PUBLIC_KEY_OIDS = [
+    (rsa.RSAPublicKey, PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5),
+    (ec.EllipticCurvePublicKey, PublicKeyAlgorithmOID.EC_PUBLIC_KEY),
+    (ed25519.Ed25519PublicKey, PublicKeyAlgorithmOID.ED25519),
+    (ed448.Ed448PublicKey, PublicKeyAlgorithmOID.ED448),
+]
+
 
 class TLSSignatureSuite(metaclass=RegistryMeta):
     _pubkey_registry: ClassVar = {}
@@ -19,6 +26,7 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
     iana_id: SignatureScheme
     pubkey_oid: PublicKeyAlgorithmOID
     sign_oid: SignatureAlgorithmOID
+    curve: type[ec.EllipticCurve] | None = None
 
     key: types.PublicKeyTypes | types.PrivateKeyTypes
 
@@ -38,6 +46,23 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
     def for_public_key_oid(cls, public_key_oid):
         return cls._pubkey_registry[public_key_oid]
 
+    @classmethod
+    def for_public_key(cls, public_key, public_key_oid=None):
+        """
+        Get the suites that can be used with this very public key, the
+        OID can be provided to discriminate RSASSA-PSS from plain RSA.
+        """
+        if public_key_oid is None:
+            public_key_oid = next(
+                (oid for type_, oid in PUBLIC_KEY_OIDS if isinstance(public_key, type_)),
+                None,
+            )
+        return {
+            iana_id: suite
+            for iana_id, suite in cls._pubkey_registry.get(public_key_oid, {}).items()
+            if suite.curve is None or isinstance(public_key.curve, suite.curve)
+        }
+
     def __init__(self, key):
         self.key = key
 
@@ -135,18 +160,21 @@ class TLS_ECDSA_SECP256R1_SHA256(_ECDSAMixin, TLSSignatureSuite):
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA256
     digestmod = hashes.SHA256()
+    curve = ec.SECP256R1
 
 class TLS_ECDSA_SECP384R1_SHA384(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp384r1_sha384
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA384
     digestmod = hashes.SHA384()
+    curve = ec.SECP384R1
 
 class TLS_ECDSA_SECP521R1_SHA512(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp521r1_sha512
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA512
     digestmod = hashes.SHA512()
+    curve = ec.SECP521R1
 
 
 class _EDMixin:
diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index a5027c0..1167ee0 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,3 +1,5 @@
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
+
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
 from siotls.iana import ContentType, HandshakeType
@@ -34,14 +36,27 @@ class ClientWaitCertificateVerify(State):
             raise alerts.IllegalParameter(e)
         self.nconfig.signature_algorithm = content.algorithm
 
-        public_key = (
-            self.nconfig.peer_public_key
-            or self.nconfig.peer_certificate.public_key()
-        )
-        TLSSignatureSuite[content.algorithm](public_key).verify(
-            content.signature,
-            CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
-        )
+        try:
+            if public_key := self.nconfig.peer_public_key:
+                suites = TLSSignatureSuite.for_public_key(public_key)
+            else:
+                certificate = self.nconfig.peer_certificate
+                public_key = certificate.public_key()
+                suites = TLSSignatureSuite.for_public_key(
+                    public_key, certificate.public_key_algorithm_oid)
+        except (ValueError, UnsupportedAlgorithm) as exc:
+            raise alerts.UnsupportedCertificate(*exc.args) from exc
+        if content.algorithm not in suites:
+            e =(f"the server's selected {content.algorithm} cannot be used "
+                "with the server's public key")
+            raise alerts.IllegalParameter(e)
+        try:
+            suites[content.algorithm](public_key).verify(
+                content.signature,
+                CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
+            )
+        except InvalidSignature as exc:
+            raise alerts.DecryptError from exc
 
         self._move_to_state(
             ClientWaitFinished,
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 6adcbdc..fa40cd5 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -279,8 +279,12 @@ class ServerWaitClientHello(State):
     def _negociate_signature_algorithms(self, sa_ext):
         if not sa_ext:
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
-        pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
-        suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        if self.config.certificate_chain:
+            leaf = self.config.certificate_chain[0]
+            suites = TLSSignatureSuite.for_public_key(
+                leaf.public_key(), leaf.public_key_algorithm_oid)
+        else:
+            suites = TLSSignatureSuite.for_public_key(self.config.public_key)
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self._signature = suites[server_suite](self.config.private_key)
-- 
2.43.0


From 8f8f01f18cbcda2238c592f69df3d0e0cec38631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 15/61] fix: raw public keys negotiation and verification

---
 .../contents/handshakes/extensions/certificate_type.py       | 3 +--
 src/siotls/states/client/wait_certificate.py                 | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index 6ae28fe..c30b499 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -34,7 +34,7 @@ class _CertificateTypeRequest(SerializableBody):
 
     def serialize_body(self):
         return b''.join([
-            len(self.certificate_type).to_bytes(1, 'big'),
+            len(self.certificate_types).to_bytes(1, 'big'),
             *[ct.to_bytes(1, 'big') for ct in self.certificate_types],
         ])
 
@@ -55,7 +55,6 @@ class _CertificateTypeResponse(SerializableBody):
             raise alerts.IllegalParameter(*exc.args) from exc
         return cls(certificate_type)
 
-    @classmethod
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 253b57b..7c3730c 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -64,6 +64,9 @@ class ClientWaitCertificate(State):
     def _process_x509(self, content):
         self.nconfig.peer_certificate = content.certificate_list[0].certificate
         if self.config.require_peer_authentication:
+            if not self.config.trust_store:
+                e = "expected a raw public key but found a certificate"
+                raise alerts.UnsupportedCertificate(e)
             self._verify_chain(content.certificate_list)
             self._verify_revocation(content.certificate_list)
             self._verify_statuses(content.certificate_list)
@@ -123,7 +126,7 @@ class ClientWaitCertificate(State):
         public_key = content.certificate_list[0].public_key
         self.nconfig.peer_public_key = public_key
         if (self.config.require_peer_authentication
-            and public_key not in self.config.trusted_public_keys()
+            and public_key not in self.config.trusted_public_keys
         ):
             e = "untrusted raw public key"
             raise alerts.BadCertificate(e)
-- 
2.43.0


From 69346fdeb1e18de23d6d19754706758c99705a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 16/61] fix: lookup the revocation list by serial number

---
 src/siotls/states/client/wait_certificate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 7c3730c..5e3f852 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -97,7 +97,7 @@ class ClientWaitCertificate(State):
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
         for entry in certificate_entries:
-            if is_revoked(entry.certificate):
+            if is_revoked(entry.certificate.serial_number):
                 e = f"{entry.certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-- 
2.43.0


From 184393cb3eaf3af0a5a20e9f65eb3615290f520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 17/61] fix: certificates without OCSP url and invalid OCSP
 responses

---
 src/siotls/crypto/ocsp.py                     | 14 ++++++++++++--
 src/siotls/states/server/wait_client_hello.py |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 57e6ee7..fbf331a 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
+from cryptography.x509 import ExtensionNotFound
 from cryptography.x509.ocsp import (
     OCSPCertStatus,
     OCSPRequestBuilder,
@@ -19,11 +20,15 @@ OCSP = AuthorityInformationAccessOID.OCSP
 
 
 def get_ocsp_url(certificate):
+    try:
+        aia = certificate.extensions.get_extension_for_oid(AIA).value
+    except ExtensionNotFound:
+        return None
     return next(
         (
             access_description.access_location.value
             for access_description
-            in certificate.extensions.get_extension_for_oid(AIA).value
+            in aia
             if access_description.access_method == OCSP
         ),
         None
@@ -65,6 +70,10 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is not valid yet"
         raise ValueError(e)
 
+    if res.next_update is None:
+        e = "response doesn't expire"
+        raise ValueError(e)
+
     if res.next_update < datetime.utcnow():  # noqa: DTZ003
         e = "response is expired"
         raise ValueError(e)
@@ -86,6 +95,7 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
     try:
         Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
     except InvalidSignature as exc:
-        raise ValueError(exc.args[0]) from exc
+        e = "invalid signature"
+        raise ValueError(e) from exc
 
     return res.next_update
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index fa40cd5..679a9ee 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -170,9 +170,9 @@ class ServerWaitClientHello(State):
                 self.nconfig.peer_want_ocsp_stapling
                 and self.ocsp_service
                 and len(self.config.certificate_chain) > 1
+                and (ocsp_url := get_ocsp_url(self.config.certificate_chain[0]))
             ):
                 subject, issuer = self.config.certificate_chain[:2]
-                ocsp_url = get_ocsp_url(subject)
                 ocsp_req = make_ocsp_request(subject, issuer)
                 ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 try:
-- 
2.43.0


From d6df685505f9e124ebd5693eb9394b8c2a1a4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 18/61] fix: answer certificate requests with an empty
 certificate list

---
 src/siotls/states/client/wait_finished.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/siotls/states/client/wait_finished.py b/src/siotls/states/client/wait_finished.py
index 4c81753..421b8b9 100644
--- a/src/siotls/states/client/wait_finished.py
+++ b/src/siotls/states/client/wait_finished.py
@@ -1,5 +1,5 @@
 from siotls.contents import alerts
-from siotls.contents.handshakes import Finished
+from siotls.contents.handshakes import Certificate, Finished
 from siotls.iana import ContentType, HandshakeType
 
 from .. import Connected, State
@@ -46,4 +46,6 @@ class ClientWaitFinished(State):
         self._move_to_state(Connected)
 
     def _send_certificate(self):
-        raise NotImplementedError
+        # client authentication is not supported, a client that has no
+        # suitable certificate must send an empty certificate list
+        self._send_content(Certificate(b'', []))
-- 
2.43.0


From 86f16e7b4d266a3eaeffe8bc0cefe16f3a3b8c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 19/61] fix: set the missing usage limit of AES-CCM

---
 src/siotls/crypto/ciphers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 46df082..2701ee6 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -366,7 +366,7 @@ class TLS_AES_128_CCM_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 16
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = int(2 ** 21.5)
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
 
@@ -378,6 +378,6 @@ class TLS_AES_128_CCM_8_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 8
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = int(2 ** 21.5)
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
-- 
2.43.0


From 4397c0519d19b6b478c49878710db8a0a30048ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 20/61] fix: serialize the PreSharedKey identities and binders

---
 .../contents/handshakes/extensions/pre_shared_key.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/pre_shared_key.py b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
index da5fca5..7e51fc6 100644
--- a/src/siotls/contents/handshakes/extensions/pre_shared_key.py
+++ b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
@@ -54,17 +54,21 @@ class PreSharedKeyRequest(Extension, SerializableBody):
     def serialize_body(self):
         identities = b''.join(
             b''.join([
-                len(pskid.identify).to_bytes(2, 'big'),
-                pskid.identify,
+                len(pskid.identity).to_bytes(2, 'big'),
+                pskid.identity,
                 pskid.obfuscated_ticket_age.to_bytes(4, 'big')
             ]) for pskid in self.identities
         )
 
+        binders = b''.join(
+            len(binder).to_bytes(1, 'big') + binder
+            for binder in self.binders
+        )
         return b''.join([
             len(identities).to_bytes(2, 'big'),
             identities,
-            len(self.binders).to_bytes(2, 'big'),
-            *self.binders,
+            len(binders).to_bytes(2, 'big'),
+            binders,
         ])
 
 
-- 
2.43.0


From b007cf458f866807abb6fe2d8d9a941a107dd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 21/61] fix: internationalized server hostnames

---
 src/siotls/contents/handshakes/extensions/server_name.py | 5 +++--
 src/siotls/states/client/wait_certificate.py             | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/server_name.py b/src/siotls/contents/handshakes/extensions/server_name.py
index 30fe83f..4639f55 100644
--- a/src/siotls/contents/handshakes/extensions/server_name.py
+++ b/src/siotls/contents/handshakes/extensions/server_name.py
@@ -76,9 +76,10 @@ class HostName(ServerName, SerializableBody):
             raise
 
     def serialize_body(self):
+        byte_host_name = idna.encode(self.host_name, uts46=True)
         return b''.join([
-            len(self.host_name).to_bytes(2, 'big'),
-            idna.encode(self.host_name, uts46=True),
+            len(byte_host_name).to_bytes(2, 'big'),
+            byte_host_name,
         ])
 
 @dataclasses.dataclass(init=False)
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 5e3f852..c699533 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -1,6 +1,7 @@
 from ipaddress import ip_address
 from itertools import pairwise
 
+import idna
 from cryptography import x509
 
 from siotls.contents import alerts
@@ -87,7 +88,7 @@ class ClientWaitCertificate(State):
         try:
             server_ip = ip_address(self.server_hostname)
         except ValueError:
-            subject = x509.DNSName(self.server_hostname)
+            subject = x509.DNSName(idna.encode(self.server_hostname, uts46=True).decode())
         else:
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
-- 
2.43.0


From 5dcee170765d7c859eac08ce49fc20547d05c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 22/61] fix: don't lose data upon partial socket sends

---
 src/siotls/wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index deb42aa..4e09488 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -15,14 +15,14 @@ class WrappedSocket:
     def do_handhskake(self):
         self.conn.initiate_connection()
         if self.conn.config.side == 'client':
-            self.sock.send(self.conn.data_to_send())
+            self.sock.sendall(self.conn.data_to_send())
         while not self.conn.is_post_handshake():
             if input_data := self.sock.recv(self.conn.max_fragment_length):
                 try:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
 
@@ -34,7 +34,7 @@ class WrappedSocket:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
                 application_data += self.conn.data_to_read()
             else:
                 self.conn.close_receiving_end()
@@ -42,9 +42,9 @@ class WrappedSocket:
 
     def write(self, data):
         self.conn.send_data(data)
-        self.sock.send(self.conn.data_to_send())
+        self.sock.sendall(self.conn.data_to_send())
 
     def close(self):
         self.conn.close_sending_end()
         if close_notify := self.conn.data_to_send():
-            self.sock.send(close_notify)
+            self.sock.sendall(close_notify)
-- 
2.43.0


From 0a6d4d397903344e4456058933effcdbf32800f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 23/61] fix: HTTP content length counts bytes

---
 src/siotls/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/utils.py b/src/siotls/utils.py
index 2b31291..3f77273 100644
--- a/src/siotls/utils.py
+++ b/src/siotls/utils.py
@@ -74,7 +74,7 @@ def make_http11_request(host: str, method: str, path: str, body: str):
         host=host,
         method=method,
         path=path,
-        length=len(body),
+        length=len(body.encode()),
         body=body
     )
 
@@ -92,7 +92,7 @@ def make_http11_response(code: int, body: str, now: datetime | None = None):
     return HTTP11_RESPONSE.format(
         status=HTTPStatus(code),
         date=format_date_time(now.timestamp() if now else time.time()),
-        length=len(body),
+        length=len(body.encode()),
         body=body,
     )
 
-- 
2.43.0


From f9ed35556db4618caaf757e8e37d0c9961a9a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 24/61] fix: refuse negative OCSP response content length

---
 src/siotls/ocsp_over_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 1e7ea5d..84f2a1f 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -57,7 +57,7 @@ def request(url, ocsp_req):
         raise RuntimeError(e)
 
     content_length = int(http_res.getheader('Content-Length', OCSP_MAX_RESPONSE_SIZE))
-    if content_length > OCSP_MAX_RESPONSE_SIZE:
+    if not 0 <= content_length <= OCSP_MAX_RESPONSE_SIZE:
         e =(f"OCSP response body too large ({content_length} bytes vs "
             f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
         raise RuntimeError(e)
-- 
2.43.0


From 3c83683bb8e49d1149c45f116126dcc1942930fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 25/61] fix: fail even when the alert cannot be sent

---
 src/siotls/connection.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 928e74f..734f03b 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -196,14 +196,15 @@ class TLSConnection:
             self._state.can_send = False
 
     def _fail(self, fatal_alert=None):
-        if fatal_alert:
-            if fatal_alert.level != AlertLevel.FATAL:
-                e =("can only fail with a fatal alert which "
-                    f"{fatal_alert!r} is not")
-                raise ValueError(e)
-            if self._state.can_send:
+        if fatal_alert and fatal_alert.level != AlertLevel.FATAL:
+            e =("can only fail with a fatal alert which "
+                f"{fatal_alert!r} is not")
+            raise ValueError(e)
+        try:
+            if fatal_alert and self._state.can_send:
                 self._send_content(fatal_alert)
-        self._move_to_state(states.Failed)
+        finally:
+            self._move_to_state(states.Failed)
 
     def is_post_handshake(self):
         return isinstance(self._state, states.Connected | states.Closed | states.Failed)
-- 
2.43.0


From 24c4ee20a39e3be4e32fdcb7db11ce2f95e915fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 26/61] fix: OCSP responses must match the issuer's key, not
 how the issuer was signed

The signature algorithm of the response was compared with the one the
issuer's own certificate was signed with. With an EC intermediate below
a RSA root (or the reverse), valid responses were refused and bogus ones
crashed with a TypeError.
---
 src/siotls/crypto/ocsp.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index fbf331a..837dcb2 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -78,20 +78,16 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is expired"
         raise ValueError(e)
 
-    if res.signature_algorithm_oid != issuer.signature_algorithm_oid:
-        e = "request and response signature algorithm mismatch"
-        raise ValueError(e)
-
-    if res.signature_hash_algorithm != issuer.signature_hash_algorithm:
-        e = "request and response hash algorithm mismatch"
-        raise ValueError(e)
-
     try:
         Signature = TLSSignatureSuite.from_signature_oid(res.signature_algorithm_oid)  # noqa: N806
     except KeyError as exc:
         e = "unknown signature algorithm"
         raise ValueError(e) from exc
 
+    if Signature.pubkey_oid != issuer.public_key_algorithm_oid:
+        e = "issuer public key and response signature algorithm mismatch"
+        raise ValueError(e)
+
     try:
         Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
     except InvalidSignature as exc:
-- 
2.43.0


From ca89961f2b9a84c8e6c306eb92591c3a5aa5cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 27/61] fix: don't evict a fresh OCSP response because of a
 former one

Uncached and expired entries remained inside of the heap: when evicted,
they discarded the response that was cached since for the same request,
no matter when this one expires.
---
 src/siotls/ocsp_over_http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 84f2a1f..c2b3a99 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -69,7 +69,10 @@ def cache(until, ocsp_req, ocsp_res):
     if ocsp_req in _cache:
         return
     while len(_cache_limits) >= CACHE_ENTRIES:
-        uncache(heapq.heappop(_cache_limits)[1])
+        old_until, old_ocsp_req = heapq.heappop(_cache_limits)
+        if _cache.get(old_ocsp_req, (None, None))[1] == old_until:
+            uncache(old_ocsp_req)
+        # else: was uncached meanwhile (and maybe cached again since)
     heapq.heappush(_cache_limits, (until, ocsp_req))
     _cache[ocsp_req] = (ocsp_res, until)
 
-- 
2.43.0


From ff2c476d97b5fc696f8b8b38761a75df6261d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 28/61] fix: two threads may discard the same expired OCSP
 response

The second one got a KeyError.
---
 src/siotls/ocsp_over_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index c2b3a99..2b7e37f 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -23,7 +23,7 @@ def request(url, ocsp_req):
             logger.debug('cache hit')
             return cached_ocsp_res
         logger.debug('cache expired')
-        del _cache[ocsp_req]
+        uncache(ocsp_req)
     else:
         logger.debug('cache miss')
 
-- 
2.43.0


From 6bcef797146d37784bad1c019c32f4e2fae36c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 29/61] fix: OCSP responders cannot redirect to something else
 than http

The restriction was on the url of the certificate, but redirections to
https and ftp were followed.
---
 src/siotls/ocsp_over_http.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 2b7e37f..4345dd8 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -2,7 +2,7 @@ import heapq
 import logging
 from datetime import datetime
 from urllib.parse import urlsplit
-from urllib.request import Request, urlopen
+from urllib.request import HTTPRedirectHandler, Request, build_opener
 
 import siotls
 
@@ -16,6 +16,15 @@ TIMEOUT = 1
 _cache = {}
 _cache_limits = []
 
+class _HTTPOnlyRedirectHandler(HTTPRedirectHandler):
+    def redirect_request(self, req, fp, code, msg, headers, newurl):
+        if urlsplit(newurl).scheme != 'http':
+            e = "url scheme must be http"
+            raise ValueError(e)
+        return super().redirect_request(req, fp, code, msg, headers, newurl)
+
+_opener = build_opener(_HTTPOnlyRedirectHandler)
+
 def request(url, ocsp_req):
     cached_ocsp_res, cached_until = _cache.get(ocsp_req, (None, None))
     if cached_ocsp_res:
@@ -48,7 +57,7 @@ def request(url, ocsp_req):
             'User-Agent': USER_AGENT,
         }
     )
-    http_res = urlopen(http_req, timeout=TIMEOUT)  # noqa: S310
+    http_res = _opener.open(http_req, timeout=TIMEOUT)
     # timeout is per recv, not globally, it can be abused to DOS
 
     content_type = http_res.getheader('Content-Type', 'application/ocsp-response')
-- 
2.43.0


From 741a62e7ff0aa52c17f945323dd6deae01480f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 30/61] fix: an unavailable OCSP responder is no internal error

Server side the handshake goes on without stapled status, like it
already did for invalid statuses, instead of refusing every client as
long as the responder is down. Client side the certificate is refused
with a proper alert.
---
 src/siotls/states/client/wait_certificate.py  | 6 +++++-
 src/siotls/states/server/wait_client_hello.py | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index c699533..b9cf5a0 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -114,7 +114,11 @@ class ClientWaitCertificate(State):
                     raise alerts.BadCertificate from exc
             elif self.ocsp_service and (ocsp_url := get_ocsp_url(entry.certificate)):
                 ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
-                ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+                try:
+                    ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+                except Exception as exc:
+                    e = "the online status of a certificate is unavailable"
+                    raise alerts.BadCertificate(e) from exc
                 try:
                     valid_until = validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
                 except ValueError as exc:
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 679a9ee..bebd6ad 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -174,15 +174,15 @@ class ServerWaitClientHello(State):
             ):
                 subject, issuer = self.config.certificate_chain[:2]
                 ocsp_req = make_ocsp_request(subject, issuer)
-                ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 try:
+                    ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                     valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
-                except ValueError as exc:
+                except Exception as exc:  # noqa: BLE001
                     self.ocsp_service.uncache(ocsp_req)
                     w =("error while validating the online status of "
                         "this server certificate, client likely to "
                         "reject this connection: %s")
-                    logger.warning(w, exc.args[0])
+                    logger.warning(w, exc)
                 else:
                     self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
                     certificate_list[0].extensions[
-- 
2.43.0


From c672ebf689d9fd2a19ed9dfa6f8709a2fb720dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 31/61] fix: don't copy the whole input buffer for every record

---
 src/siotls/connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 734f03b..2361334 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -241,7 +241,7 @@ class TLSConnection:
 
     def _read_next_record(self):
         while startswith_change_cipher_spec(self._input_data):
-            self._input_data = self._input_data[6:]
+            del self._input_data[:6]
 
         if len(self._input_data) < 5:  # noqa: PLR2004
             return None
@@ -262,7 +262,7 @@ class TLSConnection:
 
         header = self._input_data[:5]
         fragment = self._input_data[5:content_length + 5]
-        self._input_data = self._input_data[content_length + 5:]
+        del self._input_data[:content_length + 5]
         if self._cipher.must_decrypt:
             content_type, fragment = self._decrypt(header, fragment)
 
@@ -318,7 +318,7 @@ class TLSConnection:
         if len(self._input_handshake) < handshake_length:
             return None
         handshake = self._input_handshake[:handshake_length]
-        self._input_handshake = self._input_handshake[handshake_length:]
+        del self._input_handshake[:handshake_length]
         return handshake
 
     def _send_content(self, content: Content):
-- 
2.43.0


From 8e1c3bd2c14b2c5c351fc214f5c3e3015484b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 32/61] fix: refuse vectors whose length is out of bounds

The bounds are those already written in the _struct of each message and
extension.
---
 .../contents/handshakes/client_hello.py       |  2 +-
 .../contents/handshakes/extensions/alpn.py    |  2 +-
 .../extensions/certificate_authorities.py     |  2 +-
 .../handshakes/extensions/certificate_type.py |  2 +-
 .../contents/handshakes/extensions/cookie.py  |  2 +-
 .../handshakes/extensions/key_share.py        |  4 ++--
 .../handshakes/extensions/oid_filters.py      |  2 +-
 .../handshakes/extensions/pre_shared_key.py   |  6 +++---
 .../extensions/psk_key_exchange_modes.py      |  2 +-
 .../handshakes/extensions/server_name.py      |  4 ++--
 .../extensions/signature_algorithms.py        |  2 +-
 .../handshakes/extensions/status_request.py   |  4 ++--
 .../handshakes/extensions/supported_groups.py |  2 +-
 .../extensions/supported_versions.py          |  2 +-
 .../handshakes/extensions/use_srtp.py         |  2 +-
 .../contents/handshakes/new_session_ticket.py |  2 +-
 .../contents/handshakes/server_hello.py       |  2 +-
 src/siotls/serial.py                          | 19 +++++++++++++------
 18 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/siotls/contents/handshakes/client_hello.py b/src/siotls/contents/handshakes/client_hello.py
index e59e765..d0c6472 100644
--- a/src/siotls/contents/handshakes/client_hello.py
+++ b/src/siotls/contents/handshakes/client_hello.py
@@ -88,7 +88,7 @@ class ClientHello(Handshake, SerializableBody):
         legacy_version = TLSVersion(legacy_version)
 
         random = stream.read_exactly(32)
-        legacy_session_id = stream.read_var(1)
+        legacy_session_id = stream.read_var(1, maxlen=32)
 
         cipher_suites = [
             try_cast(CipherSuites, cipher_suite)
diff --git a/src/siotls/contents/handshakes/extensions/alpn.py b/src/siotls/contents/handshakes/extensions/alpn.py
index 5061a81..56af095 100644
--- a/src/siotls/contents/handshakes/extensions/alpn.py
+++ b/src/siotls/contents/handshakes/extensions/alpn.py
@@ -31,7 +31,7 @@ class ALPN(Extension, SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         protocol_name_list = [
             try_cast(ALPNProtocol, protocol.decode())
-            for protocol in stream.read_listvar(2, 1)
+            for protocol in stream.read_listvar(2, 1, minlen=2, minitemlen=1)
             if all(ord(' ') <= char <= ord('~') for char in protocol)  # skip GREASE
         ]
         return cls(protocol_name_list)
diff --git a/src/siotls/contents/handshakes/extensions/certificate_authorities.py b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
index 8061245..794f904 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_authorities.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
@@ -29,7 +29,7 @@ class CertificateAuthorities(Extension, SerializableBody):
 
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
-        autorities = stream.read_listvar(2, 2)
+        autorities = stream.read_listvar(2, 2, minlen=3, minitemlen=1)
         return cls(autorities)
 
     def serialize_body(self):
diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index c30b499..d3d9289 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -25,7 +25,7 @@ class _CertificateTypeRequest(SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         certificate_types = [
             try_cast(CertificateType, ct)
-            for ct in stream.read_listint(1, 1)
+            for ct in stream.read_listint(1, 1, minlen=1)
         ]
         try:
             return cls(certificate_types)
diff --git a/src/siotls/contents/handshakes/extensions/cookie.py b/src/siotls/contents/handshakes/extensions/cookie.py
index d58a9b6..c3ace38 100644
--- a/src/siotls/contents/handshakes/extensions/cookie.py
+++ b/src/siotls/contents/handshakes/extensions/cookie.py
@@ -28,7 +28,7 @@ class Cookie(Extension, SerializableBody):
 
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
-        cookie = stream.read_var(2)
+        cookie = stream.read_var(2, minlen=1)
         return cls(cookie)
 
     def serialize_body(self):
diff --git a/src/siotls/contents/handshakes/extensions/key_share.py b/src/siotls/contents/handshakes/extensions/key_share.py
index 5ad8cd6..956c481 100644
--- a/src/siotls/contents/handshakes/extensions/key_share.py
+++ b/src/siotls/contents/handshakes/extensions/key_share.py
@@ -35,7 +35,7 @@ class KeyShareRequest(Extension, SerializableBody):
         list_stream = SerialIO(stream.read_var(2))
         while not list_stream.is_eof():
             key_exchange = try_cast(NamedGroup, list_stream.read_int(2))
-            key_share = list_stream.read_var(2)
+            key_share = list_stream.read_var(2, minlen=1)
             if key_exchange in client_shares:
                 e = "cannot share different keys for a same group"
                 raise alerts.IllegalParameter(e)
@@ -109,7 +109,7 @@ class KeyShareResponse(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         group = try_cast(NamedGroup, stream.read_int(2))
-        key_exchange = stream.read_var(2)
+        key_exchange = stream.read_var(2, minlen=1)
         return cls(group, key_exchange)
 
     def serialize_body(self):
diff --git a/src/siotls/contents/handshakes/extensions/oid_filters.py b/src/siotls/contents/handshakes/extensions/oid_filters.py
index 74abc4e..feb5cac 100644
--- a/src/siotls/contents/handshakes/extensions/oid_filters.py
+++ b/src/siotls/contents/handshakes/extensions/oid_filters.py
@@ -38,7 +38,7 @@ class OIDFilters(Extension, SerializableBody):
         filters = []
         list_stream = SerialIO(stream.read_var(2))
         while not list_stream.is_eof():
-            cert_ext_oid = list_stream.read_var(1)
+            cert_ext_oid = list_stream.read_var(1, minlen=1)
             cert_ext_values = list_stream.read_var(2)
             filters.append(OIDFilter(cert_ext_oid, cert_ext_values))
         return cls(filters)
diff --git a/src/siotls/contents/handshakes/extensions/pre_shared_key.py b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
index 7e51fc6..27571f1 100644
--- a/src/siotls/contents/handshakes/extensions/pre_shared_key.py
+++ b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
@@ -41,13 +41,13 @@ class PreSharedKeyRequest(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         identities = []
-        list_stream = SerialIO(stream.read_var(2))
+        list_stream = SerialIO(stream.read_var(2, minlen=7))
         while not list_stream.is_eof():
-            identify = list_stream.read_var(2)
+            identify = list_stream.read_var(2, minlen=1)
             obfuscated_ticket_age = list_stream.read_int(4)
             identities.append(PskIdentity(identify, obfuscated_ticket_age))
 
-        binders = stream.read_listvar(2, 1)
+        binders = stream.read_listvar(2, 1, minlen=33, minitemlen=32)
 
         return cls(identities, binders)
 
diff --git a/src/siotls/contents/handshakes/extensions/psk_key_exchange_modes.py b/src/siotls/contents/handshakes/extensions/psk_key_exchange_modes.py
index 6da66ca..345b99d 100644
--- a/src/siotls/contents/handshakes/extensions/psk_key_exchange_modes.py
+++ b/src/siotls/contents/handshakes/extensions/psk_key_exchange_modes.py
@@ -27,7 +27,7 @@ class PskKeyExchangeModes(Extension, SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         ke_modes = [
             try_cast(PskKeyExchangeMode, ke_mode)
-            for ke_mode in stream.read_listint(1, 1)
+            for ke_mode in stream.read_listint(1, 1, minlen=1)
         ]
         return cls(ke_modes)
 
diff --git a/src/siotls/contents/handshakes/extensions/server_name.py b/src/siotls/contents/handshakes/extensions/server_name.py
index 4639f55..b694344 100644
--- a/src/siotls/contents/handshakes/extensions/server_name.py
+++ b/src/siotls/contents/handshakes/extensions/server_name.py
@@ -68,7 +68,7 @@ class HostName(ServerName, SerializableBody):
 
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
-        byte_host_name = stream.read_var(2)
+        byte_host_name = stream.read_var(2, minlen=1)
         try:
             return cls(idna.decode(byte_host_name))
         except idna.IDNAError as exc:
@@ -109,7 +109,7 @@ class ServerNameListRequest(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):
         server_name_list = []
-        list_stream = SerialIO(stream.read_var(2))
+        list_stream = SerialIO(stream.read_var(2, minlen=1))
         while not list_stream.is_eof():
             with contextlib.suppress(UnicodeError):
                 server_name = ServerName.parse(list_stream, **kwargs)
diff --git a/src/siotls/contents/handshakes/extensions/signature_algorithms.py b/src/siotls/contents/handshakes/extensions/signature_algorithms.py
index 4487035..375f1cc 100644
--- a/src/siotls/contents/handshakes/extensions/signature_algorithms.py
+++ b/src/siotls/contents/handshakes/extensions/signature_algorithms.py
@@ -22,7 +22,7 @@ class _SignAlgoMixin(SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         supported_signature_algorithms = [
             try_cast(SignatureScheme, signature_scheme)
-            for signature_scheme in stream.read_listint(2, 2)
+            for signature_scheme in stream.read_listint(2, 2, minlen=2)
         ]
         return cls(supported_signature_algorithms)
 
diff --git a/src/siotls/contents/handshakes/extensions/status_request.py b/src/siotls/contents/handshakes/extensions/status_request.py
index 4d1e124..f491f3c 100644
--- a/src/siotls/contents/handshakes/extensions/status_request.py
+++ b/src/siotls/contents/handshakes/extensions/status_request.py
@@ -72,7 +72,7 @@ class OCSPStatusRequest(CertificateStatusRequest):
 
     @classmethod
     def parse_bodybody(cls, stream, **kwargs):  # noqa: ARG003
-        responder_id_list = stream.read_listvar(2, 2)
+        responder_id_list = stream.read_listvar(2, 2, minitemlen=1)
         request_extension = stream.read_var(2)
         return cls(responder_id_list, request_extension)
 
@@ -145,7 +145,7 @@ class OCSPStatus(CertificateStatus):
 
     @classmethod
     def parse_bodybody(cls, stream):
-        return cls(stream.read_var(3))
+        return cls(stream.read_var(3, minlen=1))
 
     def serialize_bodybody(self):
         return b''.join([
diff --git a/src/siotls/contents/handshakes/extensions/supported_groups.py b/src/siotls/contents/handshakes/extensions/supported_groups.py
index 3ba95f5..6c926be 100644
--- a/src/siotls/contents/handshakes/extensions/supported_groups.py
+++ b/src/siotls/contents/handshakes/extensions/supported_groups.py
@@ -31,7 +31,7 @@ class SupportedGroups(Extension, SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         named_group_list = [
             try_cast(NamedGroup, named_group)
-            for named_group in stream.read_listint(2, 2)
+            for named_group in stream.read_listint(2, 2, minlen=2)
         ]
         return cls(named_group_list)
 
diff --git a/src/siotls/contents/handshakes/extensions/supported_versions.py b/src/siotls/contents/handshakes/extensions/supported_versions.py
index 2afa44b..494ac3d 100644
--- a/src/siotls/contents/handshakes/extensions/supported_versions.py
+++ b/src/siotls/contents/handshakes/extensions/supported_versions.py
@@ -28,7 +28,7 @@ class SupportedVersionsRequest(Extension, SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         versions = [
             try_cast(TLSVersion, version)
-            for version in stream.read_listint(1, 2)
+            for version in stream.read_listint(1, 2, minlen=2)
         ]
         return cls(versions)
 
diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index d5293b8..6688a4c 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -36,7 +36,7 @@ class UseSRTP(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         # cannot use read_listint as the type in uint8[2], not uint16
-        it = iter(stream.read_var(2))
+        it = iter(stream.read_var(2, minlen=2))
         protection_profiles = list(zip(it, it, strict=True))
         mki = stream.read_var(1)
 
diff --git a/src/siotls/contents/handshakes/new_session_ticket.py b/src/siotls/contents/handshakes/new_session_ticket.py
index df631a5..9edac04 100644
--- a/src/siotls/contents/handshakes/new_session_ticket.py
+++ b/src/siotls/contents/handshakes/new_session_ticket.py
@@ -41,7 +41,7 @@ class NewSessionTicket(Handshake, SerializableBody):
         ticket_lifetime = stream.read_int(4)
         ticket_age_add = stream.read_int(4)
         ticket_nonce = stream.read_var(1)
-        ticket = stream.read_var(2)
+        ticket = stream.read_var(2, minlen=1)
 
         extensions = []
         list_stream = SerialIO(stream.read_var(2))
diff --git a/src/siotls/contents/handshakes/server_hello.py b/src/siotls/contents/handshakes/server_hello.py
index ec38663..c7e2748 100644
--- a/src/siotls/contents/handshakes/server_hello.py
+++ b/src/siotls/contents/handshakes/server_hello.py
@@ -65,7 +65,7 @@ class ServerHello(Handshake, SerializableBody):
         if random == HelloRetryRequest.random:
             cls = HelloRetryRequest
 
-        legacy_session_id_echo = stream.read_var(1)
+        legacy_session_id_echo = stream.read_var(1, maxlen=32)
 
         cipher_suite = try_cast(CipherSuites, stream.read_int(2))
 
diff --git a/src/siotls/serial.py b/src/siotls/serial.py
index f916d5e..9719a03 100644
--- a/src/siotls/serial.py
+++ b/src/siotls/serial.py
@@ -78,16 +78,23 @@ class SerialIO(io.BytesIO):
     def write_int(self, n, i):
         self.write(i.to_bytes(n, 'big'))
 
-    def read_var(self, n):
+    def _read_length(self, n, minlen, maxlen=float('+inf')):
         length = self.read_int(n)
+        if not minlen <= length <= maxlen:
+            e = f"expected from {minlen} to {maxlen} bytes but found {length}"
+            raise TLSBufferError(e)
+        return length
+
+    def read_var(self, n, minlen=0, maxlen=float('+inf')):
+        length = self._read_length(n, minlen, maxlen)
         return self.read_exactly(length)
 
     def write_var(self, n, b):
         self.write_int(n, len(b))
         self.write(b)
 
-    def read_listint(self, nlist, nitem):
-        length = self.read_int(nlist)
+    def read_listint(self, nlist, nitem, minlen=0):
+        length = self._read_length(nlist, minlen)
         if length % nitem != 0:
             e =(f"cannot read {length // nitem + 1} uint{nitem * 8}_t out of "
                 f"{length} bytes")
@@ -104,11 +111,11 @@ class SerialIO(io.BytesIO):
         for item in items:
             self.write_int(nitem, item)
 
-    def read_listvar(self, nlist, nitem):
+    def read_listvar(self, nlist, nitem, minlen=0, minitemlen=0):
         items = []
-        list_stream = type(self)(self.read_var(nlist))
+        list_stream = type(self)(self.read_var(nlist, minlen))
         while not list_stream.is_eof():
-            items.append(list_stream.read_var(nitem))
+            items.append(list_stream.read_var(nitem, minitemlen))
         return items
 
     def write_listvar(self, nlist, nitem, items):
-- 
2.43.0


From e9edea87f3fbd18155c71c858f2b89d8790c1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 33/61] fix: the cookie extension doesn't exist in ServerHello

---
 src/siotls/contents/handshakes/extensions/cookie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/cookie.py b/src/siotls/contents/handshakes/extensions/cookie.py
index c3ace38..e1ed48b 100644
--- a/src/siotls/contents/handshakes/extensions/cookie.py
+++ b/src/siotls/contents/handshakes/extensions/cookie.py
@@ -12,7 +12,6 @@ class Cookie(Extension, SerializableBody):
     extension_type = ExtensionType.COOKIE
     _handshake_types = (
         HandshakeType.CLIENT_HELLO,
-        HandshakeType.SERVER_HELLO,
         HandshakeType_.HELLO_RETRY_REQUEST
     )
 
-- 
2.43.0


From efc2fc55897d1f74368178f450e658004af8b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 34/61] fix: status_request is empty in CertificateRequest

---
 .../handshakes/extensions/__init__.py         |  1 +
 .../handshakes/extensions/status_request.py   | 23 +++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index b23881c..dc62555 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -151,6 +151,7 @@ from .signed_certificate_timestamp import SignedCertificateTimestamp
 from .status_request import (
     CertificateStatus,
     CertificateStatusRequest,
+    ClientCertificateStatusRequest,
     OCSPStatus,
     OCSPStatusRequest,
 )
diff --git a/src/siotls/contents/handshakes/extensions/status_request.py b/src/siotls/contents/handshakes/extensions/status_request.py
index f491f3c..2f647af 100644
--- a/src/siotls/contents/handshakes/extensions/status_request.py
+++ b/src/siotls/contents/handshakes/extensions/status_request.py
@@ -12,10 +12,7 @@ _status_request_registry = {}
 @dataclasses.dataclass(init=False)
 class CertificateStatusRequest(Extension, SerializableBody):
     extension_type = ExtensionType.STATUS_REQUEST
-    _handshake_types = (
-        HandshakeType.CLIENT_HELLO,
-        HandshakeType.CERTIFICATE_REQUEST
-    )
+    _handshake_types = (HandshakeType.CLIENT_HELLO,)
 
     _struct = textwrap.dedent("""
         struct {
@@ -90,6 +87,24 @@ class OCSPStatusRequest(CertificateStatusRequest):
         ])
 
 
+@dataclasses.dataclass(init=False)
+class ClientCertificateStatusRequest(Extension, SerializableBody):
+    extension_type = ExtensionType.STATUS_REQUEST
+    _handshake_types = (HandshakeType.CERTIFICATE_REQUEST,)
+
+    # The mere presence of the extension is enough
+    _struct = ""
+
+    def __init__(self):
+        pass
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        return cls()
+
+    def serialize_body(self):
+        return b''
+
 
 _status_registry = {}
 
-- 
2.43.0


From 4423dc8db2fb05d0c5ab14a3e00a0aeca89d8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 35/61] fix: certificates carry a list of signed certificate
 timestamps

---
 .../handshakes/extensions/__init__.py         |  5 ++-
 .../signed_certificate_timestamp.py           | 32 +++++++++++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index dc62555..e1fcb66 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -147,7 +147,10 @@ from .pre_shared_key import PreSharedKeyRequest, PreSharedKeyResponse, PskIdenti
 from .psk_key_exchange_modes import PskKeyExchangeModes
 from .server_name import HostName, ServerName, ServerNameListRequest, ServerNameResponse
 from .signature_algorithms import SignatureAlgorithms, SignatureAlgorithmsCert
-from .signed_certificate_timestamp import SignedCertificateTimestamp
+from .signed_certificate_timestamp import (
+    SignedCertificateTimestamp,
+    SignedCertificateTimestampList,
+)
 from .status_request import (
     CertificateStatus,
     CertificateStatusRequest,
diff --git a/src/siotls/contents/handshakes/extensions/signed_certificate_timestamp.py b/src/siotls/contents/handshakes/extensions/signed_certificate_timestamp.py
index 2ca10aa..5e9ff89 100644
--- a/src/siotls/contents/handshakes/extensions/signed_certificate_timestamp.py
+++ b/src/siotls/contents/handshakes/extensions/signed_certificate_timestamp.py
@@ -1,7 +1,8 @@
 import dataclasses
+import textwrap
 
 from siotls.iana import ExtensionType, HandshakeType
-from siotls.serial import SerializableBody
+from siotls.serial import SerialIO, SerializableBody
 
 from . import Extension
 
@@ -11,7 +12,6 @@ class SignedCertificateTimestamp(Extension, SerializableBody):
     extension_type = ExtensionType.SIGNED_CERTIFICATE_TIMESTAMP
     _handshake_types = (
         HandshakeType.CLIENT_HELLO,
-        HandshakeType.CERTIFICATE,
         HandshakeType.CERTIFICATE_REQUEST
     )
 
@@ -27,3 +27,31 @@ class SignedCertificateTimestamp(Extension, SerializableBody):
 
     def serialize_body(self):
         return b''
+
+
+@dataclasses.dataclass(init=False)
+class SignedCertificateTimestampList(Extension, SerializableBody):
+    extension_type = ExtensionType.SIGNED_CERTIFICATE_TIMESTAMP
+    _handshake_types = (HandshakeType.CERTIFICATE,)
+
+    _struct = textwrap.dedent("""
+        opaque SerializedSCT<1..2^16-1>;
+
+        struct {
+            SerializedSCT sct_list<1..2^16-1>;
+        } SignedCertificateTimestampList;
+    """).strip('\n')
+    sct_list: list[bytes]
+
+    def __init__(self, sct_list):
+        self.sct_list = sct_list
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        sct_list = stream.read_listvar(2, 2, minlen=1, minitemlen=1)
+        return cls(sct_list)
+
+    def serialize_body(self):
+        stream = SerialIO()
+        stream.write_listvar(2, 2, self.sct_list)
+        return stream.getvalue()
-- 
2.43.0


From 2b6064edc02243352f61814999cb64f7d243add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 36/61] fix: the closure alerts have no representation and
 cannot be compared

---
 src/siotls/contents/alerts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/contents/alerts.py b/src/siotls/contents/alerts.py
index 8cc376b..a4b72f3 100644
--- a/src/siotls/contents/alerts.py
+++ b/src/siotls/contents/alerts.py
@@ -62,7 +62,8 @@ class Alert(Content, Serializable, metaclass=RegistryMeta):
             cls._registry[cls.description] = cls
 
     def __init__(self, *args, level=None):
-        super().__init__(*args)
+        super().__init__()
+        self.args = args  # the warning alerts are no exceptions
         if level is not None:
             self.level = level
 
-- 
2.43.0


From 78691047fbb6db4fd2cff0d3e5a24e42dbd7a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 37/61] fix: refuse compressed elliptic curve points

---
 src/siotls/crypto/key_exchanges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index 88e9df4..b0c043f 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -61,6 +61,9 @@ class _SECMixin:
 
     @classmethod
     def resume(cls, private_key, peer_key_share):
+        if peer_key_share[:1] != b'\x04':
+            e = "the peer's key is not an uncompressed point"
+            raise ValueError(e)
         peer_public_key = ec.EllipticCurvePublicKey.from_encoded_point(
             cls.curve(), peer_key_share
         )
-- 
2.43.0


From 908153dd92b364c6e0d16e3177f6497e0825a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 38/61] fix: refuse ffdhe keys which are not as long as the
 prime

---
 src/siotls/crypto/key_exchanges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index b0c043f..d32e85a 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -99,6 +99,9 @@ class _FFDHEMixin:
         if len(peer_key_share.lstrip(b'\x00')) < cls.min_key_length:
             e = "the peer's key is too short"
             raise alerts.InsufficientSecurity(e)
+        if len(peer_key_share) != cls.p_length:
+            e = "the peer's key is not as long as the group's prime"
+            raise ValueError(e)
 
         y = int.from_bytes(peer_key_share, 'big')
         if not (1 < y < cls.p - 1):
-- 
2.43.0


From a1cc96e1dcbfed0857820a9bc394fb53e3681fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 39/61] fix: refuse RSA signatures which are not as long as the
 modulus

---
 src/siotls/crypto/signatures.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 96226de..2cc854d 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -3,6 +3,7 @@
 from abc import abstractmethod
 from typing import ClassVar
 
+from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat._oid import PublicKeyAlgorithmOID, SignatureAlgorithmOID
 from cryptography.hazmat.primitives import hashes
 from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, types
@@ -83,6 +84,10 @@ class _RSAMixin:
         return self.key.sign(message, self.padding, self.digestmod)
 
     def verify(self, signature, message):
+        # openssl ignores the leading zeros, RFC 8017 section 8 doesn't
+        if len(signature) != (self.key.key_size + 7) // 8:
+            e = "the signature is not as long as the modulus"
+            raise InvalidSignature(e)
         self.key.verify(signature, message, self.padding, self.digestmod)
 
 class TLS_RSA_PKCS1_SHA256(_RSAMixin, TLSSignatureSuite):
-- 
2.43.0


From 69733c81a757ad53e287426491862640efe39e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 40/61] fix: refuse oversized OCSP responses which have no
 content length

---
 src/siotls/ocsp_over_http.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 4345dd8..1bbb6ff 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -71,7 +71,13 @@ def request(url, ocsp_req):
             f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
         raise RuntimeError(e)
 
-    return http_res.read(content_length)
+    # chunked and unframed responses have no content length
+    ocsp_res = http_res.read(OCSP_MAX_RESPONSE_SIZE + 1)
+    if len(ocsp_res) > OCSP_MAX_RESPONSE_SIZE:
+        e =("OCSP response body too large (more than "
+            f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
+        raise RuntimeError(e)
+    return ocsp_res
 
 
 def cache(until, ocsp_req, ocsp_res):
-- 
2.43.0


From 5e3a0d49b94ef7162ad5d2f37c0b62ed99f019c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 41/61] fix: answer heartbeats which only fit in a record
 without padding

---
 src/siotls/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 2361334..3dc2c27 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -342,7 +342,7 @@ class TLSConnection:
             self._transcript.update(data, self.config.side, content.msg_type)
 
         fragment_length = self.max_fragment_length
-        if self._cipher.must_encrypt:
+        if self._cipher.must_encrypt and content.can_fragment:
             # room for content-type and aead's additionnal data
             fragment_length -= 1 + self._cipher.tag_length
 
@@ -387,7 +387,9 @@ class TLSConnection:
 
         for fragment in fragments:
             fragment_length = len(fragment) + 1 + self._cipher.tag_length
-            padding = b'\x00' * (-fragment_length % chunk_size)
+            padding = b''
+            if fragment_length <= max_fragment_length:
+                padding = b'\x00' * (-fragment_length % chunk_size)
             data = b''.join([
                 fragment,
                 content_type.to_bytes(1, 'big'),
-- 
2.43.0


From 6f1f0bf476925ae26b7b1e45426cec67aabd4e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 42/61] fix: abort with unexpected_message upon unknown record
 types

---
 src/siotls/contents/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/__init__.py b/src/siotls/contents/__init__.py
index 1a5d2ca..c1c1af1 100644
--- a/src/siotls/contents/__init__.py
+++ b/src/siotls/contents/__init__.py
@@ -16,10 +16,10 @@ class Content:
         try:
             return _content_registry[ContentType(content_type)]
         except (ValueError, KeyError) as exc:
-            raise DecodeError(*exc.args) from exc
+            raise UnexpectedMessage(*exc.args) from exc
 
 
-from .alerts import Alert, DecodeError
+from .alerts import Alert, UnexpectedMessage
 from .application_data import ApplicationData
 from .change_cipher_spec import ChangeCipherSpec
 from .handshakes import Handshake
-- 
2.43.0


From f6c2f3b81d67f50f17414fbc957ac6e0ab310c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 43/61] fix: abort with unexpected_message upon empty alert
 records

---
 src/siotls/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 3dc2c27..c79448d 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -302,6 +302,9 @@ class TLSConnection:
                     e =(f"expected {ContentType.HANDSHAKE} continuation "
                         f"record but {content_type} found")
                     raise alerts.UnexpectedMessage(e)
+                if content_type == ContentType.ALERT and not fragment:
+                    e = f"empty {ContentType.ALERT} record"
+                    raise alerts.UnexpectedMessage(e)
                 return content_type, fragment
 
             if not fragment:
-- 
2.43.0


From 512132afb5189c9f7ca736c61d083fa863874d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 44/61] fix: abort with decode_error upon empty server
 certificate lists

---
 src/siotls/states/client/wait_certificate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index b9cf5a0..535d28a 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -35,7 +35,7 @@ class ClientWaitCertificate(State):
 
         if not content.certificate_list:
             e = "missing certificate"
-            raise alerts.BadCertificate(e)
+            raise alerts.DecodeError(e)
         self._check_certificate_types(content.certificate_list)
         match self.nconfig.server_certificate_type:
             case CertificateType.X509:
-- 
2.43.0


From f11ac46f089ae7fd3dbe5a254031d956d751e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 45/61] fix: abort with illegal_parameter upon selected
 versions prior to TLS 1.3

---
 .../contents/handshakes/extensions/supported_versions.py       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/supported_versions.py b/src/siotls/contents/handshakes/extensions/supported_versions.py
index 494ac3d..24f9e8d 100644
--- a/src/siotls/contents/handshakes/extensions/supported_versions.py
+++ b/src/siotls/contents/handshakes/extensions/supported_versions.py
@@ -64,10 +64,9 @@ class SupportedVersionsResponse(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         try:
-            selected_version = TLSVersion(stream.read_int(2))
+            return cls(TLSVersion(stream.read_int(2)))
         except ValueError as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
-        return cls(selected_version)
 
     def serialize_body(self):
         return self.selected_version.to_bytes(2, 'big')
-- 
2.43.0


From 228a1802ed9170dac0ba547fa39df1f3b6fa9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 46/61] fix: abort with illegal_parameter upon unknown
 certificate status types

---
 src/siotls/contents/handshakes/extensions/status_request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/status_request.py b/src/siotls/contents/handshakes/extensions/status_request.py
index 2f647af..c812cd4 100644
--- a/src/siotls/contents/handshakes/extensions/status_request.py
+++ b/src/siotls/contents/handshakes/extensions/status_request.py
@@ -37,7 +37,7 @@ class CertificateStatusRequest(Extension, SerializableBody):
         except ValueError as exc:
             # Unlike for ServerName, nothing states how to process
             # unknown certificate status types, crash for now
-            raise alerts.UnrecognizedName(*exc.args) from exc
+            raise alerts.IllegalParameter(*exc.args) from exc
         return cls.parse_bodybody(stream, **kwargs)
 
     def serialize_body(self):
@@ -138,7 +138,7 @@ class CertificateStatus(Extension, SerializableBody):
         except ValueError as exc:
             # Unlike for ServerName, nothing states how to process
             # unknown certificate status types, crash for now
-            raise alerts.UnrecognizedName(*exc.args) from exc
+            raise alerts.IllegalParameter(*exc.args) from exc
         return cls.parse_bodybody(stream, **kwargs)
 
     def serialize_body(self):
-- 
2.43.0


From 7f689352a4a60fa51db9a87bd7968c8c82a6bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 47/61] fix: abort with missing_extension upon certificate
 requests without signature algorithms

---
 src/siotls/contents/handshakes/certificate_request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/certificate_request.py b/src/siotls/contents/handshakes/certificate_request.py
index 704bc12..2b62838 100644
--- a/src/siotls/contents/handshakes/certificate_request.py
+++ b/src/siotls/contents/handshakes/certificate_request.py
@@ -43,7 +43,7 @@ class CertificateRequest(Handshake, SerializableBody):
         try:
             return cls(certificate_request_context, extensions)
         except ValueError as exc:
-            raise alerts.IllegalParameter(*exc.args) from exc
+            raise alerts.MissingExtension(*exc.args) from exc
 
     def serialize_body(self):
         extensions = b''.join(ext.serialize() for ext in self.extensions.values())
-- 
2.43.0


From f8f8ccd3221f41490e3f571268e9a5565c2f386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 48/61] fix: client: refuse a session id it didn't send

---
 src/siotls/states/client/wait_server_hello.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index bfc3527..5719d79 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -30,6 +30,9 @@ class ClientWaitServerHello(State):
             e =(f"the server's selected {content.cipher_suite} wasn't offered "
                 f"in ClientHello: {self.config.cipher_suites}")
             raise alerts.IllegalParameter(e)
+        if content.legacy_session_id_echo:
+            e = "the server's session id wasn't sent in ClientHello"
+            raise alerts.IllegalParameter(e)
 
         if self._is_first_server_hello:
             self.nconfig = TLSNegotiatedConfiguration()
-- 
2.43.0


From 25e317074a0f231a1b7f9e3a85db7aedbef60e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 49/61] fix: client: verify the version selected by a
 HelloRetryRequest

---
 src/siotls/states/client/wait_server_hello.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 5719d79..4c99cda 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -54,6 +54,9 @@ class ClientWaitServerHello(State):
     def _process_hello_retry_request(self, hello_retry_request):
         from . import ClientStart
 
+        self._negociate_supported_versions(
+            hello_retry_request.extensions.get(ExtensionType.SUPPORTED_VERSIONS))
+
         key_share = hello_retry_request.extensions.get(ExtensionType.KEY_SHARE)
         if not key_share:
             e = "missing Key Share in HelloRetryRequest"
-- 
2.43.0


From 239bdac054fba07fd14e1d84312b252d76993012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 50/61] fix: client: refuse the extensions it didn't offer

---
 src/siotls/connection.py                              |  1 +
 src/siotls/states/client/__init__.py                  | 11 +++++++++++
 src/siotls/states/client/start.py                     |  1 +
 src/siotls/states/client/wait_certificate.py          |  4 +++-
 src/siotls/states/client/wait_encrypted_extensions.py |  4 +++-
 src/siotls/states/client/wait_server_hello.py         |  7 ++++++-
 6 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index c79448d..fcffecd 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -67,6 +67,7 @@ class TLSConnection:
             self.server_hostname = server_hostname
             self._client_unique = secrets.token_bytes(32)
             self._server_unique = None
+            self._offered_extensions = frozenset()
             self._state = states.ClientStart(self)
         else:
             if server_hostname:
diff --git a/src/siotls/states/client/__init__.py b/src/siotls/states/client/__init__.py
index cf4fbbe..7524c2a 100644
--- a/src/siotls/states/client/__init__.py
+++ b/src/siotls/states/client/__init__.py
@@ -30,6 +30,17 @@
 #                       CONNECTED
 
 # isort: skip_file
+from siotls.contents import alerts
+
+
+def check_unsolicited_extensions(extensions, offered_extensions):
+    """ The server can only answer the extensions of ClientHello. """
+    for extension_type in extensions:
+        if extension_type not in offered_extensions:
+            e = f"the server's {extension_type} wasn't offered in ClientHello"
+            raise alerts.UnsupportedExtension(e)
+
+
 from .wait_finished import ClientWaitFinished
 from .wait_certificate_verify import ClientWaitCertificateVerify
 from .wait_certificate import ClientWaitCertificate
diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 244bec3..4f51d9e 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -73,6 +73,7 @@ class ClientStart(State):
         self._key_shares[self._key_exchange] = private_key
         extensions.append(KeyShareRequest({self._key_exchange: my_key_share}))
 
+        self._offered_extensions = frozenset(ext.extension_type for ext in extensions)
         self._send_content(ClientHello(
             self._client_unique, self.config.cipher_suites, extensions,
         ))
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 535d28a..4d4532a 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -15,7 +15,7 @@ from siotls.iana import (
 )
 
 from .. import State
-from . import ClientWaitCertificateVerify
+from . import ClientWaitCertificateVerify, check_unsolicited_extensions
 
 
 class ClientWaitCertificate(State):
@@ -36,6 +36,8 @@ class ClientWaitCertificate(State):
         if not content.certificate_list:
             e = "missing certificate"
             raise alerts.DecodeError(e)
+        for entry in content.certificate_list:
+            check_unsolicited_extensions(entry.extensions, self._offered_extensions)
         self._check_certificate_types(content.certificate_list)
         match self.nconfig.server_certificate_type:
             case CertificateType.X509:
diff --git a/src/siotls/states/client/wait_encrypted_extensions.py b/src/siotls/states/client/wait_encrypted_extensions.py
index 9d4ab8a..a84f15d 100644
--- a/src/siotls/states/client/wait_encrypted_extensions.py
+++ b/src/siotls/states/client/wait_encrypted_extensions.py
@@ -9,7 +9,7 @@ from siotls.iana import (
 )
 
 from .. import State
-from . import ClientWaitCertCr
+from . import ClientWaitCertCr, check_unsolicited_extensions
 
 
 class ClientWaitEncryptedExtensions(State):
@@ -23,6 +23,8 @@ class ClientWaitEncryptedExtensions(State):
             super().process(content)
             return
 
+        check_unsolicited_extensions(content.extensions, self._offered_extensions)
+
         def negociate(ext_name, *args, **kwargs):
             ext_type = getattr(ExtensionType, ext_name.upper())
             ext = content.extensions.get(ext_type)
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 4c99cda..e6902e8 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -4,7 +4,7 @@ from siotls.crypto import TLSCipherSuite, TLSKeyExchange
 from siotls.iana import ContentType, ExtensionType, HandshakeType, HandshakeType_, TLSVersion
 
 from .. import State
-from . import ClientWaitEncryptedExtensions
+from . import ClientWaitEncryptedExtensions, check_unsolicited_extensions
 
 
 class ClientWaitServerHello(State):
@@ -54,6 +54,10 @@ class ClientWaitServerHello(State):
     def _process_hello_retry_request(self, hello_retry_request):
         from . import ClientStart
 
+        check_unsolicited_extensions(
+            hello_retry_request.extensions,
+            self._offered_extensions | {ExtensionType.COOKIE},
+        )
         self._negociate_supported_versions(
             hello_retry_request.extensions.get(ExtensionType.SUPPORTED_VERSIONS))
 
@@ -85,6 +89,7 @@ class ClientWaitServerHello(State):
         self.connection.initiate_connection()
 
     def _process_server_hello(self, server_hello):
+        check_unsolicited_extensions(server_hello.extensions, self._offered_extensions)
         self._server_unique = server_hello.random
         shared_key = self._negociate_extensions(server_hello.extensions)
         self._cipher.skip_early_secrets()
-- 
2.43.0


From 8a332d8069e6a2a5a95f1c461837c63cfe80c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 51/61] fix: look for duplicated extensions in a linear time

A ClientHello with thousands of extensions of a same type kept the server
busy for minutes (and wrote one warning for each pair of them).
---
 .../contents/handshakes/client_hello.py       | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/siotls/contents/handshakes/client_hello.py b/src/siotls/contents/handshakes/client_hello.py
index d0c6472..6d7ac1e 100644
--- a/src/siotls/contents/handshakes/client_hello.py
+++ b/src/siotls/contents/handshakes/client_hello.py
@@ -14,15 +14,16 @@ logger = logging.getLogger(__name__)
 
 
 def _find_duplicated_extension(extensions):
-    for ext_no, ext1 in enumerate(extensions):
-        for ext2 in extensions[ext_no+1:]:
-            if ext1.extension_type != ext2.extension_type:
-                continue
-            if ext1 != ext2:
-                e = f"duplicated extension: {ext1} vs {ext2}"
-                raise ValueError(e)
-            else:
-                logger.warning("duplicated extension: %s", ext1)
+    firsts = {}
+    for ext2 in extensions:
+        ext1 = firsts.get(ext2.extension_type)
+        if ext1 is None:
+            firsts[ext2.extension_type] = ext2
+        elif ext1 != ext2:
+            e = f"duplicated extension: {ext1} vs {ext2}"
+            raise ValueError(e)
+        else:
+            logger.warning("duplicated extension: %s", ext1)
 
 
 @dataclasses.dataclass(init=False)
-- 
2.43.0


From f78e88c055e5fbac9059d2e9de10de516910e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 52/61] fix: client: verify the online statuses along the
 verified chain

The issuer of a certificate is the one the verifier found, it isn't
necessarily the next certificate the server presented. A server could
have presented another certificate which signs that its own one is good.
---
 src/siotls/states/client/wait_certificate.py | 30 +++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 4d4532a..6f6f817 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -70,16 +70,18 @@ class ClientWaitCertificate(State):
             if not self.config.trust_store:
                 e = "expected a raw public key but found a certificate"
                 raise alerts.UnsupportedCertificate(e)
-            self._verify_chain(content.certificate_list)
+            chain = self._verify_chain(content.certificate_list)
             self._verify_revocation(content.certificate_list)
-            self._verify_statuses(content.certificate_list)
+            self._verify_statuses(content.certificate_list, chain)
 
     def _verify_chain(self, certificate_entries):
         leaf, *intermediates = (e.certificate for e in certificate_entries)
         try:
-            self._get_verifier().verify(leaf, intermediates)
+            verified = self._get_verifier().verify(leaf, intermediates)
         except x509.verification.VerificationError as exc:
             raise alerts.BadCertificate from exc
+        # from the leaf up to the root, both included
+        return getattr(verified, 'chain', verified)
 
     def _get_verifier(self):
         if not self.server_hostname:
@@ -104,25 +106,31 @@ class ClientWaitCertificate(State):
                 e = f"{entry.certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-    def _verify_statuses(self, certificate_entries):
-        for entry, issuer in pairwise(certificate_entries):
-            status = entry.extensions.get(ExtensionType.STATUS_REQUEST)
+    def _verify_statuses(self, certificate_entries, chain):
+        # the peer can present its certificates in any order, together
+        # with extraneous ones, only the verified chain tells the issuers
+        statuses = {
+            entry.certificate: entry.extensions.get(ExtensionType.STATUS_REQUEST)
+            for entry in reversed(certificate_entries)
+        }
+        for certificate, issuer in pairwise(chain):
+            status = statuses.get(certificate)
             if status and status.status_type == CertificateStatusType.OCSP:
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = status.ocsp_response
                 try:
-                    validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     raise alerts.BadCertificate from exc
-            elif self.ocsp_service and (ocsp_url := get_ocsp_url(entry.certificate)):
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+            elif self.ocsp_service and (ocsp_url := get_ocsp_url(certificate)):
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 try:
                     ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 except Exception as exc:
                     e = "the online status of a certificate is unavailable"
                     raise alerts.BadCertificate(e) from exc
                 try:
-                    valid_until = validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     self.ocsp_service.uncache(ocsp_req)
                     raise alerts.BadCertificate from exc
-- 
2.43.0


From cd98a93b05a2265657b89cd88af5fdc3e70910c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 53/61] fix: client: ignore the trailing dot of hostnames

---
 src/siotls/states/client/start.py            | 2 +-
 src/siotls/states/client/wait_certificate.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 4f51d9e..a6f07c3 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -51,7 +51,7 @@ class ClientStart(State):
             except ValueError:
                 # server_hostname is not an ip address
                 extensions.append(ServerNameListRequest([
-                    HostName(self.server_hostname)
+                    HostName(self.server_hostname.removesuffix('.'))
                 ]))
             else:
                 # server_hostname is an ip address
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 6f6f817..0e5ab1e 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -92,7 +92,8 @@ class ClientWaitCertificate(State):
         try:
             server_ip = ip_address(self.server_hostname)
         except ValueError:
-            subject = x509.DNSName(idna.encode(self.server_hostname, uts46=True).decode())
+            hostname = self.server_hostname.removesuffix('.')
+            subject = x509.DNSName(idna.encode(hostname, uts46=True).decode())
         else:
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
-- 
2.43.0


From 506bc13a9748ce65fb037985f1fec3d0acaa754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:37 +0000
Subject: [PATCH 54/61] fix: ocsp: accept the responses with many statuses

Each status of a response is about its own certificate, only the one of
the requested certificate matters.
---
 src/siotls/crypto/ocsp.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 837dcb2..b59f33e 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -44,12 +44,23 @@ def make_ocsp_request(certificate, issuer, digestmod=SHA1) -> bytes:
 
 def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C901
     req = load_der_ocsp_request(ocsp_request)
-    res = load_der_ocsp_response(ocsp_response)
+    signed_res = load_der_ocsp_response(ocsp_response)
 
-    if res.response_status != OCSPResponseStatus.SUCCESSFUL:
+    if signed_res.response_status != OCSPResponseStatus.SUCCESSFUL:
         e = "response status is not successful"
         raise ValueError(e)
 
+    # there can be the statuses of other certificates too
+    try:
+        res, = (
+            single_res
+            for single_res in signed_res.responses
+            if single_res.serial_number == req.serial_number
+        )
+    except ValueError as exc:
+        e = "request and response serial number mismatch"
+        raise ValueError(e) from exc
+
     if res.certificate_status != OCSPCertStatus.GOOD:
         e = "certificate status is not good"
         raise ValueError(e)
@@ -79,7 +90,7 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         raise ValueError(e)
 
     try:
-        Signature = TLSSignatureSuite.from_signature_oid(res.signature_algorithm_oid)  # noqa: N806
+        Signature = TLSSignatureSuite.from_signature_oid(signed_res.signature_algorithm_oid)  # noqa: N806
     except KeyError as exc:
         e = "unknown signature algorithm"
         raise ValueError(e) from exc
@@ -89,7 +100,7 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         raise ValueError(e)
 
     try:
-        Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
+        Signature(issuer.public_key()).verify(signed_res.signature, signed_res.tbs_response_bytes)
     except InvalidSignature as exc:
         e = "invalid signature"
         raise ValueError(e) from exc
-- 
2.43.0


From 98c165b8567e071082a6110db8d1c177083eb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:37 +0000
Subject: [PATCH 55/61] fix: ocsp: accept the statuses which identify the
 issuer with another hash

The peers (stapling) and the responders are free to use another hash
function than SHA1, which the requests use, to identify the issuer.
---
 src/siotls/crypto/ocsp.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index b59f33e..3de3e9b 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -1,7 +1,7 @@
 from datetime import datetime
 
-from cryptography.exceptions import InvalidSignature
-from cryptography.hazmat.primitives.hashes import SHA1
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
+from cryptography.hazmat.primitives.hashes import SHA1, Hash
 from cryptography.hazmat.primitives.serialization import Encoding
 from cryptography.x509 import ExtensionNotFound
 from cryptography.x509.ocsp import (
@@ -42,6 +42,12 @@ def make_ocsp_request(certificate, issuer, digestmod=SHA1) -> bytes:
         .public_bytes(Encoding.DER)
     )
 
+def _identify_issuer(issuer, digestmod):
+    name_hash = Hash(digestmod)
+    name_hash.update(issuer.subject.public_bytes())
+    req = make_ocsp_request(issuer, issuer, type(digestmod))
+    return name_hash.finalize(), load_der_ocsp_request(req).issuer_key_hash
+
 def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C901
     req = load_der_ocsp_request(ocsp_request)
     signed_res = load_der_ocsp_response(ocsp_response)
@@ -61,15 +67,23 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "request and response serial number mismatch"
         raise ValueError(e) from exc
 
+    issuer_name_hash, issuer_key_hash = req.issuer_name_hash, req.issuer_key_hash
+    try:
+        if res.hash_algorithm.name != req.hash_algorithm.name:
+            issuer_name_hash, issuer_key_hash = _identify_issuer(issuer, res.hash_algorithm)
+    except UnsupportedAlgorithm as exc:
+        e = "unknown hash algorithm"
+        raise ValueError(e) from exc
+
     if res.certificate_status != OCSPCertStatus.GOOD:
         e = "certificate status is not good"
         raise ValueError(e)
 
-    if res.issuer_name_hash != req.issuer_name_hash:
+    if res.issuer_name_hash != issuer_name_hash:
         e = "request and response issuer name mismatch"
         raise ValueError(e)
 
-    if res.issuer_key_hash != req.issuer_key_hash:
+    if res.issuer_key_hash != issuer_key_hash:
         e = "request and response issuer key mismatch"
         raise ValueError(e)
 
-- 
2.43.0


From c13fad05f0c83473eacd8c3cd139a667980ffbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:52 +0000
Subject: [PATCH 56/61] fix: send every bytes-like object as the bytes it holds

The data was measured and sliced by items: oversized records were emitted
for arrays and memoryviews whose items are larger than a byte, and memoryviews
which are not contiguous were refused.
---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index fcffecd..2c18d43 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -156,7 +156,7 @@ class TLSConnection:
             self.rekey()
 
     def send_data(self, data: bytes):
-        self._send_content(ApplicationData(data))
+        self._send_content(ApplicationData(memoryview(data).tobytes()))
 
     def data_to_read(self):
         application_data = self._application_data
-- 
2.43.0


From c90bff6011e16f190f05006a0b3b29c581c5500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:52 +0000
Subject: [PATCH 57/61] fix: fail the connection upon interrupts too

A KeyboardInterrupt (or any exception which isn't an Exception, such as the
timeouts of gevent) raised while a record was processed left the connection
usable: the record was lost, and the following ones were delivered as if
nothing was missing.
---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 2c18d43..cffe070 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -148,7 +148,7 @@ class TLSConnection:
                 if not isinstance(self._state, states.Failed):
                     self._fail(alert)
                 raise
-            except Exception:
+            except BaseException:
                 self._fail(alerts.InternalError())
                 raise
 
-- 
2.43.0


From 96e25d46801c8abd1d2f88ac02b5b9df4e99548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:22 +0000
Subject: [PATCH 58/61] fix: lookup the revocation list for the whole verified
 chain

---
 src/siotls/states/client/wait_certificate.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 0e5ab1e..d0d3ffe 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -71,7 +71,7 @@ class ClientWaitCertificate(State):
                 e = "expected a raw public key but found a certificate"
                 raise alerts.UnsupportedCertificate(e)
             chain = self._verify_chain(content.certificate_list)
-            self._verify_revocation(content.certificate_list)
+            self._verify_revocation(content.certificate_list, chain)
             self._verify_statuses(content.certificate_list, chain)
 
     def _verify_chain(self, certificate_entries):
@@ -98,13 +98,14 @@ class ClientWaitCertificate(State):
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
 
-    def _verify_revocation(self, certificate_entries):
+    def _verify_revocation(self, certificate_entries, chain):
         if not self.config.revocation_list:
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
-        for entry in certificate_entries:
-            if is_revoked(entry.certificate.serial_number):
-                e = f"{entry.certificate} found in revocation list"
+        # the peer doesn't have to present the trusted end of the chain
+        for certificate in (*(e.certificate for e in certificate_entries), *chain):
+            if is_revoked(certificate.serial_number):
+                e = f"{certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
     def _verify_statuses(self, certificate_entries, chain):
-- 
2.43.0


From 6f2240b1937cb766253cf4df13f766d33e5a1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:29 +0000
Subject: [PATCH 59/61] fix: announce that an empty server hostname is not
 verified

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index cffe070..52d8f0f 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -60,7 +60,7 @@ class TLSConnection:
         self._application_data = bytearray()
 
         if config.side == 'client':
-            if server_hostname is None and config.require_peer_authentication:
+            if not server_hostname and config.require_peer_authentication:
                 w =("missing server_hostname, will not verify the "
                     "peer's certificate CN and SAN entries")
                 logger.warning(w)
-- 
2.43.0


From af2be7b527f08c4f1c448b8f6d1e1ddeb1543576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:01 +0000
Subject: [PATCH 60/61] fix: verify the certificate of a server although its
 name isn't known

The certificate was verified as the one of a client: certificates which
are only for servers were refused, certificates which are only for
clients were accepted.
---
 src/siotls/states/client/wait_certificate.py | 33 ++++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index d0d3ffe..5288f5b 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -1,3 +1,4 @@
+import contextlib
 from ipaddress import ip_address
 from itertools import pairwise
 
@@ -77,18 +78,15 @@ class ClientWaitCertificate(State):
     def _verify_chain(self, certificate_entries):
         leaf, *intermediates = (e.certificate for e in certificate_entries)
         try:
-            verified = self._get_verifier().verify(leaf, intermediates)
+            verified = self._get_verifier(leaf).verify(leaf, intermediates)
         except x509.verification.VerificationError as exc:
             raise alerts.BadCertificate from exc
         # from the leaf up to the root, both included
         return getattr(verified, 'chain', verified)
 
-    def _get_verifier(self):
+    def _get_verifier(self, leaf):
         if not self.server_hostname:
-            # TODO: implement a a subject-free "build_server_verifier",
-            # using "build_client_verifier" is bad because it checks for
-            # EKU=Client instead of of EKU=Server... meh.
-            return self.config.policy_builder.build_client_verifier()
+            return self._get_nameless_verifier(leaf)
         try:
             server_ip = ip_address(self.server_hostname)
         except ValueError:
@@ -98,6 +96,29 @@ class ClientWaitCertificate(State):
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
 
+    def _get_nameless_verifier(self, leaf):
+        # there is no subject-free "build_server_verifier", and
+        # "build_client_verifier" is for the certificates of clients:
+        # whatever the name of the server, it is its certificate's
+        try:
+            names = leaf.extensions.get_extension_for_class(x509.SubjectAlternativeName).value
+        except (
+            ValueError,
+            x509.DuplicateExtension,
+            x509.ExtensionNotFound,
+            x509.UnsupportedGeneralNameType,
+        ) as exc:
+            raise alerts.BadCertificate from exc
+        for name in names:
+            with contextlib.suppress(ValueError):  # not the name of a server
+                subject = name
+                if isinstance(name, x509.DNSName):
+                    subject = x509.DNSName(name.value.replace('*', 'any', 1))
+                if isinstance(subject, x509.DNSName | x509.IPAddress):
+                    return self.config.policy_builder.build_server_verifier(subject)
+        e = "the certificate isn't the one of a server"
+        raise alerts.BadCertificate(e)
+
     def _verify_revocation(self, certificate_entries, chain):
         if not self.config.revocation_list:
             return
-- 
2.43.0


From 149093b112b227f13655f854c0f2bbafdf57f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:21 +0000
Subject: [PATCH 61/61] fix: refuse certificates whose authority information
 access is malformed

The ValueError of the malformed extension came out of receive_data,
without any alert, for the clients with an OCSP service.
---
 src/siotls/states/client/wait_certificate.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 5288f5b..3f0af0a 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -145,7 +145,7 @@ class ClientWaitCertificate(State):
                     validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     raise alerts.BadCertificate from exc
-            elif self.ocsp_service and (ocsp_url := get_ocsp_url(certificate)):
+            elif self.ocsp_service and (ocsp_url := self._get_ocsp_url(certificate)):
                 ocsp_req = make_ocsp_request(certificate, issuer)
                 try:
                     ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
@@ -160,6 +160,16 @@ class ClientWaitCertificate(State):
                 else:
                     self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
 
+    def _get_ocsp_url(self, certificate):
+        try:
+            return get_ocsp_url(certificate)
+        except (
+            ValueError,
+            x509.DuplicateExtension,
+            x509.UnsupportedGeneralNameType,
+        ) as exc:
+            raise alerts.BadCertificate from exc
+
     def _process_raw_public_key(self, content):
         public_key = content.certificate_list[0].public_key
         self.nconfig.peer_public_key = public_key
-- 
2.43.0

