From 41d2910efd03b9f573f137758ac2f18e4b379045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 01/47] fix: refuse an oversized record with a record overflow
 alert

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 0f60da4..c1591ec 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -216,7 +216,7 @@ class TLSConnection:
         if content_length > max_fragment_length:
             e =(f"the record is longer ({content_length} bytes) than "
                 f"the allowed maximum ({max_fragment_length} bytes)")
-            raise alerts.RecordOverFlow(e)
+            raise alerts.RecordOverflow(e)
 
         if len(self._input_data) - 5 < content_length:
             return None
-- 
2.43.0


From 1d8b55eeb3f0c16b0580ed552251621aa51e2397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 02/47] fix: do not add a whole chunk of padding to an already
 aligned record

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index c1591ec..5f98848 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -351,7 +351,7 @@ class TLSConnection:
 
         for fragment in fragments:
             fragment_length = len(fragment) + 1 + self._cipher.tag_length
-            padding = b'\x00' * (chunk_size - fragment_length % chunk_size)
+            padding = b'\x00' * (-fragment_length % chunk_size)
             data = b''.join([
                 fragment,
                 content_type.to_bytes(1, 'big'),
-- 
2.43.0


From 85a9e88c2f0a573a62765fa11b6811099e9286ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 03/47] fix: serialize the certificate authorities extension
 with its header

---
 .../contents/handshakes/extensions/certificate_authorities.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_authorities.py b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
index bc95903..8061245 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_authorities.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
@@ -32,7 +32,7 @@ class CertificateAuthorities(Extension, SerializableBody):
         autorities = stream.read_listvar(2, 2)
         return cls(autorities)
 
-    def serialize(self):
+    def serialize_body(self):
         autorities = b''.join([
             b''.join([
                 len(autority).to_bytes(2, 'big'),
-- 
2.43.0


From 16c4d2a11e0878832b7ad3aec6d310ea34629805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 04/47] fix: serialize the use srtp extension with its header
 and profiles length

---
 src/siotls/contents/handshakes/extensions/use_srtp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index 7fcc2ce..d5293b8 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -42,9 +42,9 @@ class UseSRTP(Extension, SerializableBody):
 
         return cls(protection_profiles, mki)
 
-    def serialize(self):
+    def serialize_body(self):
         return b''.join([
-            (len(self.mki) * 2).to_bytes(2, 'big'),
+            (len(self.protection_profiles) * 2).to_bytes(2, 'big'),
             bytes(itertools.chain.from_iterable(self.protection_profiles)),
             len(self.mki).to_bytes(1, 'big'),
             self.mki,
-- 
2.43.0


From d53f5e730966d2f67db4e55d37241af27b657b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 05/47] fix: serialize the list of offered certificate types

---
 src/siotls/contents/handshakes/extensions/certificate_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index 6ae28fe..c942940 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -34,7 +34,7 @@ class _CertificateTypeRequest(SerializableBody):
 
     def serialize_body(self):
         return b''.join([
-            len(self.certificate_type).to_bytes(1, 'big'),
+            len(self.certificate_types).to_bytes(1, 'big'),
             *[ct.to_bytes(1, 'big') for ct in self.certificate_types],
         ])
 
-- 
2.43.0


From d9a2e6bd84b7832d86986b4e5bc14fbf904b7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 06/47] fix: serialize the selected certificate type of the
 instance

---
 src/siotls/contents/handshakes/extensions/certificate_type.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index c942940..c30b499 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -55,7 +55,6 @@ class _CertificateTypeResponse(SerializableBody):
             raise alerts.IllegalParameter(*exc.args) from exc
         return cls(certificate_type)
 
-    @classmethod
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
-- 
2.43.0


From be5afd2ba578b409e1837b4297af907d70deb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 07/47] fix: serialize the pre-shared key identities and
 length-prefixed binders

---
 .../handshakes/extensions/pre_shared_key.py   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/pre_shared_key.py b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
index da5fca5..9980b62 100644
--- a/src/siotls/contents/handshakes/extensions/pre_shared_key.py
+++ b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
@@ -43,9 +43,9 @@ class PreSharedKeyRequest(Extension, SerializableBody):
         identities = []
         list_stream = SerialIO(stream.read_var(2))
         while not list_stream.is_eof():
-            identify = list_stream.read_var(2)
+            identity = list_stream.read_var(2)
             obfuscated_ticket_age = list_stream.read_int(4)
-            identities.append(PskIdentity(identify, obfuscated_ticket_age))
+            identities.append(PskIdentity(identity, obfuscated_ticket_age))
 
         binders = stream.read_listvar(2, 1)
 
@@ -54,17 +54,24 @@ class PreSharedKeyRequest(Extension, SerializableBody):
     def serialize_body(self):
         identities = b''.join(
             b''.join([
-                len(pskid.identify).to_bytes(2, 'big'),
-                pskid.identify,
+                len(pskid.identity).to_bytes(2, 'big'),
+                pskid.identity,
                 pskid.obfuscated_ticket_age.to_bytes(4, 'big')
             ]) for pskid in self.identities
         )
 
+        binders = b''.join(
+            b''.join([
+                len(binder).to_bytes(1, 'big'),
+                binder,
+            ]) for binder in self.binders
+        )
+
         return b''.join([
             len(identities).to_bytes(2, 'big'),
             identities,
-            len(self.binders).to_bytes(2, 'big'),
-            *self.binders,
+            len(binders).to_bytes(2, 'big'),
+            binders,
         ])
 
 
-- 
2.43.0


From 3ea57c06019ae5e69b072f5876ab2bfdc9eab541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 08/47] fix: use the length of the encoded host name in the
 server name extension

---
 src/siotls/contents/handshakes/extensions/server_name.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/server_name.py b/src/siotls/contents/handshakes/extensions/server_name.py
index 30fe83f..4639f55 100644
--- a/src/siotls/contents/handshakes/extensions/server_name.py
+++ b/src/siotls/contents/handshakes/extensions/server_name.py
@@ -76,9 +76,10 @@ class HostName(ServerName, SerializableBody):
             raise
 
     def serialize_body(self):
+        byte_host_name = idna.encode(self.host_name, uts46=True)
         return b''.join([
-            len(self.host_name).to_bytes(2, 'big'),
-            idna.encode(self.host_name, uts46=True),
+            len(byte_host_name).to_bytes(2, 'big'),
+            byte_host_name,
         ])
 
 @dataclasses.dataclass(init=False)
-- 
2.43.0


From 80f7d1908230d1d1b6c7d0ee7a737328303d2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 09/47] fix: serialize heartbeat messages

---
 src/siotls/contents/heartbeat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/heartbeat.py b/src/siotls/contents/heartbeat.py
index f99c508..8a53350 100644
--- a/src/siotls/contents/heartbeat.py
+++ b/src/siotls/contents/heartbeat.py
@@ -47,9 +47,9 @@ class Heartbeat(Content, Serializable):
         return cls(heartbeat_type, payload, padding)
 
     def serialize(self):
-        return b''.join(
+        return b''.join([
             self.heartbeat_type.to_bytes(1, 'big'),
             len(self.payload).to_bytes(2, 'big'),
             self.payload,
             self.padding,
-        )
+        ])
-- 
2.43.0


From 062ad580099dc6549ef2e477e20497d466bdfed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 10/47] fix: report a length exceeding the enclosing one as a
 buffer error

---
 src/siotls/serial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/siotls/serial.py b/src/siotls/serial.py
index f916d5e..56cf3a7 100644
--- a/src/siotls/serial.py
+++ b/src/siotls/serial.py
@@ -20,6 +20,10 @@ class TooMuchDataError(TLSBufferError):
     pass
 
 
+class LimitError(TooMuchDataError, ValueError):
+    pass
+
+
 class Serializable(metaclass=abc.ABCMeta):
     _struct: str
 
@@ -150,7 +154,7 @@ class SerialIO(io.BytesIO):
         new_limit = self.tell() + length
         if new_limit > self._limits[-1]:
             e = "a more restrictive limit is present already"
-            raise ValueError(e)
+            raise LimitError(e)
 
         self._limits.append(new_limit)
 
-- 
2.43.0


From 0c0b2cd7d20fa4f66e2adaa71abaee992077b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 11/47] fix: answer the invalid content type with a decode
 error

---
 src/siotls/contents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/__init__.py b/src/siotls/contents/__init__.py
index 9530461..046c305 100644
--- a/src/siotls/contents/__init__.py
+++ b/src/siotls/contents/__init__.py
@@ -15,7 +15,7 @@ class Content:
     def get_parser(abc, content_type):
         try:
             return _content_registry[ContentType(content_type)]
-        except ValueError as exc:
+        except (KeyError, ValueError) as exc:
             raise DecodeError(*exc.args) from exc
 
 
-- 
2.43.0


From 6b7a7cc09b11596ec8c641013d820e415709003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 12/47] fix: answer a message hash handshake with an illegal
 parameter

---
 src/siotls/contents/handshakes/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/__init__.py b/src/siotls/contents/handshakes/__init__.py
index 03d7247..bfca910 100644
--- a/src/siotls/contents/handshakes/__init__.py
+++ b/src/siotls/contents/handshakes/__init__.py
@@ -45,7 +45,7 @@ class Handshake(Content, Serializable):
         length = stream.read_int(3)
         try:
             cls = _handshake_registry[HandshakeType(msg_type)]
-        except ValueError as exc:
+        except (KeyError, ValueError) as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
         with stream.limit(length):
             return cls.parse_body(stream, **kwargs)
-- 
2.43.0


From 2576e15b53664de3b8f4c861ff93c89d016d73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 13/47] fix: answer an unknown certificate type with
 certificate unknown

---
 src/siotls/contents/handshakes/certificate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 9328735..f97e5ac 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -137,7 +137,7 @@ class Certificate(Handshake, SerializableBody):
                 if config.other_side == 'client' else
                 nconfig.server_certificate_type
             ]
-        except IndexError as exc:
+        except KeyError as exc:
             raise alerts.CertificateUnknown(*exc.args) from exc
 
         certificate_request_context = stream.read_var(1)
-- 
2.43.0


From 918aab8b1fc5695c2217e76dfc9c358b60696eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 14/47] fix: answer a legacy selected version with an illegal
 parameter

---
 src/siotls/contents/handshakes/extensions/supported_versions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/supported_versions.py b/src/siotls/contents/handshakes/extensions/supported_versions.py
index 2afa44b..955093e 100644
--- a/src/siotls/contents/handshakes/extensions/supported_versions.py
+++ b/src/siotls/contents/handshakes/extensions/supported_versions.py
@@ -65,9 +65,9 @@ class SupportedVersionsResponse(Extension, SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         try:
             selected_version = TLSVersion(stream.read_int(2))
+            return cls(selected_version)
         except ValueError as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
-        return cls(selected_version)
 
     def serialize_body(self):
         return self.selected_version.to_bytes(2, 'big')
-- 
2.43.0


From a3259caeeaaa126431704400418a12d86984abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 15/47] fix: answer an oversized heartbeat with an illegal
 parameter

---
 src/siotls/contents/heartbeat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/siotls/contents/heartbeat.py b/src/siotls/contents/heartbeat.py
index 8a53350..6143888 100644
--- a/src/siotls/contents/heartbeat.py
+++ b/src/siotls/contents/heartbeat.py
@@ -44,7 +44,10 @@ class Heartbeat(Content, Serializable):
             raise alerts.IllegalParameter(*exc.args) from exc
         payload = stream.read_var(2)
         padding = stream.read()
-        return cls(heartbeat_type, payload, padding)
+        try:
+            return cls(heartbeat_type, payload, padding)
+        except ValueError as exc:
+            raise alerts.IllegalParameter(*exc.args) from exc
 
     def serialize(self):
         return b''.join([
-- 
2.43.0


From 06fb315d5625f1f6fab24533585e01ab0d8a6bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 16/47] fix: answer a malformed certificate with a certificate
 alert

---
 src/siotls/contents/handshakes/certificate.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index f97e5ac..a0eb6da 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -1,6 +1,7 @@
 import dataclasses
 import textwrap
 
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.primitives.asymmetric.types import PublicKeyTypes
 from cryptography.hazmat.primitives.serialization import (
     Encoding,
@@ -86,7 +87,10 @@ class X509(CertificateEntry):
 
     @classmethod
     def _parse_certificate(cls, data):
-        return load_der_x509_certificate(data)
+        try:
+            return load_der_x509_certificate(data)
+        except ValueError as exc:
+            raise alerts.BadCertificate(*exc.args) from exc
 
     def _serialize_certificate(self):
         return self.certificate.public_bytes(Encoding.DER)
@@ -103,7 +107,12 @@ class RawPublicKey(CertificateEntry):
 
     @classmethod
     def _parse_certificate(cls, data):
-        return load_der_public_key(data)
+        try:
+            return load_der_public_key(data)
+        except ValueError as exc:
+            raise alerts.BadCertificate(*exc.args) from exc
+        except UnsupportedAlgorithm as exc:
+            raise alerts.UnsupportedCertificate(*exc.args) from exc
 
     def _serialize_certificate(self):
         return self.public_key.public_bytes(
-- 
2.43.0


From 9551480d9e9a5045d57175f764157203de525972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 17/47] fix: let alerts that are not exceptions be compared and
 printed

---
 src/siotls/contents/alerts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/siotls/contents/alerts.py b/src/siotls/contents/alerts.py
index 8cc376b..7e1b139 100644
--- a/src/siotls/contents/alerts.py
+++ b/src/siotls/contents/alerts.py
@@ -63,6 +63,7 @@ class Alert(Content, Serializable, metaclass=RegistryMeta):
 
     def __init__(self, *args, level=None):
         super().__init__(*args)
+        self.args = args
         if level is not None:
             self.level = level
 
-- 
2.43.0


From 3272f629dea0f5486798b06e0cc1f81c353865f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 18/47] fix: answer a record that cannot be deprotected with
 bad record mac

---
 src/siotls/crypto/ciphers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index c1f693e..2934f2b 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -150,7 +150,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
         try:
             return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)
         except InvalidTag as exc:
-            raise alerts.DecryptError from exc
+            raise alerts.BadRecordMac from exc
 
     def _next_read_nonce(self):
         nonce = self._read_iv ^ next(self._read_seq)
-- 
2.43.0


From 463f1f6353f6a6f6c0cef96d0afa5fa1a8f69c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 19/47] fix: give the AES-CCM suites a usage limit

---
 src/siotls/crypto/ciphers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 2934f2b..b46dea3 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -349,7 +349,7 @@ class TLS_AES_128_CCM_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 16
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = 1 << 23
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
 
@@ -361,6 +361,6 @@ class TLS_AES_128_CCM_8_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 8
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = 1 << 23
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
-- 
2.43.0


From 9aa87ee2b6522f2d2c6470fc1b071640f1bbf61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 20/47] fix: only treat close notify as a clean closure after
 the handshake

---
 src/siotls/states/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 9498b89..b028002 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -36,8 +36,7 @@ class State(metaclass=abc.ABCMeta):
         if content.content_type == ContentType.ALERT:
             alert = content
             if alert.description == AlertDescription.CLOSE_NOTIFY:
-                self._move_to_state(Closed)
-                self._state.recv_closed = True
+                self.connection.close_receiving_end()
                 logger.debug("%s closed its sending side", self.config.other_side)
             elif alert.level == AlertLevel.WARNING:
                 logger.debug("warning alert from %s: %s",
-- 
2.43.0


From a8d8f69af76bfac223d248e790e8c8d509b6de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 21/47] fix: closing the receiving end does not revive a failed
 connection

---
 src/siotls/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5f98848..d7ddfc9 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -154,6 +154,8 @@ class TLSConnection:
             logger.warning("EOF or CloseNotify alert during handshake")
             self._fail()
             return
+        if isinstance(self._state, states.Failed):
+            return
         if type(self._state) != states.Closed:
             self._move_to_state(states.Closed)
         self._state.can_receive = False
-- 
2.43.0


From 0507098af39dd5f2ef6d15d242ee2e0dad3bada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 22/47] fix: closing during the handshake does not make the
 connection connected

---
 src/siotls/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index d7ddfc9..334e648 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -161,6 +161,11 @@ class TLSConnection:
         self._state.can_receive = False
 
     def close_sending_end(self):
+        if not self.is_post_handshake():
+            logger.warning("closing during handshake")
+            self._send_content(alerts.CloseNotify())
+            self._fail()
+            return
         if not isinstance(self._state, states.Closed | states.Failed):
             self._move_to_state(states.Closed)
         if self._state.can_send:
-- 
2.43.0


From e1e33f05975c06956f6ef77c9634f8e2846f8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 23/47] fix: do not send application data under handshake keys

---
 src/siotls/states/server/wait_finished.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/server/wait_finished.py b/src/siotls/states/server/wait_finished.py
index fcba4d2..6b87ce7 100644
--- a/src/siotls/states/server/wait_finished.py
+++ b/src/siotls/states/server/wait_finished.py
@@ -7,7 +7,7 @@ from .. import Connected, State
 class ServerWaitFinished(State):
     can_receive = True
     can_send = True
-    can_send_application_data = True
+    can_send_application_data = False
 
     def __init__(self, connection, server_finished_transcript_hash):
         super().__init__(connection)
-- 
2.43.0


From c4c13ff7152201be0a039119d6f90f26341eea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 24/47] fix: fail the connection also when the sending end is
 closed

---
 src/siotls/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 334e648..3054006 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -178,7 +178,8 @@ class TLSConnection:
                 e =("can only fail with a fatal alert which "
                     f"{fatal_alert!r} is not")
                 raise ValueError(e)
-            self._send_content(fatal_alert)
+            if self._state.can_send:
+                self._send_content(fatal_alert)
         self._move_to_state(states.Failed)
 
     def is_post_handshake(self):
-- 
2.43.0


From dea382f6d7b1b80458f599dc4a7a0877605baa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 25/47] fix: honour at most one hello retry request

---
 src/siotls/states/client/wait_server_hello.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index f3e2c53..a8b630d 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -23,8 +23,8 @@ class ClientWaitServerHello(State):
     def process(self, content):
         if (content.content_type != ContentType.HANDSHAKE
             or (content.msg_type is not HandshakeType.SERVER_HELLO
-                and (content.msg_type is not HandshakeType_.HELLO_RETRY_REQUEST
-                     and self._is_first_server_hello))):
+                and not (content.msg_type is HandshakeType_.HELLO_RETRY_REQUEST
+                         and self._is_first_server_hello))):
             super().process(content)
             return
 
-- 
2.43.0


From fa3e16d232c7492199e7d22236669eae4a2dbe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 26/47] fix: record the negotiated key exchange client side

---
 src/siotls/states/client/wait_server_hello.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index a8b630d..b27a9d4 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -111,5 +111,5 @@ class ClientWaitServerHello(State):
             except ValueError as exc:
                 e = "error while resuming key share"
                 raise alerts.IllegalParameter(e) from exc
-            self.nconfig.key_exchanges = key_share_ext.group
+            self.nconfig.key_exchange = key_share_ext.group
             return shared_key
-- 
2.43.0


From 8e4f87f20a6f4becbc6c37391510d7b4f38eada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 27/47] fix: compute the right transcript client side after a
 hello retry request

---
 src/siotls/states/client/start.py             | 2 +-
 src/siotls/states/client/wait_server_hello.py | 9 ++++++---
 src/siotls/transcript.py                      | 8 ++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 6b1f584..856b5c1 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -76,7 +76,7 @@ class ClientStart(State):
         self._move_to_state(
             ClientWaitServerHello,
             key_shares=self._key_shares,
-            client_hello_transcript_hash=self._transcript.digest(),
+            client_hello_transcript_hashes=self._transcript.digests(),
         )
 
     def process(self, message):
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index b27a9d4..9b3dced 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -14,11 +14,11 @@ class ClientWaitServerHello(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, key_shares, client_hello_transcript_hash):
+    def __init__(self, connection, key_shares, client_hello_transcript_hashes):
         super().__init__(connection)
         self._is_first_server_hello = self.nconfig is None
         self._key_shares = key_shares
-        self._client_hello_transcript_hash = client_hello_transcript_hash
+        self._client_hello_transcript_hashes = client_hello_transcript_hashes
 
     def process(self, content):
         if (content.content_type != ContentType.HANDSHAKE
@@ -64,7 +64,10 @@ class ClientWaitServerHello(State):
             key_exchanges=[key_share.selected_group],
         )
 
-        self._transcript.do_hrr_dance(self.config.side, self._client_hello_transcript_hash)
+        self._transcript.do_hrr_dance(
+            self.config.side,
+            self._client_hello_transcript_hashes[self._cipher.digestmod().name],
+        )
 
         cookie_ext = hello_retry_request.extensions.get(ExtensionType.COOKIE)
         self._move_to_state(ClientStart, cookie=cookie_ext and cookie_ext.cookie)
diff --git a/src/siotls/transcript.py b/src/siotls/transcript.py
index fa6ea99..39e3687 100644
--- a/src/siotls/transcript.py
+++ b/src/siotls/transcript.py
@@ -74,6 +74,7 @@ class Transcript:
             raise ValueError(e)
         self._hashes = [dm() for dm in digestmods]
         self._order_i = 1
+        self._last_message = b''
 
     def post_init(self, digestmod):
         name = digestmod().name
@@ -98,6 +99,9 @@ class Transcript:
             self._hashes[0].digest_size.to_bytes(1, 'big'),
             client_hello_transcript_hash,
         ]))
+        if side == 'client':
+            # HelloRetryRequest was received and hashed already
+            self._hashes[0].update(self._last_message)
         self._order_i = (side == 'client')
 
     def update(self, handshake_data, side, handshake_type):
@@ -117,11 +121,15 @@ class Transcript:
 
         for hash_ in self._hashes:
             hash_.update(handshake_data)
+        self._last_message = bytes(handshake_data)
         self._order_i += 1
 
     def digest(self):
         return self._hashes[0].digest()
 
+    def digests(self):
+        return {hash_.name: hash_.digest() for hash_ in self._hashes}
+
     def hexdigest(self):
         return self._hashes[0].hexdigest()
 
-- 
2.43.0


From e723ea38a4f3b5ea0b72b4d9527c43a60b7be8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 28/47] fix: compare the raw public key of the server with the
 trusted ones

---
 src/siotls/states/client/wait_certificate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 69036f2..8632b21 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -124,7 +124,7 @@ class ClientWaitCertificate(State):
         public_key = content.certificate_list[0].public_key
         self.nconfig.peer_public_key = public_key
         if (self.config.require_peer_authentication
-            and public_key not in self.config.trusted_public_keys()
+            and public_key not in self.config.trusted_public_keys
         ):
             e = "untrusted raw public key"
             raise alerts.BadCertificate(e)
-- 
2.43.0


From 41c8119220616fe827143f3eade903595ed988f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 29/47] fix: search the revocation list by serial number

---
 src/siotls/states/client/wait_certificate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 8632b21..bc2053a 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -95,7 +95,7 @@ class ClientWaitCertificate(State):
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
         for entry in certificate_entries:
-            if is_revoked(entry.certificate):
+            if is_revoked(entry.certificate.serial_number):
                 e = f"{entry.certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-- 
2.43.0


From d10a5e10e84ef4100701c2db4c9b28205afbe896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 30/47] fix: answer an invalid certificate verify with a
 decrypt error

---
 src/siotls/states/client/wait_certificate_verify.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index a5027c0..7242258 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,3 +1,5 @@
+from cryptography.exceptions import InvalidSignature
+
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
 from siotls.iana import ContentType, HandshakeType
@@ -38,10 +40,13 @@ class ClientWaitCertificateVerify(State):
             self.nconfig.peer_public_key
             or self.nconfig.peer_certificate.public_key()
         )
-        TLSSignatureSuite[content.algorithm](public_key).verify(
-            content.signature,
-            CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
-        )
+        try:
+            TLSSignatureSuite[content.algorithm](public_key).verify(
+                content.signature,
+                CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
+            )
+        except InvalidSignature as exc:
+            raise alerts.DecryptError from exc
 
         self._move_to_state(
             ClientWaitFinished,
-- 
2.43.0


From b753d4bff3b148c24b49752dade66df35de15ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 31/47] fix: send all the bytes through the wrapped socket

---
 src/siotls/wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index deb42aa..4e09488 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -15,14 +15,14 @@ class WrappedSocket:
     def do_handhskake(self):
         self.conn.initiate_connection()
         if self.conn.config.side == 'client':
-            self.sock.send(self.conn.data_to_send())
+            self.sock.sendall(self.conn.data_to_send())
         while not self.conn.is_post_handshake():
             if input_data := self.sock.recv(self.conn.max_fragment_length):
                 try:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
 
@@ -34,7 +34,7 @@ class WrappedSocket:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
                 application_data += self.conn.data_to_read()
             else:
                 self.conn.close_receiving_end()
@@ -42,9 +42,9 @@ class WrappedSocket:
 
     def write(self, data):
         self.conn.send_data(data)
-        self.sock.send(self.conn.data_to_send())
+        self.sock.sendall(self.conn.data_to_send())
 
     def close(self):
         self.conn.close_sending_end()
         if close_notify := self.conn.data_to_send():
-            self.sock.send(close_notify)
+            self.sock.sendall(close_notify)
-- 
2.43.0


From 29639c53c44cdc6827711243a5e87626dd04dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 32/47] fix: refuse a negative OCSP content length

---
 src/siotls/ocsp_over_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 1e7ea5d..84f2a1f 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -57,7 +57,7 @@ def request(url, ocsp_req):
         raise RuntimeError(e)
 
     content_length = int(http_res.getheader('Content-Length', OCSP_MAX_RESPONSE_SIZE))
-    if content_length > OCSP_MAX_RESPONSE_SIZE:
+    if not 0 <= content_length <= OCSP_MAX_RESPONSE_SIZE:
         e =(f"OCSP response body too large ({content_length} bytes vs "
             f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
         raise RuntimeError(e)
-- 
2.43.0


From 2357842fad5e25ba4f4631e4d0e10f0811477139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 33/47] fix: refuse an OCSP response without expiration

---
 src/siotls/crypto/ocsp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 57e6ee7..88a8ed3 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -65,6 +65,10 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is not valid yet"
         raise ValueError(e)
 
+    if res.next_update is None:
+        e = "response has no expiration"
+        raise ValueError(e)
+
     if res.next_update < datetime.utcnow():  # noqa: DTZ003
         e = "response is expired"
         raise ValueError(e)
-- 
2.43.0


From 6e8b038151c1a5918f58f7e93c2b2c98f2860123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 34/47] fix: reassemble fragmented handshakes no matter how
 they are received

---
 src/siotls/connection.py | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 3054006..82c36d4 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -6,7 +6,7 @@ import types
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
 from siotls.iana import AlertLevel, ContentType, TLSVersion
-from siotls.serial import SerialIO, TLSBufferError, TooMuchDataError
+from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
 from . import states
@@ -255,40 +255,31 @@ class TLSConnection:
         # handshakes can be fragmented over multiple following records,
         # other content types are not subject to fragmentation
 
-        record = self._read_next_record()
-        if not record:
-            return None
-
-        content_type, fragment = record
-        if not self._input_handshake:
-            if content_type != ContentType.HANDSHAKE:
-                return content_type, fragment
-            else:
-                self._input_handshake = fragment
-        elif content_type != ContentType.HANDSHAKE:
-            e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                f"but {content_type} found")
-            raise alerts.UnexpectedMessage(e)
-        else:
-            self._input_handshake += fragment
+        while True:
+            if len(self._input_handshake) >= 4:  # noqa: PLR2004
+                handshake_length = int.from_bytes(self._input_handshake[1:4], 'big')
+                if len(self._input_handshake) - 4 >= handshake_length:
+                    break
 
-        if len(self._input_handshake) < 4:  # noqa: PLR2004
-            return None
-        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big')
-        while len(self._input_handshake) - 4 < handshake_length:
             record = self._read_next_record()
             if not record:
                 return None
             content_type, fragment = record
             if content_type != ContentType.HANDSHAKE:
-                e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                    f"but {content_type} found")
+                if self._input_handshake:
+                    e =(f"expected {ContentType.HANDSHAKE} continuation "
+                        f"record but {content_type} found")
+                    raise alerts.UnexpectedMessage(e)
+                return content_type, fragment
+            if not fragment:
+                e = f"empty {ContentType.HANDSHAKE} record"
                 raise alerts.UnexpectedMessage(e)
             self._input_handshake += fragment
+
         if len(self._input_handshake) - 4 > handshake_length:
             e = (f"expected {handshake_length + 4} bytes but "
                  f"{len(self._input_handshake)} read")
-            raise TooMuchDataError(e)
+            raise alerts.DecodeError(e)
 
         content_data = self._input_handshake
         self._input_handshake = bytearray()
-- 
2.43.0


From a821639ec154462d2c0caf959bacd0e79c65d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 35/47] fix: certificates without authority information have no
 OCSP url

---
 src/siotls/crypto/ocsp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 88a8ed3..4313ac5 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
+from cryptography.x509 import ExtensionNotFound
 from cryptography.x509.ocsp import (
     OCSPCertStatus,
     OCSPRequestBuilder,
@@ -19,11 +20,15 @@ OCSP = AuthorityInformationAccessOID.OCSP
 
 
 def get_ocsp_url(certificate):
+    try:
+        aia = certificate.extensions.get_extension_for_oid(AIA)
+    except ExtensionNotFound:
+        return None
     return next(
         (
             access_description.access_location.value
             for access_description
-            in certificate.extensions.get_extension_for_oid(AIA).value
+            in aia.value
             if access_description.access_method == OCSP
         ),
         None
-- 
2.43.0


From 1597e52a2cc23aa6737dadce3071fc52ca1a3c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 36/47] fix: refuse an OCSP response with an invalid signature
 with a value error

---
 src/siotls/crypto/ocsp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 4313ac5..7a45974 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -94,7 +94,8 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
 
     try:
         Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
-    except InvalidSignature as exc:
-        raise ValueError(exc.args[0]) from exc
+    except (InvalidSignature, TypeError) as exc:
+        e = "invalid signature"
+        raise ValueError(e) from exc
 
     return res.next_update
-- 
2.43.0


From 84e458df4308c65cfd2b370198b17aa87360bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 37/47] fix: negotiate the signature algorithm of a server with
 only a raw public key

---
 src/siotls/crypto/signatures.py               | 25 ++++++++++++++++++-
 src/siotls/states/server/wait_client_hello.py |  7 ++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 2eff651..de2cb82 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -5,7 +5,14 @@ from typing import ClassVar
 
 from cryptography.hazmat._oid import PublicKeyAlgorithmOID, SignatureAlgorithmOID
 from cryptography.hazmat.primitives import hashes
-from cryptography.hazmat.primitives.asymmetric import ec, padding, types
+from cryptography.hazmat.primitives.asymmetric import (
+    ec,
+    ed448,
+    ed25519,
+    padding,
+    rsa,
+    types,
+)
 
 from siotls.iana import SignatureScheme
 from siotls.utils import RegistryMeta
@@ -38,6 +45,22 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
     def for_public_key_oid(cls, public_key_oid):
         return cls._pubkey_registry[public_key_oid]
 
+    @classmethod
+    def for_public_key(cls, public_key):
+        match public_key:
+            case rsa.RSAPublicKey():
+                oid = PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5
+            case ec.EllipticCurvePublicKey():
+                oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
+            case ed25519.Ed25519PublicKey():
+                oid = PublicKeyAlgorithmOID.ED25519
+            case ed448.Ed448PublicKey():
+                oid = PublicKeyAlgorithmOID.ED448
+            case _:
+                e = f"unsupported public key: {public_key}"
+                raise ValueError(e)
+        return cls.for_public_key_oid(oid)
+
     def __init__(self, key):
         self.key = key
 
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 16febe9..cf5dffc 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -278,8 +278,11 @@ class ServerWaitClientHello(State):
     def _negociate_signature_algorithms(self, sa_ext):
         if not sa_ext:
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
-        pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
-        suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        if self.config.certificate_chain:
+            pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
+            suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        else:
+            suites = TLSSignatureSuite.for_public_key(self.config.public_key)
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self._signature = suites[server_suite](self.config.private_key)
-- 
2.43.0


From af5aa0853a09cf3286ba4b5f8fca3f89469588bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 38/47] fix: do not read past the limit with a negative size

---
 src/siotls/serial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/serial.py b/src/siotls/serial.py
index 56cf3a7..444204a 100644
--- a/src/siotls/serial.py
+++ b/src/siotls/serial.py
@@ -55,7 +55,7 @@ class SerialIO(io.BytesIO):
 
     def read(self, n=None):
         max_n = self._limits[-1] - self.tell()
-        if n is None:
+        if n is None or n < 0:
             if len(self._limits) > 1:
                 n = max_n
         elif n > max_n:
-- 
2.43.0


From 3bcba73390fc4562dc5d0bd1bf55058851036d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 39/47] fix: refuse a malformed SRTP profile list with a decode
 error

---
 src/siotls/contents/handshakes/extensions/use_srtp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index d5293b8..db23a81 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -2,6 +2,7 @@ import dataclasses
 import itertools
 import textwrap
 
+from siotls.contents import alerts
 from siotls.iana import ExtensionType, HandshakeType
 from siotls.serial import SerializableBody
 
@@ -36,7 +37,11 @@ class UseSRTP(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         # cannot use read_listint as the type in uint8[2], not uint16
-        it = iter(stream.read_var(2))
+        profiles = stream.read_var(2)
+        if len(profiles) % 2:
+            e = f"cannot read uint8[2] profiles out of {len(profiles)} bytes"
+            raise alerts.DecodeError(e)
+        it = iter(profiles)
         protection_profiles = list(zip(it, it, strict=True))
         mki = stream.read_var(1)
 
-- 
2.43.0


From 5ef78ed349362009f8cba8ead8f4802c5135da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 40/47] fix: a warning alert of an unknown description is
 logged, not answered with internal_error

---
 src/siotls/states/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index b028002..c78e9a3 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -40,7 +40,7 @@ class State(metaclass=abc.ABCMeta):
                 logger.debug("%s closed its sending side", self.config.other_side)
             elif alert.level == AlertLevel.WARNING:
                 logger.debug("warning alert from %s: %s",
-                     self.config.other_side, content.description.name)
+                     self.config.other_side, alert.description)
             else:
                 e = f"fatal alert from {self.config.other_side}"
                 raise Alert[alert.description](e)
-- 
2.43.0


From 05920b5920df8ca2411500598441bdbd5bb795ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 41/47] fix: what follows a close_notify in the same buffer is
 ignored, not answered with a fatal alert

---
 src/siotls/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 82c36d4..f2b65b2 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -95,7 +95,8 @@ class TLSConnection:
             raise alerts.UnexpectedMessage(e)
         self._input_data += data
 
-        while True:
+        # what follows a CloseNotify is ignored
+        while self._state.can_receive:
             try:
                 next_content = self._read_next_content()
                 if not next_content:
-- 
2.43.0


From 0f4ae2af322bb7e3f7d84c3003cd77da0f872a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 42/47] fix: a hello retry request must select TLS 1.3 too

---
 src/siotls/states/client/wait_server_hello.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 9b3dced..dd93517 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -49,6 +49,9 @@ class ClientWaitServerHello(State):
     def _process_hello_retry_request(self, hello_retry_request):
         from . import ClientStart
 
+        self._negociate_supported_versions(
+            hello_retry_request.extensions.get(ExtensionType.SUPPORTED_VERSIONS))
+
         key_share = hello_retry_request.extensions.get(ExtensionType.KEY_SHARE)
         if not key_share:
             e = "missing Key Share in HelloRetryRequest"
-- 
2.43.0


From af7acf14abbce691930aeeb88224f1724e54c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 43/47] fix: an ECDSA signature algorithm is only selected for
 a key on its curve

---
 src/siotls/crypto/signatures.py               | 14 +++++++++++++-
 src/siotls/states/server/wait_client_hello.py |  8 +++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index de2cb82..b1b00c6 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -59,7 +59,15 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
             case _:
                 e = f"unsupported public key: {public_key}"
                 raise ValueError(e)
-        return cls.for_public_key_oid(oid)
+        suites = cls.for_public_key_oid(oid)
+        if oid == PublicKeyAlgorithmOID.EC_PUBLIC_KEY:
+            # TLS 1.3 binds every ECDSA signature algorithm to a curve
+            suites = {
+                iana_id: suite
+                for iana_id, suite in suites.items()
+                if suite.curve_name == public_key.curve.name
+            }
+        return suites
 
     def __init__(self, key):
         self.key = key
@@ -146,6 +154,7 @@ class TLS_RSA_PSS_PSS_SHA512(_RSAMixin, TLSSignatureSuite):
 
 class _ECDSAMixin:
     digestmod: hashes.Hash
+    curve_name: str
 
     def sign(self, message):
         return self.key.sign(message, ec.ECDSA(self.digestmod))
@@ -155,18 +164,21 @@ class _ECDSAMixin:
 
 class TLS_ECDSA_SECP256R1_SHA256(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp256r1_sha256
+    curve_name = ec.SECP256R1.name
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA256
     digestmod = hashes.SHA256()
 
 class TLS_ECDSA_SECP384R1_SHA384(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp384r1_sha384
+    curve_name = ec.SECP384R1.name
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA384
     digestmod = hashes.SHA384()
 
 class TLS_ECDSA_SECP521R1_SHA512(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp521r1_sha512
+    curve_name = ec.SECP521R1.name
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA512
     digestmod = hashes.SHA512()
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index cf5dffc..e49cb54 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -1,6 +1,8 @@
 import dataclasses
 import logging
 
+from cryptography.hazmat._oid import PublicKeyAlgorithmOID
+
 from siotls.configuration import TLSNegotiatedConfiguration
 from siotls.contents import ChangeCipherSpec, alerts
 from siotls.contents.handshakes import (
@@ -280,7 +282,11 @@ class ServerWaitClientHello(State):
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
         if self.config.certificate_chain:
             pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
-            suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+            if pubkey_oid == PublicKeyAlgorithmOID.EC_PUBLIC_KEY:
+                suites = TLSSignatureSuite.for_public_key(
+                    self.config.certificate_chain[0].public_key())
+            else:
+                suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
         else:
             suites = TLSSignatureSuite.for_public_key(self.config.public_key)
         for server_suite in self.config.signature_algorithms:
-- 
2.43.0


From 2a02c34006d06147bacb7b3f8bacb0eaa3707b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 44/47] fix: a server's signature must be of an algorithm of
 the key it presented

---
 src/siotls/crypto/signatures.py                     | 7 +++++++
 src/siotls/states/client/wait_certificate_verify.py | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index b1b00c6..0b02047 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -69,6 +69,13 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
             }
         return suites
 
+    @classmethod
+    def can_sign_with(cls, public_key):
+        if isinstance(public_key, rsa.RSAPublicKey):
+            # both rsaEncryption and RSASSA-PSS keys are RSAPublicKey
+            return issubclass(cls, _RSAMixin)
+        return cls.iana_id in cls.for_public_key(public_key)
+
     def __init__(self, key):
         self.key = key
 
diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index 7242258..e9073f5 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -40,8 +40,13 @@ class ClientWaitCertificateVerify(State):
             self.nconfig.peer_public_key
             or self.nconfig.peer_certificate.public_key()
         )
+        Signature = TLSSignatureSuite[content.algorithm]  # noqa: N806
+        if not Signature.can_sign_with(public_key):
+            e =(f"the server's selected {content.algorithm} isn't an "
+                "algorithm of the key it presented")
+            raise alerts.IllegalParameter(e)
         try:
-            TLSSignatureSuite[content.algorithm](public_key).verify(
+            Signature(public_key).verify(
                 content.signature,
                 CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
             )
-- 
2.43.0


From 6a4314b45933c20f6f6e1abfdb3a445ee8601984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 45/47] fix: an FFDHE share must have the size of its prime

---
 src/siotls/crypto/key_exchanges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index 88e9df4..5fe02c4 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -96,6 +96,9 @@ class _FFDHEMixin:
         if len(peer_key_share.lstrip(b'\x00')) < cls.min_key_length:
             e = "the peer's key is too short"
             raise alerts.InsufficientSecurity(e)
+        if len(peer_key_share) != cls.p_length:
+            e = "invalid peer ffdhe Y length"
+            raise ValueError(e)
 
         y = int.from_bytes(peer_key_share, 'big')
         if not (1 < y < cls.p - 1):
-- 
2.43.0


From 0271be29ca3c3eb27493de8038ccb2c291204862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 46/47] fix: an EC share must be an uncompressed point

---
 src/siotls/crypto/key_exchanges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index 5fe02c4..554bf25 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -61,6 +61,9 @@ class _SECMixin:
 
     @classmethod
     def resume(cls, private_key, peer_key_share):
+        if peer_key_share[:1] != b'\x04':
+            e = "the peer's key is not an uncompressed point"
+            raise ValueError(e)
         peer_public_key = ec.EllipticCurvePublicKey.from_encoded_point(
             cls.curve(), peer_key_share
         )
-- 
2.43.0


From 15b05fe05191ab2817a9534a5f3886a73de52c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 47/47] fix: refuse an OCSP response with an unknown signature
 algorithm with a value error

---
 src/siotls/crypto/ocsp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 7a45974..bf0da00 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -1,6 +1,6 @@
 from datetime import datetime
 
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
 from cryptography.x509 import ExtensionNotFound
@@ -82,7 +82,12 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "request and response signature algorithm mismatch"
         raise ValueError(e)
 
-    if res.signature_hash_algorithm != issuer.signature_hash_algorithm:
+    try:
+        same_hash = res.signature_hash_algorithm == issuer.signature_hash_algorithm
+    except UnsupportedAlgorithm as exc:
+        e = "unknown signature algorithm"
+        raise ValueError(e) from exc
+    if not same_hash:
         e = "request and response hash algorithm mismatch"
         raise ValueError(e)
 
-- 
2.43.0

