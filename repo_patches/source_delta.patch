From 32575c04d3a0379761306e0b4b558d693d7185e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 01/14] fix: use all 256 scalar bits in P-256 scalar
 multiplication

mult_scalar looked at only the low 8 bits of the low 7 limbs, so 2^8 * G
was the point at infinity and every ECDHE private key had 56 bits.
---
 src/crypto/p256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index f28b03a..2d31e06 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -207,8 +207,8 @@ impl Point256 {
 
     pub fn mult_scalar(&self, n: &Int256) -> Point256 {
         let mut ret = INFTY;
-        for i in (0..7).rev() {
-            for j in (0..8).rev() {
+        for i in (0..8).rev() {
+            for j in (0..32).rev() {
                 let bit = (n.v[i] >> j) & W(1);
 
                 let ret2 = ret.double();
-- 
2.43.0


From e695efb7e76d97d2beaaa1aa14ee7f439f07b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 02/14] fix: reject P-256 coordinates that are not below the
 prime

from_bytes returned values violating the Int256 invariant, so peers could
send non-canonical points, and large coordinates tripped a debug assertion.
---
 src/crypto/p256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 2d31e06..033e0d7 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -614,6 +614,11 @@ pub mod int256 {
                 x.v[LIMBS - 1 - i] = vi;
             }
 
+            // value must be < P256
+            if x.reduce_once_zero().compare(&x) != W(0) {
+                return None;
+            }
+
             Some(x)
         }
     }
-- 
2.43.0


From 153b05dec64d2d28560a5b1c226e963385bf306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 03/14] fix: reject trailing data in the server key exchange
 message

---
 src/cipher/ecdhe.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 7a92f4f..c9e3839 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::IllegalParameter;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
 use crate::tls_result::TlsResult;
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -121,6 +121,9 @@ impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        if reader.position() != data.len() as u64 {
+            return tls_err!(DecodeError, "trailing data after server key exchange");
+        }
 
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
-- 
2.43.0


From 66ec755fe5cbf8dd01d05979d9ec05c253951436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 04/14] fix: reject a server key exchange on a curve other than
 secp256r1

---
 src/cipher/ecdhe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index c9e3839..2437e0d 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -125,6 +125,11 @@ impl KeyExchange for EllipticDiffieHellman {
             return tls_err!(DecodeError, "trailing data after server key exchange");
         }
 
+        let EcParameters::named_curve(curve) = ecdh_params.params.curve_params;
+        if curve != NamedCurve::secp256r1 {
+            return tls_err!(IllegalParameter, "server chose a curve we did not offer");
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From 8037cac6e57b25754fb6d16059e234554d29b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 05/14] fix: draw the ECDHE private key from [1, group order)

Zero and the group order gave the point at infinity as public key and an
all-zero premaster secret.
---
 src/cipher/ecdhe.rs |  5 ++---
 src/crypto/p256.rs  | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 2437e0d..f63dce2 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -146,9 +146,8 @@ impl KeyExchange for EllipticDiffieHellman {
                 for i in 0..8 {
                     x.v[i] = W(rng.next_u32());
                 }
-                let xx = x.reduce_once(W(0));
-                let x_is_okay = xx.compare(&x);
-                if x_is_okay == W(0) {
+                // private key must be in [1, order of G)
+                if x.less_than(&p256::N) && x.compare(&p256::int256::ZERO) != W(0) {
                     return x;
                 }
             }
diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 033e0d7..8d15add 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -57,6 +57,20 @@ pub const B: Int256 = Int256 {
     ],
 };
 
+// order of G
+pub const N: Int256 = Int256 {
+    v: [
+        W(0xfc632551),
+        W(0xf3b9cac2),
+        W(0xa7179e84),
+        W(0xbce6faad),
+        W(0xffffffff),
+        W(0xffffffff),
+        W(0x00000000),
+        W(0xffffffff),
+    ],
+};
+
 const INFTY: Point256 = Point256 {
     x: ONE,
     y: ONE,
@@ -336,6 +350,12 @@ pub mod int256 {
             diff & W(1)
         }
 
+        // return true if self < b.
+        pub fn less_than(&self, b: &Int256) -> bool {
+            let (_, carry_sub) = self.sub_no_reduce(b);
+            carry_sub == W(1)
+        }
+
         // if flag == 0, returns a
         // if flag == 1, returns b
         pub fn choose(flag: W<u32>, a: &Int256, b: &Int256) -> Int256 {
-- 
2.43.0


From 367e14ca9b1c30e96a433da45a5bd69031b7351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 06/14] fix: support HMAC keys longer than the block size
 instead of panicking

---
 src/cipher/prf.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cipher/prf.rs b/src/cipher/prf.rs
index da0e802..1b7e36a 100644
--- a/src/cipher/prf.rs
+++ b/src/cipher/prf.rs
@@ -8,10 +8,13 @@ use std::mem;
 pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
     const B: usize = 64;
 
-    if key.len() > B {
-        // FIXME
-        unimplemented!();
-    }
+    let key_hash;
+    let key = if key.len() > B {
+        key_hash = sha256(key);
+        &key_hash[..]
+    } else {
+        key
+    };
 
     let mut i_msg = [0x36u8; B].to_vec();
     let mut o_msg = [0x5cu8; B].to_vec();
-- 
2.43.0


From 7e021f87347ec935e0d47d44a1a96d4ddd085804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 07/14] fix: report an over-long decrypted record as an error
 instead of panicking

---
 src/tls.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d1a3b19..d34097e 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -309,8 +309,11 @@ impl<R: ReadExt> TlsReader<R> {
                 // TODO: "seq_num as nonce" is chacha20poly1305-specific
                 let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                 if data.len() > RECORD_MAX_LEN {
-                    // decryption routine went wrong.
-                    panic!("decrypted record too long: {}", data.len());
+                    return tls_err!(
+                        RecordOverflow,
+                        "decrypted record too long: {}",
+                        data.len()
+                    );
                 }
 
                 Record::new(content_type, major, minor, data)
-- 
2.43.0


From b317831f34e1119d5f98844870f737536124ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 08/14] fix: return an error for unexpected messages after the
 handshake

Any alert, ChangeCipherSpec or handshake message from the peer made a read
panic.
---
 src/tls.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d34097e..6c937ab 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -407,9 +407,13 @@ impl<R: ReadExt> TlsReader<R> {
                     level: _,
                     description: AlertDescription::close_notify,
                 }) => return Ok(vec![]),
-                AlertMessage(..) => unimplemented!(),
-                ChangeCipherSpecMessage => unimplemented!(), // this should not come here
-                HandshakeMessage(..) => unimplemented!(),    // TODO: re-handshake
+                AlertMessage(alert) => {
+                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
+                }
+                // TODO: re-handshake
+                ChangeCipherSpecMessage | HandshakeMessage(..) => {
+                    return tls_err!(UnexpectedMessage, "expected ApplicationData")
+                }
             }
         }
     }
-- 
2.43.0


From 05b00353a2e5591a2b04805f1ede39f8b9a64582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 09/14] fix: deliver no application data after the peer closed
 the connection

A read went on reading records after close_notify, and returned their data.
---
 src/client.rs |  3 +++
 src/tls.rs    | 20 ++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index d8a79d9..7867969 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -334,6 +334,9 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
                         break; // FIXME: stop if EOF. otherwise raise error?
                     }
                 };
+                if data.is_empty() {
+                    break; // connection closed
+                }
                 self.buf.extend(&data);
             }
 
diff --git a/src/tls.rs b/src/tls.rs
index 6c937ab..a7514d5 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -206,6 +206,8 @@ pub struct TlsReader<R: ReadExt> {
     read_count: u64,
     handshake_buffer: HandshakeBuffer,
     iv: Option<Vec<u8>>,
+    // true once the peer sent an alert; nothing is read after that.
+    closed: bool,
 }
 
 /// Reads `Record` or `Message` from a readable object.
@@ -218,6 +220,7 @@ impl<R: ReadExt> TlsReader<R> {
             read_count: 0,
             handshake_buffer: HandshakeBuffer::new(),
             iv: None,
+            closed: false,
         }
     }
 
@@ -394,20 +397,33 @@ impl<R: ReadExt> TlsReader<R> {
         }
     }
 
+    /// Read non-empty application data.
+    /// Empty data is returned if and only if the peer closed the connection.
     pub fn read_application_data(&mut self) -> TlsResult<Vec<u8>> {
         if self.decryptor.is_none() {
             panic!("ApplicationData called before handshake");
         }
+        if self.closed {
+            return Ok(vec![]);
+        }
         loop {
             let msg = self.read_message()?;
             match msg {
-                ApplicationDataMessage(msg) => return Ok(msg),
+                ApplicationDataMessage(msg) => {
+                    if !msg.is_empty() {
+                        return Ok(msg);
+                    }
+                }
                 // TODO: handle other cases
                 AlertMessage(Alert {
                     level: _,
                     description: AlertDescription::close_notify,
-                }) => return Ok(vec![]),
+                }) => {
+                    self.closed = true;
+                    return Ok(vec![]);
+                }
                 AlertMessage(alert) => {
+                    self.closed = true;
                     return tls_err!(AlertReceived, "alert: {:?}", alert.description)
                 }
                 // TODO: re-handshake
-- 
2.43.0


From c4ee66a1413007c8e00f647f3f7436aa1d2a1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 10/14] fix: never reuse a nonce after a failed write

The sequence number advanced only when the transport accepted the record,
so a write after a transport error encrypted new data under the same nonce.
---
 src/tls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index a7514d5..a745320 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -138,6 +138,8 @@ impl<W: Write> TlsWriter<W> {
                 encryptor.encrypt(&u96_seq_num, &record.fragment, &ad)
             }
         };
+        // the nonce is used up now, even if writing fails.
+        self.write_count += 1;
 
         let fragment_len = encrypted_fragment.len();
         if fragment_len > ENC_RECORD_MAX_LEN {
@@ -150,8 +152,6 @@ impl<W: Write> TlsWriter<W> {
         self.writer.write_be_u16(fragment_len as u16)?;
         self.writer.write_all(&encrypted_fragment)?;
 
-        self.write_count += 1;
-
         Ok(())
     }
 
-- 
2.43.0


From a2ea34d1e0ecf3907ee0e2398068575c1105b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 11/14] fix: reject trailing data after the hello extensions

It was dropped silently, so the transcript hash did not cover what the
server sent.
---
 src/tls_item.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tls_item.rs b/src/tls_item.rs
index d8e9122..05f1557 100644
--- a/src/tls_item.rs
+++ b/src/tls_item.rs
@@ -347,6 +347,14 @@ macro_rules! tls_option {
 
                 let mut rest_reader = std::io::Cursor::new(rest);
                 let extensions: $t = TlsItem::tls_read(&mut rest_reader)?;
+                if rest_reader.position() != len as u64 {
+                    return tls_err!(
+                        crate::tls_result::TlsErrorKind::DecodeError,
+                        "trailing data: {} of {} bytes used",
+                        rest_reader.position(),
+                        len
+                    );
+                }
                 Ok(Some(extensions))
             }
 
-- 
2.43.0


From 5dc5c2472dc26df51a1e226de738fd596d883e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 12/14] fix: retry an interrupted read instead of losing the
 bytes already read

---
 src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index bc10366..0e8d792 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -89,7 +89,11 @@ pub trait ReadExt: Read {
         let len = buf.len();
         let mut pos = 0;
         while pos < len {
-            let num_bytes = self.read(&mut buf[pos..])?;
+            let num_bytes = match self.read(&mut buf[pos..]) {
+                Ok(num_bytes) => num_bytes,
+                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err),
+            };
             if num_bytes == 0 {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From d21ae4161b49677a0d19a31a4880c7ea38dfb907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 13/14] fix: refuse ChangeCipherSpec while a partial handshake
 message is pending

Otherwise bytes received unprotected become part of a message that is
finished, and accepted, under the new keys.
---
 src/handshake.rs | 4 ++++
 src/tls.rs       | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index c066a42..57e0cec 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -335,6 +335,10 @@ impl HandshakeBuffer {
         HandshakeBuffer { buf: Vec::new() }
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.buf.is_empty()
+    }
+
     pub fn add_record(&mut self, fragment: &[u8]) {
         self.buf.extend(fragment);
     }
diff --git a/src/tls.rs b/src/tls.rs
index a745320..e095872 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -355,6 +355,13 @@ impl<R: ReadExt> TlsReader<R> {
                     if record.fragment.len() != 1 || record.fragment[0] != 1 {
                         return tls_err!(UnexpectedMessage, "invalid ChangeCipherSpec arrived");
                     }
+                    if !self.handshake_buffer.is_empty() {
+                        // message must not span a key change
+                        return tls_err!(
+                            UnexpectedMessage,
+                            "ChangeCipherSpec arrived in the middle of Handshake"
+                        );
+                    }
                     return Ok(ChangeCipherSpecMessage);
                 }
                 AlertTy => {
-- 
2.43.0


From 3fe95c451e81408495834d13fb40bb56842efc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 14/14] fix: report a truncated handshake message as a decode
 error

A handshake message cut short inside its own announced length was
reported as a transport failure, so no alert was sent for it.
---
 src/cipher/ecdhe.rs | 11 +++++++++--
 src/handshake.rs    | 12 +++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index f63dce2..14bd7c8 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter, IoFailure};
 use crate::tls_result::TlsResult;
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -120,7 +120,14 @@ pub struct EllipticDiffieHellman;
 impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
-        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        let ecdh_params: EcdheServerKeyExchange = match TlsItem::tls_read(&mut reader) {
+            Ok(params) => params,
+            Err(err) => match err.kind {
+                // the message is complete, so this is not a transport failure
+                IoFailure => return tls_err!(DecodeError, "truncated server key exchange"),
+                _ => return Err(err),
+            },
+        };
         if reader.position() != data.len() as u64 {
             return tls_err!(DecodeError, "trailing data after server key exchange");
         }
diff --git a/src/handshake.rs b/src/handshake.rs
index 57e0cec..245b545 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,7 +1,7 @@
 use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
-use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
+use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, IoFailure, UnexpectedMessage};
 use crate::tls_result::TlsResult;
 use crate::util::{ReadExt, WriteExt};
 
@@ -371,8 +371,14 @@ impl HandshakeBuffer {
         self.buf = remaining;
 
         let reader = &mut &message[..];
-        let message: Handshake = TlsItem::tls_read(reader)?;
-        Ok(Some(message))
+        match TlsItem::tls_read(reader) {
+            Ok(message) => Ok(Some(message)),
+            Err(err) => match err.kind {
+                // the message is complete, so this is not a transport failure
+                IoFailure => tls_err!(DecodeError, "truncated handshake message"),
+                _ => Err(err),
+            },
+        }
     }
 }
 
-- 
2.43.0

