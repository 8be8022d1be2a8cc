From 2713b3cc6655dddce6e67180fa561c70b73cad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 01/17] fix: rekey_remote_cipherstate must rekey the remote
 cipherstate, not the local one

---
 stratumv2/nx-noise/src/noisesession.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 6c4cb06..ae4e2f9 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -65,7 +65,7 @@ impl NoiseSession {
 
     /// Calls the [Rekey](https://noiseprotocol.org/noise.html#rekey) method for `cs2`
     pub fn rekey_remote_cipherstate(&mut self) {
-        self.cs1.rekey()
+        self.cs2.rekey()
     }
 
     /// `NoiseSession` destructor function.
-- 
2.43.0


From af42bc3cc7d2ed2404a34fe45d3e3491aace955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 02/17] fix: handshake payloads shorter than a MAC or longer
 than 2048 bytes made the receiver panic

---
 stratumv2/nx-noise/src/state.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b3c458a..7da5071 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -221,14 +221,16 @@ impl SymmetricState {
     }
 
     pub(crate) fn decrypt_and_hash(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        let mut temp: [u8; 2048] = [0u8; 2048];
-        temp[..in_out.len()].copy_from_slice(in_out);
+        if in_out.len() < MAC_LENGTH {
+            return Err(NoiseError::MissingHsMacError);
+        }
+        let temp = in_out.to_vec();
         let (ciphertext, mac) = in_out.split_at_mut(in_out.len() - MAC_LENGTH);
         let mut temp_mac: [u8; MAC_LENGTH] = [0u8; MAC_LENGTH];
         temp_mac.copy_from_slice(mac);
         self.cs
             .decrypt_with_ad(&self.h.as_bytes()[..], ciphertext, &mut temp_mac)?;
-        self.mix_hash(&temp[..in_out.len()]);
+        self.mix_hash(&temp);
         Ok(())
     }
 
-- 
2.43.0


From d3648b479268f962fbdb39e41427b58d49e8fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 03/17] fix: ByteParser::next_by overflowed on huge steps
 instead of returning an error

---
 stratumv2/src/codec/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/parser.rs b/stratumv2/src/codec/parser.rs
index 8c7e7e6..858518f 100644
--- a/stratumv2/src/codec/parser.rs
+++ b/stratumv2/src/codec/parser.rs
@@ -14,7 +14,10 @@ impl<'a> ByteParser<'a> {
     }
 
     pub fn next_by(&mut self, step: usize) -> Result<&'a [u8]> {
-        let offset = self.start + step;
+        let offset = self
+            .start
+            .checked_add(step)
+            .ok_or_else(|| Error::ParseError("out of bounds error".into()))?;
 
         let b = self.bytes.get(self.start..offset);
         if b.is_none() {
-- 
2.43.0


From fa406275ba8f9b82b4f66de93a5e9a9e06d76960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 04/17] fix: serialization ignored short writes and silently
 lost bytes

---
 stratumv2/src/codec/frame.rs      |  8 +++++---
 stratumv2/src/noise/types.rs      |  4 ++--
 stratumv2/src/types/bytes.rs      |  2 +-
 stratumv2/src/types/fixed.rs      |  4 ++--
 stratumv2/src/types/primitives.rs | 10 +++++-----
 stratumv2/src/types/strings.rs    |  2 +-
 6 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index b8a16ec..7cc581f 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -42,14 +42,16 @@ impl Serializable for Message {
 
         let message_length = U24::new(self.payload.len() as u32)?;
 
-        Ok([
+        let header_length: usize = [
             extension_type.serialize(writer)?,
             message_type.serialize(writer)?,
             message_length.serialize(writer)?,
-            writer.write(self.payload.as_slice())?,
         ]
         .iter()
-        .sum())
+        .sum();
+        writer.write_all(self.payload.as_slice())?;
+
+        Ok(header_length + self.payload.len())
     }
 }
 
diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 9d3400d..475a9ba 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -26,7 +26,7 @@ pub type StaticPublicKey = noiseexplorer_nx::types::PublicKey;
 impl Serializable for StaticPublicKey {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.as_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
@@ -52,7 +52,7 @@ pub type Signature = ed25519_dalek::Signature;
 impl Serializable for Signature {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.to_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
diff --git a/stratumv2/src/types/bytes.rs b/stratumv2/src/types/bytes.rs
index bc25e76..bb5a8ad 100644
--- a/stratumv2/src/types/bytes.rs
+++ b/stratumv2/src/types/bytes.rs
@@ -76,7 +76,7 @@ macro_rules! impl_sized_B0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_slice())?;
+                writer.write_all(self.data.as_slice())?;
 
                 Ok(header_length + self.data.len())
             }
diff --git a/stratumv2/src/types/fixed.rs b/stratumv2/src/types/fixed.rs
index fbdfc79..28d2334 100644
--- a/stratumv2/src/types/fixed.rs
+++ b/stratumv2/src/types/fixed.rs
@@ -77,7 +77,7 @@ impl Deserializable for U24 {
 
 impl Serializable for U24 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0.to_le_bytes()[0..3])?;
+        writer.write_all(&self.0.to_le_bytes()[0..3])?;
         Ok(3)
     }
 }
@@ -97,7 +97,7 @@ impl Deserializable for U256 {
 
 impl Serializable for U256 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0)?;
+        writer.write_all(&self.0)?;
         Ok(32)
     }
 }
diff --git a/stratumv2/src/types/primitives.rs b/stratumv2/src/types/primitives.rs
index be4f924..a58cb9a 100644
--- a/stratumv2/src/types/primitives.rs
+++ b/stratumv2/src/types/primitives.rs
@@ -7,7 +7,7 @@ use std::io;
 impl Serializable for bool {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = if *self { vec![1u8] } else { vec![0u8] };
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -15,7 +15,7 @@ impl Serializable for bool {
 impl Serializable for u8 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -23,7 +23,7 @@ impl Serializable for u8 {
 impl Serializable for u16 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -31,7 +31,7 @@ impl Serializable for u16 {
 impl Serializable for u32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -39,7 +39,7 @@ impl Serializable for u32 {
 impl Serializable for f32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
diff --git a/stratumv2/src/types/strings.rs b/stratumv2/src/types/strings.rs
index e9f5378..018559f 100644
--- a/stratumv2/src/types/strings.rs
+++ b/stratumv2/src/types/strings.rs
@@ -74,7 +74,7 @@ macro_rules! impl_sized_STR0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_bytes())?;
+                writer.write_all(self.data.as_bytes())?;
 
                 Ok(header_length + self.length as usize)
             }
-- 
2.43.0


From e7c168d2d5d15fecc6406df0183f109e4e4c9eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 05/17] fix: frame length of payloads of 4 GiB or more was
 truncated instead of refused

---
 stratumv2/src/codec/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index 7cc581f..9985212 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -1,6 +1,7 @@
 use crate::codec::{serialize, ByteParser, Deserializable, Serializable};
 use crate::error::{Error, Result};
 use crate::types::{MessageType, U24};
+use std::convert::TryFrom;
 use std::io;
 
 /// The CHANNEL_BIT_MASK is used to mask out the MSB to identify if a message
@@ -40,7 +41,7 @@ impl Serializable for Message {
             extension_type |= CHANNEL_BIT_MASK;
         }
 
-        let message_length = U24::new(self.payload.len() as u32)?;
+        let message_length = U24::try_from(self.payload.len())?;
 
         let header_length: usize = [
             extension_type.serialize(writer)?,
-- 
2.43.0


From 0572b4a5d67f1e0df2703b8d9de4479bde14c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 06/17] fix: certificates were accepted before their valid_from
 time

---
 stratumv2/src/noise/certificate_format.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/noise/certificate_format.rs b/stratumv2/src/noise/certificate_format.rs
index 9342589..259b440 100644
--- a/stratumv2/src/noise/certificate_format.rs
+++ b/stratumv2/src/noise/certificate_format.rs
@@ -43,7 +43,15 @@ impl<'a> CertificateFormat<'a> {
     /// limits and whether the static public key was signed by the AuthorityKeyPair
     /// identifying the Mining Pool.
     pub fn verify(&self) -> Result<()> {
-        if unix_u32_now()? >= self.signature_noise_message.not_valid_after {
+        let now = unix_u32_now()?;
+
+        if now < self.signature_noise_message.valid_from {
+            return Err(Error::RequirementError(
+                "the signature noise message is not valid yet".into(),
+            ));
+        }
+
+        if now >= self.signature_noise_message.not_valid_after {
             return Err(Error::RequirementError(
                 "the signature noise message is expired".into(),
             ));
-- 
2.43.0


From 522b8291dd079b4ab01d0cd8eb0e13115c280203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 07/17] fix: unix timestamps beyond the u32 range wrapped
 around instead of being refused

---
 stratumv2/src/types/unix_timestamp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stratumv2/src/types/unix_timestamp.rs b/stratumv2/src/types/unix_timestamp.rs
index 2c42c5f..d97b5e3 100644
--- a/stratumv2/src/types/unix_timestamp.rs
+++ b/stratumv2/src/types/unix_timestamp.rs
@@ -1,11 +1,13 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
+use std::convert::TryInto;
 use std::time::SystemTime;
 
 /// Convert SystemTime to a Unix timestamp as a u32.
 pub fn system_unix_time_to_u32(time: &SystemTime) -> Result<u32> {
-    Ok(time
-        .duration_since(SystemTime::UNIX_EPOCH)
-        .map(|duration| duration.as_secs() as u32)?)
+    time.duration_since(SystemTime::UNIX_EPOCH)?
+        .as_secs()
+        .try_into()
+        .map_err(|_| Error::RequirementError("the unix time does not fit in a u32".into()))
 }
 
 /// A helper function that returns the current unix time in seconds as a u32.
-- 
2.43.0


From cf3bf489190eb529c5a62b34923739761b40bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 08/17] fix: PublicKey::from_str accepted the forbidden
 low-order public keys

---
 stratumv2/nx-noise/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 0fe14bf..c9ac781 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -358,7 +358,7 @@ impl std::str::FromStr for PublicKey {
     /// ```
     fn from_str(key: &str) -> Result<Self, NoiseError> {
         let pk = decode_str_32(key)?;
-        Ok(Self::from_hacl_public_key(curve25519::PublicKey(pk)))
+        Self::from_bytes(pk)
     }
 }
 
-- 
2.43.0


From 279545d7a821c50741c2142e11d5beef5a271c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 09/17] fix: recv_message must clear the MAC from the last 16
 bytes of a transport message

---
 stratumv2/nx-noise/src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 7da5071..767ecb7 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -119,6 +119,7 @@ impl CipherState {
         temp_mac.copy_from_slice(mac);
         self.decrypt_with_ad(&ZEROLEN[..], in_out, &mut temp_mac)?;
         temp_mac.zeroize();
+        mac.zeroize();
         Ok(())
     }
 }
-- 
2.43.0


From ab2a836ee8e7270d1fa4953dc26144832a38b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 10/17] fix: rekey must use the nonce 2^64-1 encoded as the
 Noise specification requires

---
 stratumv2/nx-noise/src/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 767ecb7..e2badc3 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -3,11 +3,11 @@
  * ---------------------------------------------------------------- */
 
 use crate::{
-    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, NONCE_LENGTH, ZEROLEN},
+    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, MAX_NONCE, ZEROLEN},
     error::NoiseError,
     prims::{decrypt, encrypt, hash, hash_with_context, hkdf},
     types::{Hash, Key, Keypair, Nonce, Psk, PublicKey},
-    utils::from_slice_hashlen,
+    utils::{from_slice_hashlen, prep_nonce},
 };
 use hacl_star::chacha20poly1305;
 use zeroize::Zeroize;
@@ -98,7 +98,7 @@ impl CipherState {
     pub(crate) fn rekey(&mut self) {
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
-            .nonce(&[0xFFu8; NONCE_LENGTH])
+            .nonce(&prep_nonce(MAX_NONCE))
             .encrypt(&ZEROLEN[..], &mut in_out[..], &mut [0u8; 16]);
         self.k.clear();
         self.k = Key::from_bytes(in_out);
-- 
2.43.0


From 063f94ccbd70c28732ca070504aeff67be769541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 11/17] fix: handshake messages sent or received out of turn
 must be refused

---
 stratumv2/nx-noise/src/error.rs        | 4 ++++
 stratumv2/nx-noise/src/noisesession.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 598db8a..6b44c72 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -16,6 +16,7 @@ pub enum NoiseError {
     MissingHsMacError,
     MissingrsError,
     MissingreError,
+    UnexpectedHandshakeTurnError,
 }
 
 impl std::fmt::Display for NoiseError {
@@ -40,6 +41,9 @@ impl std::fmt::Display for NoiseError {
             NoiseError::MissingneError => write!(f, "Invalid message length."),
             NoiseError::MissingrsError => write!(f, "Invalid message length."),
             NoiseError::MissingreError => write!(f, "Invalid message length."),
+            NoiseError::UnexpectedHandshakeTurnError => {
+                write!(f, "Handshake message sent or received out of turn.")
+            }
             NoiseError::Hex(ref e) => e.fmt(f),
         }
     }
diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index ae4e2f9..e9e39cd 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -147,6 +147,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The initiator sends the first handshake message, the responder the second.
+        if self.mc < 2 && self.i != (self.mc == 0) {
+            return Err(NoiseError::UnexpectedHandshakeTurnError);
+        }
         if self.mc == 0 {
             self.hs.write_message_a(in_out)?;
         } else if self.mc == 1 {
@@ -182,6 +186,10 @@ impl NoiseSession {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
 
+        // The responder receives the first handshake message, the initiator the second.
+        if self.mc < 2 && self.i == (self.mc == 0) {
+            return Err(NoiseError::UnexpectedHandshakeTurnError);
+        }
         if self.mc == 0 {
             self.hs.read_message_a(in_out)?;
         } else if self.mc == 1 {
-- 
2.43.0


From 580923a54590d0d1831b5e28528e56fd1a634d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 12/17] fix: the responder refused first handshake messages
 with a payload shorter than 16 bytes

---
 stratumv2/nx-noise/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index e2badc3..202a1a5 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -362,7 +362,7 @@ impl HandshakeState {
     }
 
     pub(crate) fn read_message_a(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        if in_out.len() < MAC_LENGTH + DHLEN {
+        if in_out.len() < DHLEN {
             return Err(NoiseError::MissingreError);
         }
 
-- 
2.43.0


From d436cf269556acf626dc26fbf47637787b4e5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 13/17] fix: decoding a malformed signature panicked instead of
 returning an error

---
 stratumv2/src/noise/types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 475a9ba..1904337 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -1,7 +1,6 @@
 use crate::codec::{ByteParser, Deserializable, Serializable};
 use crate::error::Result;
 use rand::rngs::OsRng;
-use std::convert::TryInto;
 use std::io;
 
 /// AuthorityKeyPair is an ed25519_dalek::Keypair used as the Authentication Authority
@@ -61,6 +60,6 @@ impl Serializable for Signature {
 impl Deserializable for Signature {
     fn deserialize(parser: &mut ByteParser) -> Result<Self> {
         let signature_bytes = parser.next_by(64)?;
-        Ok(Signature::new(signature_bytes.try_into()?))
+        Ok(Signature::from_bytes(signature_bytes)?)
     }
 }
-- 
2.43.0


From 6e98d5b23b3c5581d2a062cb4708e5155a1451a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 14/17] fix: a second handshake message refused for its length
 corrupted the handshake state

---
 stratumv2/nx-noise/src/state.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 202a1a5..6aa7c82 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -332,7 +332,10 @@ impl HandshakeState {
         &mut self,
         in_out: &mut [u8],
     ) -> Result<(Hash, CipherState, CipherState), NoiseError> {
-        if in_out.len() < DHLEN {
+        // This check was added to prevent an overflow bug found in fuzz testing. It comes
+        // before anything is mixed into the state, so that a refused buffer changes nothing.
+        // info: https://github.com/ccdle12/rust-stratum-v2/issues/190
+        if in_out.len() < DHLEN + (DHLEN + MAC_LENGTH) + MAC_LENGTH {
             return Err(NoiseError::MissingneError);
         }
         if self.e.is_empty() {
@@ -344,12 +347,6 @@ impl HandshakeState {
         /* No PSK, so skipping mixKey */
         self.ss.mix_key(&self.e.dh(&self.re.as_bytes()));
 
-        // This check was added to prevent an overflow bug found in fuzz testing.
-        // info: https://github.com/ccdle12/rust-stratum-v2/issues/190
-        if in_out.len() < DHLEN + MAC_LENGTH {
-            return Err(NoiseError::MissingneError);
-        }
-
         let (ns, in_out) = in_out.split_at_mut(DHLEN + MAC_LENGTH);
         ns[..DHLEN].copy_from_slice(&self.s.get_public_key().as_bytes()[..]);
         self.ss.encrypt_and_hash(ns)?;
@@ -382,14 +379,15 @@ impl HandshakeState {
         if in_out.len() < MAC_LENGTH + DHLEN {
             return Err(NoiseError::MissingreError);
         }
+        // Checked before anything is mixed into the state, so that a refused buffer changes nothing.
+        if in_out.len() < DHLEN + (DHLEN + MAC_LENGTH) + MAC_LENGTH {
+            return Err(NoiseError::MissingrsError);
+        }
         let (re, in_out) = in_out.split_at_mut(DHLEN);
         self.re = PublicKey::from_bytes(from_slice_hashlen(re))?;
         self.ss.mix_hash(&self.re.as_bytes()[..DHLEN]);
         /* No PSK, so skipping mixKey */
         self.ss.mix_key(&self.e.dh(&self.re.as_bytes()));
-        if in_out.len() < MAC_LENGTH + DHLEN {
-            return Err(NoiseError::MissingrsError);
-        }
         let (rs, in_out) = in_out.split_at_mut(MAC_LENGTH + DHLEN);
         self.ss.decrypt_and_hash(rs)?;
         self.rs = PublicKey::from_bytes(from_slice_hashlen(rs))?;
-- 
2.43.0


From 1fcdba13591694e8ed5ef7a045cf3a18ec8859b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 15/17] Hooks for verification: read and set the message
 numbers of a session (cfg verif_hooks)

---
 stratumv2/nx-noise/src/noisesession.rs | 21 +++++++++++++++++++++
 stratumv2/nx-noise/src/types.rs        | 15 +++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index e9e39cd..5a8c42c 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -209,3 +209,24 @@ impl NoiseSession {
         Ok(())
     }
 }
+
+/// Access to the message numbers for verification harnesses, compiled only with `--cfg verif_hooks`.
+#[allow(unexpected_cfgs)]
+mod verif_hooks {
+    #[cfg(verif_hooks)]
+    impl super::NoiseSession {
+        /// The next message numbers of `cs1` and `cs2`.
+        pub fn verif_nonces(&self) -> (u64, u64) {
+            (
+                self.cs1.get_nonce().verif_raw(),
+                self.cs2.get_nonce().verif_raw(),
+            )
+        }
+
+        /// Sets the next message numbers of `cs1` and `cs2`.
+        pub fn verif_set_nonces(&mut self, cs1: u64, cs2: u64) {
+            self.cs1.set_nonce(crate::types::Nonce::verif_from_raw(cs1));
+            self.cs2.set_nonce(crate::types::Nonce::verif_from_raw(cs2));
+        }
+    }
+}
diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index c9ac781..ae5a1fc 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -503,3 +503,18 @@ fn public_key_validation_test() {
         panic!("Denied valid Public Key value");
     }
 }
+
+/// Access to the raw value for verification harnesses, compiled only with `--cfg verif_hooks`.
+#[allow(unexpected_cfgs)]
+mod verif_hooks {
+    #[cfg(verif_hooks)]
+    impl super::Nonce {
+        pub(crate) fn verif_raw(self) -> u64 {
+            self.n
+        }
+
+        pub(crate) fn verif_from_raw(n: u64) -> Self {
+            Self { n }
+        }
+    }
+}
-- 
2.43.0


From f8d338882b43ec25a26262a0324bd64a12ca6c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:31 +0000
Subject: [PATCH 16/17] fix: keep a cleared cipher state closed when it is
 rekeyed

Rekeying an empty cipher state derived a key from the all-zero key, which
everybody can compute, and reopened the direction with it.
---
 stratumv2/nx-noise/src/state.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 6aa7c82..b779ef3 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -96,6 +96,10 @@ impl CipherState {
 
     #[allow(dead_code)]
     pub(crate) fn rekey(&mut self) {
+        // Deriving from the empty key would give a key that everybody can compute.
+        if !self.has_key() {
+            return;
+        }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
             .nonce(&prep_nonce(MAX_NONCE))
-- 
2.43.0


From 0bd8c85140e90310670cda483210a334779a0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:24 +0000
Subject: [PATCH 17/17] Hook for verification: set the message count of a
 session (cfg verif_hooks)

---
 stratumv2/nx-noise/src/noisesession.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 5a8c42c..81057be 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -228,5 +228,10 @@ mod verif_hooks {
             self.cs1.set_nonce(crate::types::Nonce::verif_from_raw(cs1));
             self.cs2.set_nonce(crate::types::Nonce::verif_from_raw(cs2));
         }
+
+        /// Sets the number of messages the session has handled.
+        pub fn verif_set_message_count(&mut self, n: u64) {
+            self.mc = n as _;
+        }
     }
 }
-- 
2.43.0

