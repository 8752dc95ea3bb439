From 2325b3772d160a2eec7600f00c4302ee4c7e5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 01/18] fix: reject non-canonical coordinates in P-256 and
 P-384 public keys

---
 graviola/src/mid/p256.rs | 6 ++++++
 graviola/src/mid/p384.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index b48b4af..e235466 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -270,6 +270,12 @@ impl AffineMontPoint {
             return Err(Error::NotOnCurve);
         }
 
+        // SEC1 2.3.4 & 2.3.6: coordinates must be in [0, p - 1]; anything
+        // larger was reduced mod p above, and so does not re-encode the same.
+        if point.as_bytes_uncompressed() != bytes {
+            return Err(Error::OutOfRange);
+        }
+
         Ok(point)
     }
 
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index 35ac6e8..ad681b5 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -270,6 +270,12 @@ impl AffineMontPoint {
             return Err(Error::NotOnCurve);
         }
 
+        // SEC1 2.3.4 & 2.3.6: coordinates must be in [0, p - 1]; anything
+        // larger was reduced mod p above, and so does not re-encode the same.
+        if point.as_bytes_uncompressed() != bytes {
+            return Err(Error::OutOfRange);
+        }
+
         Ok(point)
     }
 
-- 
2.43.0


From 38aa4c30defe764746f4748ef107592e179ba86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 02/18] fix: RSA signing when the second prime is larger or
 wider than the first

`private_op` passed `m_2` (reduced mod q) to `sub_mod` mod p without
reducing it mod p.  For keys with q > p that sporadically failed the
signature self-check (so signing returned an error), and panicked if p
and q occupy a different number of words.
---
 graviola/src/mid/rsa_priv.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 209eb77..03e9835 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -164,8 +164,13 @@ impl RsaPrivateKey {
         // (we don't support multiprime rsa)
 
         // iii. Let h = (m_1 - m_2) * qInv mod p.
+        // (`sub_mod` needs both inputs reduced mod p, but m_2 is only
+        // reduced mod q, and q can be larger or a different width to p.)
+        let m_2_mod_p = m_2
+            .widen::<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>()
+            .reduce(&self.p, &self.p_montifier);
         let h = m_1
-            .sub_mod(&m_2, &self.p)
+            .sub_mod(&m_2_mod_p, &self.p)
             .mont_mul(&self.iqmp_mont, &self.p, self.p0);
 
         // iv.  Let m = m_2 + q * h.
-- 
2.43.0


From a255c4d0847b1c01b827f21d732f28d7514026df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 03/18] fix: RSA moduli whose size is not a whole number of
 words

Moduli of any length between 2048 and 8192 bits are accepted, but the
encodings assumed a multiple of 64 bits (and PSS a multiple of 8 bits):
valid signatures were rejected, signing returned over-long or invalid
PSS signatures, or needed an over-long buffer.
---
 graviola/src/high/pkcs1.rs   | 42 +++++++++++++++++++++++++++++-------
 graviola/src/high/rsa.rs     | 32 ++++++++++++++++-----------
 graviola/src/low/posint.rs   | 17 +++++++++++++++
 graviola/src/mid/rsa_priv.rs |  4 ++++
 graviola/src/mid/rsa_pub.rs  |  4 ++++
 5 files changed, 78 insertions(+), 21 deletions(-)

diff --git a/graviola/src/high/pkcs1.rs b/graviola/src/high/pkcs1.rs
index ae9d4ee..cc93f52 100644
--- a/graviola/src/high/pkcs1.rs
+++ b/graviola/src/high/pkcs1.rs
@@ -75,11 +75,13 @@ pub(crate) static DIGESTINFO_SHA512: &[u8] = &[
 ///
 /// `sLen` is fixed as `hLen`.
 /// `MGF` is `MGF1` with hash `H`.
-/// `out` is the modulus-length output buffer.
+/// `out` is the output buffer, of length `emLen` (`em_bits` rounded up to bytes).
+/// `em_bits` is one less than the bit length of the modulus.
 /// `hash` is the message hash, made by the caller using `H`.
 /// `rng` is used to generate the salt.
-pub(crate) fn encode_pss_sig<H: Hash>(
+pub(crate) fn encode_pss_sig_bits<H: Hash>(
     out: &mut [u8],
+    em_bits: usize,
     rng: &mut dyn RandomSource,
     hash: &[u8],
 ) -> Result<(), Error> {
@@ -132,7 +134,7 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 
     // 11. Set the leftmost 8emLen - emBits bits of the leftmost octet in
     //     maskedDB to zero.
-    db[0] &= 0x7f;
+    db[0] &= 0xff >> (8 * em_len - em_bits);
 
     // 12. Let EM = maskedDB || H || 0xbc.
     let (bc, h_out) = h_bc.split_last_mut().unwrap();
@@ -143,16 +145,33 @@ pub(crate) fn encode_pss_sig<H: Hash>(
     Ok(())
 }
 
+/// `encode_pss_sig_bits` for a modulus with all its leading byte's bits used.
+#[cfg(test)]
+fn encode_pss_sig<H: Hash>(
+    out: &mut [u8],
+    rng: &mut dyn RandomSource,
+    hash: &[u8],
+) -> Result<(), Error> {
+    encode_pss_sig_bits::<H>(out, out.len() * 8 - 1, rng, hash)
+}
+
 /// This is EMSA-PSS-VERIFY.
 ///
-/// `sLen` is fixed as `hLen`, like `encode_pss_sig`.
+/// `sLen` is fixed as `hLen`, like `encode_pss_sig_bits`.
 ///
 /// `MGF` is `MGF1` with hash `H`.
 ///
-/// `em` is the modulus-length input and temporary buffer.
+/// `em` is the input and temporary buffer, of length `emLen` (`em_bits` rounded
+/// up to bytes).
+///
+/// `em_bits` is one less than the bit length of the modulus.
 ///
 /// `m_hash` is the message hash, made by the caller using `H`.
-pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+pub(crate) fn verify_pss_sig_bits<H: Hash>(
+    em: &mut [u8],
+    em_bits: usize,
+    m_hash: &[u8],
+) -> Result<(), Error> {
     // 1.   If the length of M is greater than the input limitation for
     //      the hash function (2^61 - 1 octets for SHA-1), output
     //      "inconsistent" and stop.
@@ -181,7 +200,8 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     // 6.   If the leftmost 8emLen - emBits bits of the leftmost octet in
     //      maskedDB are not all equal to zero, output "inconsistent" and
     //      stop.
-    if masked_db[0] & 0x80 != 0x00 {
+    let top_mask = 0xff >> (8 * em_len - em_bits);
+    if masked_db[0] & !top_mask != 0x00 {
         return Err(Error::BadSignature);
     }
 
@@ -192,7 +212,7 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
 
     // 9.   Set the leftmost 8emLen - emBits bits of the leftmost octet
     //      in DB to zero.
-    db[0] &= 0x7f;
+    db[0] &= top_mask;
 
     // 10.  If the emLen - hLen - sLen - 2 leftmost octets of DB are not
     //      zero or if the octet at position emLen - hLen - sLen - 1 (the
@@ -229,6 +249,12 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     }
 }
 
+/// `verify_pss_sig_bits` for a modulus with all its leading byte's bits used.
+#[cfg(test)]
+fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+    verify_pss_sig_bits::<H>(em, em.len() * 8 - 1, m_hash)
+}
+
 /// Compute MGF1-H, and XOR the result into `out`.
 fn mgf1_xor<H: Hash>(seed: &[u8], h_len: usize, out: &mut [u8]) {
     for (chunk, counter) in out.chunks_mut(h_len).zip(0u32..) {
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0519f9e..3952213 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -143,7 +143,8 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = m.to_bytes(&mut m_bytes)?;
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_fixed_bytes(m_bytes)?;
 
         let mut actual_m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let actual_m = &mut actual_m[..self.0.modulus_len_bytes()];
@@ -218,10 +219,12 @@ impl VerifyingKey {
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
+        let em_bits = self.0.modulus_len_bits() - 1;
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes_len = m.to_bytes(&mut m_bytes)?.len();
+        let m_bytes = &mut m_bytes[..em_bits.div_ceil(8)];
+        m.to_fixed_bytes(m_bytes).map_err(|_| Error::BadSignature)?;
 
-        pkcs1::verify_pss_sig::<H>(&mut m_bytes[..m_bytes_len], hash.as_ref())
+        pkcs1::verify_pss_sig_bits::<H>(m_bytes, em_bits, hash.as_ref())
     }
 }
 
@@ -512,9 +515,9 @@ impl SigningKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<&'a [u8], Error> {
-        if signature.len() < self.0.modulus_len_bytes() {
-            return Err(Error::OutOfRange);
-        }
+        let signature = signature
+            .get_mut(..self.0.modulus_len_bytes())
+            .ok_or(Error::OutOfRange)?;
 
         let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let m = &mut m[..self.0.modulus_len_bytes()];
@@ -522,7 +525,8 @@ impl SigningKey {
 
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        c.to_fixed_bytes(signature)?;
+        Ok(signature)
     }
 
     fn _sign_pss<'a, H: Hash>(
@@ -530,19 +534,21 @@ impl SigningKey {
         signature: &'a mut [u8],
         message: &[u8],
     ) -> Result<&'a [u8], Error> {
-        if signature.len() < self.0.modulus_len_bytes() {
-            return Err(Error::OutOfRange);
-        }
+        let signature = signature
+            .get_mut(..self.0.modulus_len_bytes())
+            .ok_or(Error::OutOfRange)?;
 
         let hash = H::hash(message);
 
         let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m = &mut m[..self.0.modulus_len_bytes()];
+        let em_bits = self.0.modulus_len_bits() - 1;
+        let m = &mut m[..em_bits.div_ceil(8)];
 
-        pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
+        pkcs1::encode_pss_sig_bits::<H>(m, em_bits, &mut SystemRandom, hash.as_ref())?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        c.to_fixed_bytes(signature)?;
+        Ok(signature)
     }
 }
 
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index cfbdaff..e77f209 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -105,6 +105,23 @@ impl<const N: usize> PosInt<N> {
         Ok(out)
     }
 
+    /// Encodes `self` into exactly the whole of `out`, zero-padded at the front.
+    ///
+    /// An error is returned if the value does not fit.
+    pub(crate) fn to_fixed_bytes(&self, out: &mut [u8]) -> Result<(), Error> {
+        if self.len_bytes() > out.len() {
+            return Err(Error::OutOfRange);
+        }
+
+        out.fill(0);
+        for (chunk, word) in out.rchunks_mut(8).zip(self.as_words().iter()) {
+            let word = word.to_be_bytes();
+            chunk.copy_from_slice(&word[word.len() - chunk.len()..]);
+        }
+
+        Ok(())
+    }
+
     /// Like `to_bytes`, but guarantees a zero byte prefix.
     ///
     /// This means, if the result is used in an ASN.1 encoded integer, the encoding
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 03e9835..536298b 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -91,6 +91,10 @@ impl RsaPrivateKey {
         self.public.modulus_len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.public.modulus_len_bits()
+    }
+
     pub(crate) fn encode_components<'a>(
         &self,
         buffer: &'a mut RsaComponentsBuffer,
diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index f734e0a..ae253ec 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -46,6 +46,10 @@ impl RsaPublicKey {
         self.n.len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.n.len_bits()
+    }
+
     /// m = c ** e mod n
     pub(crate) fn public_op(&self, mut c: RsaPosInt) -> Result<RsaPosInt, Error> {
         if !c.less_than(&self.n) {
-- 
2.43.0


From 154447b3fe49257bbd2fc8e075ac69b7a20e119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 04/18] fix: reject RSA signatures that are not the length of
 the modulus

RFC 8017 8.1.2 and 8.2.2 step 1.  Signatures with leading zeroes removed
(or, for PKCS#1 v1.5, added) were accepted.
---
 graviola/src/high/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 3952213..9496afd 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -139,6 +139,9 @@ impl VerifyingKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<(), Error> {
+        if signature.len() != self.0.modulus_len_bytes() {
+            return Err(Error::BadSignature);
+        }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
@@ -213,7 +216,7 @@ impl VerifyingKey {
     fn _verify_pss<H: Hash>(&self, signature: &[u8], message: &[u8]) -> Result<(), Error> {
         let hash = H::hash(message);
 
-        if signature.len() > self.0.modulus_len_bytes() {
+        if signature.len() != self.0.modulus_len_bytes() {
             return Err(Error::BadSignature);
         }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
-- 
2.43.0


From 800d92d4c43946b011bbc50c51db3868647dd935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:52 +0000
Subject: [PATCH 05/18] fix: reject negative or zero components in RSA private
 keys

A private key with a zero CRT exponent decoded, and then panicked when
used to sign; negative values were silently taken as large positive ones.
---
 graviola/src/high/rsa.rs     | 13 ++++++++++++-
 graviola/src/mid/rsa_priv.rs |  4 ++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 9496afd..fe4189e 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -285,7 +285,18 @@ impl SigningKey {
             return Err(Error::OutOfRange);
         }
 
-        if decoded.modulus.is_negative() {
+        if [
+            &decoded.modulus,
+            &decoded.prime1,
+            &decoded.prime2,
+            &decoded.privateExponent,
+            &decoded.exponent1,
+            &decoded.exponent2,
+            &decoded.coefficient,
+        ]
+        .iter()
+        .any(|i| i.is_negative())
+        {
             return Err(Error::OutOfRange);
         }
 
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 536298b..5990fae 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -41,6 +41,10 @@ impl RsaPrivateKey {
         if p.is_even()
             || q.is_even()
             || !(MIN_PRIVATE_MODULUS_BYTES..=MAX_PRIVATE_MODULUS_BYTES).contains(&p_len)
+            || d.is_zero()
+            || dp.is_zero()
+            || dq.is_zero()
+            || iqmp.is_zero()
         {
             return Err(Error::OutOfRange);
         }
-- 
2.43.0


From 2d6e197159c216d080c4de17f4b5e08dfca80d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:44 +0000
Subject: [PATCH 06/18] fix: reject data after a PKCS#8 key

The decoder is documented to decode the whole slice.
---
 graviola/src/high/pkcs8.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 66d5bbf..eee6c5e 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -26,8 +26,7 @@ impl<'a> Key<'a> {
         algorithm: &asn1::ObjectId,
         parameters: Option<asn1::Any<'_>>,
     ) -> Result<Self, Error> {
-        let oak = pkix::OneAsymmetricKey::parse(&mut asn1::Parser::new(slice))
-            .map_err(Error::Asn1Error)?;
+        let oak = pkix::OneAsymmetricKey::from_bytes(slice).map_err(Error::Asn1Error)?;
 
         match (oak.version, oak.publicKey.inner()) {
             (pkix::Pkcs8Version::Pkcs8v1, None) => {}
-- 
2.43.0


From c0702a9785aa92b4f4d71686a49e3220fca16730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:44 +0000
Subject: [PATCH 07/18] fix: reject Ed25519 public keys with algorithm
 parameters

RFC8410 requires that the parameters are absent; the private key decoder
already checks this.
---
 graviola/src/high/ed25519.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/ed25519.rs b/graviola/src/high/ed25519.rs
index 1a094c8..207b387 100644
--- a/graviola/src/high/ed25519.rs
+++ b/graviola/src/high/ed25519.rs
@@ -19,7 +19,10 @@ impl Ed25519VerifyingKey {
         let _entry = Entry::new_public();
         let decoded = pkix::SubjectPublicKeyInfo::from_bytes(bytes).map_err(Error::Asn1Error)?;
 
-        if decoded.algorithm.algorithm != asn1::oid::id_ed25519 {
+        // RFC8410 section 3: "the parameters MUST be absent".
+        if decoded.algorithm.algorithm != asn1::oid::id_ed25519
+            || decoded.algorithm.parameters.is_some()
+        {
             return Err(KeyFormatError::MismatchedSpkiAlgorithm.into());
         }
 
-- 
2.43.0


From 1995180e712d982a07753a29fed81cd1e7940529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:08 +0000
Subject: [PATCH 08/18] fix: encode RSA public exponents of 2^31 and above

These were encoded as a negative INTEGER, which could not be decoded again.
---
 graviola/src/high/rsa.rs     |  3 ++-
 graviola/src/mid/rsa_priv.rs | 10 +++++-----
 graviola/src/mid/rsa_pub.rs  |  3 +++
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index fe4189e..7b40286 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -85,7 +85,8 @@ impl VerifyingKey {
 
         let mut buffer = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 1];
         let public_modulus = self.0.n.to_bytes_asn1(&mut buffer)?;
-        let public_exponent = self.0.e.to_be_bytes();
+        let mut public_exponent = [0u8; rsa_pub::MAX_PUBLIC_EXPONENT_ASN1_BYTES];
+        public_exponent[1..].copy_from_slice(&self.0.e.to_be_bytes());
 
         let pub_key = pkix::RSAPublicKey {
             modulus: asn1::Integer::new(public_modulus),
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 5990fae..7fce8b5 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -1,7 +1,7 @@
 // Written for Graviola by Joe Birr-Pixton, 2024.
 // SPDX-License-Identifier: Apache-2.0 OR ISC OR MIT-0
 
-use super::rsa_pub::{MAX_PUBLIC_MODULUS_BYTES, RsaPublicKey};
+use super::rsa_pub::{MAX_PUBLIC_EXPONENT_ASN1_BYTES, MAX_PUBLIC_MODULUS_BYTES, RsaPublicKey};
 use crate::error::Error;
 use crate::low;
 use crate::mid::rng::RandomSource;
@@ -104,7 +104,7 @@ impl RsaPrivateKey {
         buffer: &'a mut RsaComponentsBuffer,
     ) -> Result<RsaComponents<'a>, Error> {
         let (public_modulus, buffer) = buffer.0.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
-        let (public_exponent, buffer) = buffer.split_at_mut(4);
+        let (public_exponent, buffer) = buffer.split_at_mut(MAX_PUBLIC_EXPONENT_ASN1_BYTES);
         let (p, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (q, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (d, buffer) = buffer.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
@@ -113,7 +113,7 @@ impl RsaPrivateKey {
         let (iqmp, _) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
 
         let public_modulus = self.public.n.to_bytes_asn1(public_modulus)?;
-        public_exponent.copy_from_slice(&self.public.e.to_be_bytes());
+        public_exponent[1..].copy_from_slice(&self.public.e.to_be_bytes());
 
         let p = self.p.to_bytes_asn1(p)?;
         let q = self.q.to_bytes_asn1(q)?;
@@ -222,7 +222,7 @@ impl RsaComponentsBuffer {
         // public modulus and private exponent
         (MAX_PUBLIC_MODULUS_BYTES + 1) * 2 +
             // public exponent
-            4 +
+            MAX_PUBLIC_EXPONENT_ASN1_BYTES +
             // private moduli and crt components
             (MAX_PRIVATE_MODULUS_BYTES + 1) * 5;
 }
@@ -235,7 +235,7 @@ impl Drop for RsaComponentsBuffer {
 
 impl Default for RsaComponentsBuffer {
     fn default() -> Self {
-        Self([0u8; 4619])
+        Self([0u8; Self::LEN])
     }
 }
 
diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index ae253ec..dc506c3 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -86,6 +86,9 @@ impl RsaPublicKey {
     }
 }
 
+/// A big-endian `u32`, prefixed with a zero byte so it cannot be taken as negative.
+pub(crate) const MAX_PUBLIC_EXPONENT_ASN1_BYTES: usize = 1 + 4;
+
 const MAX_PUBLIC_MODULUS_BITS: usize = 8192;
 const MAX_PUBLIC_MODULUS_WORDS: usize = MAX_PUBLIC_MODULUS_BITS / 64;
 pub(crate) const MAX_PUBLIC_MODULUS_BYTES: usize = MAX_PUBLIC_MODULUS_BITS / 8;
-- 
2.43.0


From f110d59439243b6b3185500d20aa2b6ab863752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 09/18] fix: return the documented error for output buffers
 that are too short

---
 graviola/src/high/ecdsa.rs | 6 +++---
 graviola/src/high/pkcs8.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index 2a6e056..ddd1dbb 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -125,7 +125,7 @@ impl<C: Curve> SigningKey<C> {
 
         let used = ecpk
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
 
         output.get(..used).ok_or(Error::WrongLength)
     }
@@ -152,7 +152,7 @@ impl<C: Curve> SigningKey<C> {
 
         let len = spki
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
         Ok(&output[..len])
     }
 
@@ -203,7 +203,7 @@ impl<C: Curve> SigningKey<C> {
         let sig = asn1::pkix::EcdsaSigValue { r, s };
         let sig_len = sig
             .encode(&mut asn1::Encoder::new(asn1_signature))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
         Ok(&asn1_signature[..sig_len])
     }
 
diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index eee6c5e..e1a0b2f 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -80,7 +80,7 @@ impl<'a> Key<'a> {
         let len = self
             .0
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
 
         output.get(..len).ok_or(Error::WrongLength)
     }
-- 
2.43.0


From 3abda37ba7c7b4c8527b76a65cd4fb2c4cdae4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:11 +0000
Subject: [PATCH 10/18] fix: refuse oversized TLS1.2 ChaCha20Poly1305 records

---
 rustls-graviola/src/aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 52d4d49..562905a 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -177,6 +177,10 @@ impl MessageDecrypter for ChaChaTls12Cipher {
             .decrypt(&nonce.0, &aad, payload, tag)
             .map_err(|_| rustls::Error::DecryptError)?;
 
+        if cipher_len > MAX_FRAGMENT_LEN {
+            return Err(rustls::Error::PeerSentOversizedRecord);
+        }
+
         m.payload.truncate(cipher_len);
         Ok(m.into_plain_message())
     }
-- 
2.43.0


From 915cea744701a95f2bc19fa7b23d95fdd4c77b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:41 +0000
Subject: [PATCH 11/18] fix: clear zmm16-31 when leaving secret operations

`vzeroall` only reaches zmm0-15, but the AES-GCM/GHASH AVX-512 code (and
memcpy, as called by the compiler) leaves secrets in zmm16-31.
---
 graviola/src/low/x86_64/cpu.rs | 51 +++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index c8ad5e3..141baf3 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -20,7 +20,6 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             // clear z/y/xmm0-15
             "   vzeroall",
 
-            // TODO: add zmm16-31 here if/when we use AVX512
             out("ymm0") _,
             out("ymm1") _,
             out("ymm2") _,
@@ -39,6 +38,56 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             out("ymm15") _,
         )
     }
+
+    // `vzeroall` does not reach zmm16-31.  This does not use `have_cpu_feature!`:
+    // it matters whether these registers exist, not whether we choose to use them
+    // (compiler-generated calls to `memcpy` and such may do so, too).
+    if is_x86_feature_detected!("avx512f") {
+        // SAFETY: avx512f checked immediately above
+        unsafe { _zero_zmm16_31() }
+    }
+}
+
+#[target_feature(enable = "avx512f")]
+fn _zero_zmm16_31() {
+    // SAFETY: all registers written are listed as clobbers.
+    unsafe {
+        core::arch::asm!(
+            "   vpxorq zmm16, zmm16, zmm16",
+            "   vpxorq zmm17, zmm17, zmm17",
+            "   vpxorq zmm18, zmm18, zmm18",
+            "   vpxorq zmm19, zmm19, zmm19",
+            "   vpxorq zmm20, zmm20, zmm20",
+            "   vpxorq zmm21, zmm21, zmm21",
+            "   vpxorq zmm22, zmm22, zmm22",
+            "   vpxorq zmm23, zmm23, zmm23",
+            "   vpxorq zmm24, zmm24, zmm24",
+            "   vpxorq zmm25, zmm25, zmm25",
+            "   vpxorq zmm26, zmm26, zmm26",
+            "   vpxorq zmm27, zmm27, zmm27",
+            "   vpxorq zmm28, zmm28, zmm28",
+            "   vpxorq zmm29, zmm29, zmm29",
+            "   vpxorq zmm30, zmm30, zmm30",
+            "   vpxorq zmm31, zmm31, zmm31",
+
+            out("zmm16") _,
+            out("zmm17") _,
+            out("zmm18") _,
+            out("zmm19") _,
+            out("zmm20") _,
+            out("zmm21") _,
+            out("zmm22") _,
+            out("zmm23") _,
+            out("zmm24") _,
+            out("zmm25") _,
+            out("zmm26") _,
+            out("zmm27") _,
+            out("zmm28") _,
+            out("zmm29") _,
+            out("zmm30") _,
+            out("zmm31") _,
+        )
+    }
 }
 
 /// Effectively memset(ptr, 0, len), but not visible to optimiser
-- 
2.43.0


From 0134a229273da9551df1555965e94e77320e66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:14 +0000
Subject: [PATCH 12/18] fix: permit Ed25519 in TLS1.2 ECDHE_ECDSA cipher suites

RFC8422 has these suites cover Ed25519, and the provider offers ED25519 in
signature_algorithms. But a client then rejected a server that used it, and
a server could not use its Ed25519 key.
---
 rustls-graviola/src/suites.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustls-graviola/src/suites.rs b/rustls-graviola/src/suites.rs
index af432e5..6661a56 100644
--- a/rustls-graviola/src/suites.rs
+++ b/rustls-graviola/src/suites.rs
@@ -144,6 +144,7 @@ pub static TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384: SupportedCipherSuite =
     });
 
 static TLS12_ECDSA_SCHEMES: &[SignatureScheme] = &[
+    SignatureScheme::ED25519,
     SignatureScheme::ECDSA_NISTP521_SHA512,
     SignatureScheme::ECDSA_NISTP384_SHA384,
     SignatureScheme::ECDSA_NISTP256_SHA256,
-- 
2.43.0


From 70492444f1092c931a2cfd61dbb17bcb3791c811 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 13/18] hook: export HashBlock under cfg(graviola_verif)

---
 graviola/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graviola/src/lib.rs b/graviola/src/lib.rs
index c6564ae..011316b 100644
--- a/graviola/src/lib.rs
+++ b/graviola/src/lib.rs
@@ -165,7 +165,10 @@ pub mod signing {
 }
 
 /// Cryptographic hash functions.
+#[allow(unexpected_cfgs)] // `graviola_verif`: for external verification harnesses only
 pub mod hashing {
+    #[cfg(graviola_verif)]
+    pub use super::high::hash::HashBlock;
     pub use super::high::hash::{Hash, HashContext, HashOutput, Sha256, Sha384, Sha512};
     pub use super::high::hmac;
     pub use super::mid::sha2;
-- 
2.43.0


From 8ce34bfd1df887b37ff765c7e58370fe5244ee2d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 20:02:58 +0000
Subject: [PATCH 14/18] fix: draw another nonce if an ECDSA signature would
 have s = 0

---
 graviola/src/high/ecdsa.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index ddd1dbb..fa5ee53 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -248,14 +248,17 @@ impl<C: Curve> SigningKey<C> {
         );
         zeroise(&mut encoded_private_key_buf);
 
-        let (k, r) = loop {
+        let (r, s) = loop {
             let k = C::generate_random_key(&mut rng)?;
-            let x = k.public_key_x_scalar();
-            if !x.is_zero() {
-                break (k, x);
+            let r = k.public_key_x_scalar();
+            if r.is_zero() {
+                continue;
+            }
+            let s = self.private_key.raw_ecdsa_sign(&k, &e, &r);
+            if !s.is_zero() {
+                break (r, s);
             }
         };
-        let s = self.private_key.raw_ecdsa_sign(&k, &e, &r);
 
         r.write_bytes(&mut output[..C::Scalar::LEN_BYTES]);
         s.write_bytes(&mut output[C::Scalar::LEN_BYTES..]);
-- 
2.43.0


From 3bcd42c0e1153d64b28a8fa1af4a55f6fad30f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 15/18] fix: accept tickets for an empty state

---
 rustls-graviola/src/ticketer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rustls-graviola/src/ticketer.rs b/rustls-graviola/src/ticketer.rs
index 4653153..67ca82a 100644
--- a/rustls-graviola/src/ticketer.rs
+++ b/rustls-graviola/src/ticketer.rs
@@ -103,11 +103,7 @@ impl ProducesTickets for XChaCha20Ticketer {
 
         let plain_len = ciphertext
             .len()
-            .saturating_sub(self.key_name.len() + 24 + 16);
-
-        if plain_len == 0 {
-            return None;
-        }
+            .checked_sub(self.key_name.len() + 24 + 16)?;
 
         let (alleged_key_name, rest) = ciphertext.split_at(self.key_name.len());
 
-- 
2.43.0


From 95ffac0690e92162fd65d0e892c7cf3b33a08c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 16/18] fix: refuse to run without bmi2

---
 graviola/src/low/x86_64/cpu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index 141baf3..68f0c48 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -293,6 +293,13 @@ pub(crate) fn verify_cpu_features() {
         "graviola requires bmi1 CPU support"
     );
 
+    // this does not use `have_cpu_feature!`, because its toggle selects only the
+    // sha512 implementation
+    assert!(
+        is_x86_feature_detected!("bmi2"),
+        "graviola requires bmi2 CPU support"
+    );
+
     // see this valgrind bug: https://bugs.kde.org/show_bug.cgi?id=494162
     assert!(
         have_cpu_feature!("adx") || option_env!("VALGRIND_BUG_494162").is_some(),
-- 
2.43.0


From 09604fe7fac9367cbeb3155f3736a1e4bcb09da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 17/18] fix: do not use the AVX2 SHA-512 on a CPU without AVX2

---
 graviola/src/low/x86_64/cpu.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index 68f0c48..9866aa7 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -243,7 +243,7 @@ impl HaveSha256 {
     }
 }
 
-/// Token type reflecting the check for the BMI2 CPU feature
+/// Token type reflecting the check for the BMI2 CPU feature (plus AVX and AVX2)
 ///
 /// A value of this type is proof that the CPU dynamic feature check has happened.
 #[derive(Clone, Copy, Debug)]
@@ -251,7 +251,9 @@ pub(crate) struct HaveBmi2(());
 
 impl HaveBmi2 {
     pub(crate) fn check() -> Option<Self> {
-        match have_cpu_feature!("bmi2") {
+        // hashing is possible without `verify_cpu_features()` having been called,
+        // so the features required of every CPU must be checked too.
+        match have_cpu_feature!("bmi2") && have_cpu_feature!("avx") && have_cpu_feature!("avx2") {
             true => Some(Self(())),
             false => None,
         }
-- 
2.43.0


From 5a1897816435504b7e5237faf3e3057ed0434c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 18/18] fix: clear memory without AVX2, as it happens even
 where AVX2 is missing

---
 graviola/src/low/x86_64/cpu.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index 9866aa7..2bf7a8e 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -97,22 +97,19 @@ fn _zero_zmm16_31() {
 /// and that the pointed-to object has a safe all-zeroes representation.
 /// (see `low::generic::zeroise` which expresses this within the type system).
 pub(in crate::low) fn zero_bytes(ptr: *mut u8, len: usize) {
-    // SAFETY: this crate requires the `avx` cpu feature
-    unsafe { _zero_bytes(ptr, len) }
-}
-
-#[target_feature(enable = "avx,avx2")]
-unsafe fn _zero_bytes(ptr: *mut u8, len: usize) {
+    // this needs nothing beyond sse2, because it also runs when values are dropped
+    // while `verify_cpu_features()` panics.
+    //
     // SAFETY: writes to `len` bytes at `ptr`, which the caller guarantees
     unsafe {
         core::arch::asm!(
-            "       vpxor   {zero}, {zero}, {zero}",
-            // by-32 loop
-            "   2:  cmp {len}, 32",
+            "       pxor    {zero}, {zero}",
+            // by-16 loop
+            "   2:  cmp {len}, 16",
             "       jl  3f",
-            "       vmovdqu [{ptr}], {zero}",
-            "       add {ptr}, 32",
-            "       sub {len}, 32",
+            "       movdqu  [{ptr}], {zero}",
+            "       add {ptr}, 16",
+            "       sub {len}, 16",
             "       jmp 2b",
             // by-1 loop
             "   3:  sub {len}, 1",
@@ -126,7 +123,7 @@ unsafe fn _zero_bytes(ptr: *mut u8, len: usize) {
             len = inout(reg) len => _,
 
             // clobbers
-            zero = out(ymm_reg) _,
+            zero = out(xmm_reg) _,
         )
     }
 }
-- 
2.43.0

