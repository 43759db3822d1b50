From 3648fe74ca1da0e8e6fe49a100c5b4533cfab323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:18 +0000
Subject: [PATCH 01/17] fix: reject P-256/P-384 public keys with unreduced
 coordinates

SEC1 2.3.4 requires each coordinate to be an integer in [0, p-1]. These
were silently reduced, so several encodings of one point were accepted.
---
 graviola/src/mid/p256.rs | 4 +++-
 graviola/src/mid/p384.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index b48b4af..6439005 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -266,7 +266,9 @@ impl AffineMontPoint {
             FieldElement(util::big_endian_slice_to_u64x4(y).unwrap()).as_mont(),
         );
 
-        if !point.on_curve() {
+        // nb. coordinates were reduced above: the re-encoding differs
+        // if either was not less than the field prime.
+        if !point.on_curve() || point.as_bytes_uncompressed()[..] != *bytes {
             return Err(Error::NotOnCurve);
         }
 
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index 35ac6e8..a72a553 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -266,7 +266,9 @@ impl AffineMontPoint {
             FieldElement(util::big_endian_slice_to_u64x6(y).unwrap()).as_mont(),
         );
 
-        if !point.on_curve() {
+        // nb. coordinates were reduced above: the re-encoding differs
+        // if either was not less than the field prime.
+        if !point.on_curve() || point.as_bytes_uncompressed()[..] != *bytes {
             return Err(Error::NotOnCurve);
         }
 
-- 
2.43.0


From 403afc88df0e2ab6e7ae65feecbdfede4b89b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:59 +0000
Subject: [PATCH 02/17] fix: RSA signatures are exactly as long as the modulus

For moduli whose byte length is not a multiple of eight, signing produced an
over-long signature (or refused an exactly sized buffer), and valid signatures
were rejected.
---
 graviola/src/high/rsa.rs   | 26 +++++++++++++++-----------
 graviola/src/low/posint.rs | 18 ++++++++++++++++++
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0519f9e..d9c0570 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -143,7 +143,8 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = m.to_bytes(&mut m_bytes)?;
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_bytes_padded(m_bytes)?;
 
         let mut actual_m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let actual_m = &mut actual_m[..self.0.modulus_len_bytes()];
@@ -219,9 +220,10 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes_len = m.to_bytes(&mut m_bytes)?.len();
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_bytes_padded(m_bytes)?;
 
-        pkcs1::verify_pss_sig::<H>(&mut m_bytes[..m_bytes_len], hash.as_ref())
+        pkcs1::verify_pss_sig::<H>(m_bytes, hash.as_ref())
     }
 }
 
@@ -512,9 +514,9 @@ impl SigningKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<&'a [u8], Error> {
-        if signature.len() < self.0.modulus_len_bytes() {
-            return Err(Error::OutOfRange);
-        }
+        let signature = signature
+            .get_mut(..self.0.modulus_len_bytes())
+            .ok_or(Error::OutOfRange)?;
 
         let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let m = &mut m[..self.0.modulus_len_bytes()];
@@ -522,7 +524,8 @@ impl SigningKey {
 
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        c.to_bytes_padded(signature)?;
+        Ok(signature)
     }
 
     fn _sign_pss<'a, H: Hash>(
@@ -530,9 +533,9 @@ impl SigningKey {
         signature: &'a mut [u8],
         message: &[u8],
     ) -> Result<&'a [u8], Error> {
-        if signature.len() < self.0.modulus_len_bytes() {
-            return Err(Error::OutOfRange);
-        }
+        let signature = signature
+            .get_mut(..self.0.modulus_len_bytes())
+            .ok_or(Error::OutOfRange)?;
 
         let hash = H::hash(message);
 
@@ -542,7 +545,8 @@ impl SigningKey {
         pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        c.to_bytes_padded(signature)?;
+        Ok(signature)
     }
 }
 
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index cfbdaff..95e2a2f 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -105,6 +105,24 @@ impl<const N: usize> PosInt<N> {
         Ok(out)
     }
 
+    /// Like `to_bytes`, but fills `out` exactly: the encoding starts with as many
+    /// zero bytes as needed.
+    ///
+    /// An error is returned if `out` is too short.
+    pub(crate) fn to_bytes_padded(&self, out: &mut [u8]) -> Result<(), Error> {
+        if self.len_bytes() > out.len() {
+            return Err(Error::OutOfRange);
+        }
+
+        out.fill(0x00);
+        for (chunk, word) in out.rchunks_mut(8).zip(self.as_words().iter()) {
+            let word = word.to_be_bytes();
+            chunk.copy_from_slice(&word[word.len() - chunk.len()..]);
+        }
+
+        Ok(())
+    }
+
     /// Like `to_bytes`, but guarantees a zero byte prefix.
     ///
     /// This means, if the result is used in an ASN.1 encoded integer, the encoding
-- 
2.43.0


From 8e2fdae25d821fc7aca70d0113c5906315871370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 03/17] fix: RSASSA-PSS for moduli that are not a whole number
 of bytes

emBits is one less than the modulus length in bits, so the leftmost octet of
EM does not always have exactly seven usable bits. Signing failed and valid
signatures were rejected (and invalid ones accepted) for such keys.
---
 graviola/src/high/pkcs1.rs   | 49 ++++++++++++++++++++++++++++++------
 graviola/src/high/rsa.rs     | 13 ++++++----
 graviola/src/mid/rsa_priv.rs |  4 +++
 graviola/src/mid/rsa_pub.rs  |  4 +++
 4 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/graviola/src/high/pkcs1.rs b/graviola/src/high/pkcs1.rs
index ae9d4ee..9920d31 100644
--- a/graviola/src/high/pkcs1.rs
+++ b/graviola/src/high/pkcs1.rs
@@ -75,11 +75,13 @@ pub(crate) static DIGESTINFO_SHA512: &[u8] = &[
 ///
 /// `sLen` is fixed as `hLen`.
 /// `MGF` is `MGF1` with hash `H`.
-/// `out` is the modulus-length output buffer.
+/// `out` is the `emLen` output buffer, where `emLen` is `em_bits` rounded up to bytes.
+/// `em_bits` is one less than the modulus length in bits.
 /// `hash` is the message hash, made by the caller using `H`.
 /// `rng` is used to generate the salt.
-pub(crate) fn encode_pss_sig<H: Hash>(
+pub(crate) fn encode_pss_sig_bits<H: Hash>(
     out: &mut [u8],
+    em_bits: usize,
     rng: &mut dyn RandomSource,
     hash: &[u8],
 ) -> Result<(), Error> {
@@ -132,7 +134,7 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 
     // 11. Set the leftmost 8emLen - emBits bits of the leftmost octet in
     //     maskedDB to zero.
-    db[0] &= 0x7f;
+    db[0] &= pss_top_mask(em_len, em_bits);
 
     // 12. Let EM = maskedDB || H || 0xbc.
     let (bc, h_out) = h_bc.split_last_mut().unwrap();
@@ -143,16 +145,39 @@ pub(crate) fn encode_pss_sig<H: Hash>(
     Ok(())
 }
 
+/// `encode_pss_sig_bits`, for a modulus of a whole number of bytes.
+#[cfg(test)]
+fn encode_pss_sig<H: Hash>(
+    out: &mut [u8],
+    rng: &mut dyn RandomSource,
+    hash: &[u8],
+) -> Result<(), Error> {
+    let em_bits = out.len() * 8 - 1;
+    encode_pss_sig_bits::<H>(out, em_bits, rng, hash)
+}
+
+/// Mask for the bits of the leftmost octet of `EM` that are within `emBits`.
+fn pss_top_mask(em_len: usize, em_bits: usize) -> u8 {
+    0xff >> (8 * em_len - em_bits)
+}
+
 /// This is EMSA-PSS-VERIFY.
 ///
-/// `sLen` is fixed as `hLen`, like `encode_pss_sig`.
+/// `sLen` is fixed as `hLen`, like `encode_pss_sig_bits`.
 ///
 /// `MGF` is `MGF1` with hash `H`.
 ///
-/// `em` is the modulus-length input and temporary buffer.
+/// `em` is the `emLen` input and temporary buffer, where `emLen` is `em_bits` rounded
+/// up to bytes.
+///
+/// `em_bits` is one less than the modulus length in bits.
 ///
 /// `m_hash` is the message hash, made by the caller using `H`.
-pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+pub(crate) fn verify_pss_sig_bits<H: Hash>(
+    em: &mut [u8],
+    em_bits: usize,
+    m_hash: &[u8],
+) -> Result<(), Error> {
     // 1.   If the length of M is greater than the input limitation for
     //      the hash function (2^61 - 1 octets for SHA-1), output
     //      "inconsistent" and stop.
@@ -181,7 +206,8 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     // 6.   If the leftmost 8emLen - emBits bits of the leftmost octet in
     //      maskedDB are not all equal to zero, output "inconsistent" and
     //      stop.
-    if masked_db[0] & 0x80 != 0x00 {
+    let top_mask = pss_top_mask(em_len, em_bits);
+    if masked_db[0] & !top_mask != 0x00 {
         return Err(Error::BadSignature);
     }
 
@@ -192,7 +218,7 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
 
     // 9.   Set the leftmost 8emLen - emBits bits of the leftmost octet
     //      in DB to zero.
-    db[0] &= 0x7f;
+    db[0] &= top_mask;
 
     // 10.  If the emLen - hLen - sLen - 2 leftmost octets of DB are not
     //      zero or if the octet at position emLen - hLen - sLen - 1 (the
@@ -229,6 +255,13 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     }
 }
 
+/// `verify_pss_sig_bits`, for a modulus of a whole number of bytes.
+#[cfg(test)]
+fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+    let em_bits = em.len() * 8 - 1;
+    verify_pss_sig_bits::<H>(em, em_bits, m_hash)
+}
+
 /// Compute MGF1-H, and XOR the result into `out`.
 fn mgf1_xor<H: Hash>(seed: &[u8], h_len: usize, out: &mut [u8]) {
     for (chunk, counter) in out.chunks_mut(h_len).zip(0u32..) {
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index d9c0570..87eca67 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -220,10 +220,12 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
-        m.to_bytes_padded(m_bytes)?;
+        let em_bits = self.0.modulus_len_bits() - 1;
+        let m_bytes = &mut m_bytes[..em_bits.div_ceil(8)];
+        m.to_bytes_padded(m_bytes)
+            .map_err(|_| Error::BadSignature)?;
 
-        pkcs1::verify_pss_sig::<H>(m_bytes, hash.as_ref())
+        pkcs1::verify_pss_sig_bits::<H>(m_bytes, em_bits, hash.as_ref())
     }
 }
 
@@ -540,9 +542,10 @@ impl SigningKey {
         let hash = H::hash(message);
 
         let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m = &mut m[..self.0.modulus_len_bytes()];
+        let em_bits = self.0.modulus_len_bits() - 1;
+        let m = &mut m[..em_bits.div_ceil(8)];
 
-        pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
+        pkcs1::encode_pss_sig_bits::<H>(m, em_bits, &mut SystemRandom, hash.as_ref())?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
         c.to_bytes_padded(signature)?;
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 209eb77..15a9867 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -91,6 +91,10 @@ impl RsaPrivateKey {
         self.public.modulus_len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.public.modulus_len_bits()
+    }
+
     pub(crate) fn encode_components<'a>(
         &self,
         buffer: &'a mut RsaComponentsBuffer,
diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index f734e0a..ae253ec 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -46,6 +46,10 @@ impl RsaPublicKey {
         self.n.len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.n.len_bits()
+    }
+
     /// m = c ** e mod n
     pub(crate) fn public_op(&self, mut c: RsaPosInt) -> Result<RsaPosInt, Error> {
         if !c.less_than(&self.n) {
-- 
2.43.0


From a5d7769a2b4b4890611ff4be88b5754b860d631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:53 +0000
Subject: [PATCH 04/17] fix: reject RSA signatures that are not as long as the
 modulus

RFC8017 sections 8.1.2 and 8.2.2 require this as the first step of
verification.
---
 graviola/src/high/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 87eca67..0c46855 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -139,6 +139,9 @@ impl VerifyingKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<(), Error> {
+        if signature.len() != self.0.modulus_len_bytes() {
+            return Err(Error::BadSignature);
+        }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
@@ -213,7 +216,7 @@ impl VerifyingKey {
     fn _verify_pss<H: Hash>(&self, signature: &[u8], message: &[u8]) -> Result<(), Error> {
         let hash = H::hash(message);
 
-        if signature.len() > self.0.modulus_len_bytes() {
+        if signature.len() != self.0.modulus_len_bytes() {
             return Err(Error::BadSignature);
         }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
-- 
2.43.0


From 8047daff5faf3789c45b9dd8456dd7f0641ef248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:36 +0000
Subject: [PATCH 05/17] fix: RSA signing for keys whose primes differ in order
 or width

With p < q, m_2 is not reduced mod p, and signing failed for some messages.
With primes that differ in width, signing hit debug assertions or failed.
---
 graviola/src/low/posint.rs   | 4 ++++
 graviola/src/mid/rsa_priv.rs | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index 95e2a2f..3ef2935 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -541,6 +541,10 @@ impl<const N: usize> PosInt<N> {
         n_montifier: &PosInt<M>,
     ) -> PosInt<M> {
         assert!(M < N);
+        // montgomery reduction is limited to inputs twice the width of `n`.
+        if self.used > n.used * 2 {
+            return self.reduce_even(n);
+        }
         // do this by montgomery reduction (leaving one inverse-M term) then multiply out M
         self.mont_redc(n).to_montgomery(n_montifier, n)
     }
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 15a9867..892d855 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -168,8 +168,12 @@ impl RsaPrivateKey {
         // (we don't support multiprime rsa)
 
         // iii. Let h = (m_1 - m_2) * qInv mod p.
+        // (m_2 is reduced mod q, which may be larger or wider than p.)
+        let m_2_mod_p = m_2
+            .widen::<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>()
+            .reduce(&self.p, &self.p_montifier);
         let h = m_1
-            .sub_mod(&m_2, &self.p)
+            .sub_mod(&m_2_mod_p, &self.p)
             .mont_mul(&self.iqmp_mont, &self.p, self.p0);
 
         // iv.  Let m = m_2 + q * h.
-- 
2.43.0


From bf7e746106ae5f13b2f6ef1bb93d2df770a1f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 06/17] fix: reject data following a PKCS#8 key

---
 graviola/src/high/pkcs8.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 66d5bbf..eee6c5e 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -26,8 +26,7 @@ impl<'a> Key<'a> {
         algorithm: &asn1::ObjectId,
         parameters: Option<asn1::Any<'_>>,
     ) -> Result<Self, Error> {
-        let oak = pkix::OneAsymmetricKey::parse(&mut asn1::Parser::new(slice))
-            .map_err(Error::Asn1Error)?;
+        let oak = pkix::OneAsymmetricKey::from_bytes(slice).map_err(Error::Asn1Error)?;
 
         match (oak.version, oak.publicKey.inner()) {
             (pkix::Pkcs8Version::Pkcs8v1, None) => {}
-- 
2.43.0


From f5e3549c7a32a749c2698476f246d3b55d0b18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 07/17] fix: encode large RSA public exponents as positive
 integers

---
 graviola/src/high/rsa.rs     | 4 +++-
 graviola/src/mid/rsa_priv.rs | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0c46855..f1835eb 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -85,7 +85,9 @@ impl VerifyingKey {
 
         let mut buffer = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 1];
         let public_modulus = self.0.n.to_bytes_asn1(&mut buffer)?;
-        let public_exponent = self.0.e.to_be_bytes();
+        // with a leading zero, so this is never a negative `INTEGER`
+        let mut public_exponent = [0u8; 5];
+        public_exponent[1..].copy_from_slice(&self.0.e.to_be_bytes());
 
         let pub_key = pkix::RSAPublicKey {
             modulus: asn1::Integer::new(public_modulus),
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 892d855..dba8946 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -100,7 +100,7 @@ impl RsaPrivateKey {
         buffer: &'a mut RsaComponentsBuffer,
     ) -> Result<RsaComponents<'a>, Error> {
         let (public_modulus, buffer) = buffer.0.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
-        let (public_exponent, buffer) = buffer.split_at_mut(4);
+        let (public_exponent, buffer) = buffer.split_at_mut(5);
         let (p, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (q, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (d, buffer) = buffer.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
@@ -109,7 +109,8 @@ impl RsaPrivateKey {
         let (iqmp, _) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
 
         let public_modulus = self.public.n.to_bytes_asn1(public_modulus)?;
-        public_exponent.copy_from_slice(&self.public.e.to_be_bytes());
+        public_exponent[0] = 0x00;
+        public_exponent[1..].copy_from_slice(&self.public.e.to_be_bytes());
 
         let p = self.p.to_bytes_asn1(p)?;
         let q = self.q.to_bytes_asn1(q)?;
@@ -217,7 +218,7 @@ impl RsaComponentsBuffer {
         // public modulus and private exponent
         (MAX_PUBLIC_MODULUS_BYTES + 1) * 2 +
             // public exponent
-            4 +
+            5 +
             // private moduli and crt components
             (MAX_PRIVATE_MODULUS_BYTES + 1) * 5;
 }
@@ -230,7 +231,7 @@ impl Drop for RsaComponentsBuffer {
 
 impl Default for RsaComponentsBuffer {
     fn default() -> Self {
-        Self([0u8; 4619])
+        Self([0u8; Self::LEN])
     }
 }
 
-- 
2.43.0


From 3b4405d968ae5373b70f6e00c694df00260ab36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 08/17] fix: cross-check the public key in PKCS#8 v2 ECDSA and
 RSA keys

---
 graviola/src/high/ecdsa.rs | 22 +++++++++++++++++++---
 graviola/src/high/rsa.rs   | 21 ++++++++++++++++++---
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index 2a6e056..8689e6a 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -31,14 +31,30 @@ impl<C: Curve> SigningKey<C> {
     }
 
     /// Load an ECDSA private key in PKCS#8 format.
+    ///
+    /// If the encoding includes the alleged public key, this is checked against the actual one.
     pub fn from_pkcs8_der(bytes: &[u8]) -> Result<Self, Error> {
         let _entry = Entry::new_secret();
-        pkcs8::Key::decode(
+        let p8 = pkcs8::Key::decode(
             bytes,
             &asn1::oid::id_ecPublicKey,
             Some(asn1::Any::ObjectId(C::oid())),
-        )
-        .and_then(|k| Self::from_sec1_der(k.private_key()))
+        )?;
+
+        let key = Self::from_sec1_der(p8.private_key())?;
+
+        if let Some(alleged_pub_key) = p8.public_key() {
+            let mut actual_pub_key_buf = [0u8; MAX_UNCOMPRESSED_PUBLIC_KEY_LEN];
+            let actual_pub_key = key
+                .private_key
+                .public_key_encode_uncompressed(&mut actual_pub_key_buf)?;
+
+            if alleged_pub_key != actual_pub_key {
+                return Err(KeyFormatError::MismatchedPkcs8PublicKey.into());
+            }
+        }
+
+        Ok(key)
     }
 
     /// Encode this private key in PKCS#8 DER format.
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index f1835eb..2f66f62 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -4,6 +4,7 @@
 pub use rsa_priv::KeySize;
 
 use crate::Error;
+use crate::error::KeyFormatError;
 use crate::high::asn1::{self, Type, pkix};
 use crate::high::hash::{self, Hash};
 use crate::high::{pkcs1, pkcs8};
@@ -373,14 +374,28 @@ impl SigningKey {
     /// (and earlier standards, including the original PKCS#8 standard).
     ///
     /// `privateKeyAlgorithm` inside this encoding must be `rsaEncryption`.
+    ///
+    /// If the encoding includes the alleged public key, this is checked against the actual one.
     pub fn from_pkcs8_der(bytes: &[u8]) -> Result<Self, Error> {
         let _entry = Entry::new_secret();
-        pkcs8::Key::decode(
+        let p8 = pkcs8::Key::decode(
             bytes,
             &asn1::oid::rsaEncryption,
             Some(asn1::Any::Null(asn1::Null)),
-        )
-        .and_then(|k| Self::from_pkcs1_der(k.private_key()))
+        )?;
+
+        let key = Self::from_pkcs1_der(p8.private_key())?;
+
+        if let Some(alleged_pub_key) = p8.public_key() {
+            let mut actual_pub_key_buf = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 64];
+            let actual_pub_key = key.public_key().to_pkcs1_der(&mut actual_pub_key_buf)?;
+
+            if alleged_pub_key != actual_pub_key {
+                return Err(KeyFormatError::MismatchedPkcs8PublicKey.into());
+            }
+        }
+
+        Ok(key)
     }
 
     /// Returns the matching public key.
-- 
2.43.0


From 7e3f1b15147139ba31c948fb4f1d19627e5ff8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:28 +0000
Subject: [PATCH 09/17] fix: reject negative integers in RSA private keys

---
 graviola/src/high/rsa.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 2f66f62..b7c1566 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -289,7 +289,14 @@ impl SigningKey {
             return Err(Error::OutOfRange);
         }
 
-        if decoded.modulus.is_negative() {
+        if decoded.modulus.is_negative()
+            || decoded.prime1.is_negative()
+            || decoded.prime2.is_negative()
+            || decoded.privateExponent.is_negative()
+            || decoded.exponent1.is_negative()
+            || decoded.exponent2.is_negative()
+            || decoded.coefficient.is_negative()
+        {
             return Err(Error::OutOfRange);
         }
 
-- 
2.43.0


From 52548409b364a5ce5203d14f04f5f04382a21148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:30 +0000
Subject: [PATCH 10/17] fix: WrongLength for ECDSA and PKCS#8 outputs that do
 not fit, as documented

---
 graviola/src/high/ecdsa.rs | 6 +++---
 graviola/src/high/pkcs8.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index 8689e6a..2fe47bb 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -141,7 +141,7 @@ impl<C: Curve> SigningKey<C> {
 
         let used = ecpk
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
 
         output.get(..used).ok_or(Error::WrongLength)
     }
@@ -168,7 +168,7 @@ impl<C: Curve> SigningKey<C> {
 
         let len = spki
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
         Ok(&output[..len])
     }
 
@@ -219,7 +219,7 @@ impl<C: Curve> SigningKey<C> {
         let sig = asn1::pkix::EcdsaSigValue { r, s };
         let sig_len = sig
             .encode(&mut asn1::Encoder::new(asn1_signature))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
         Ok(&asn1_signature[..sig_len])
     }
 
diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index eee6c5e..e1a0b2f 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -80,7 +80,7 @@ impl<'a> Key<'a> {
         let len = self
             .0
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
 
         output.get(..len).ok_or(Error::WrongLength)
     }
-- 
2.43.0


From ef7b3e67625883f009f005512c748cae21ae45ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 11/17] fix: reject Ed25519 SubjectPublicKeyInfo with algorithm
 parameters

---
 graviola/src/high/ed25519.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/ed25519.rs b/graviola/src/high/ed25519.rs
index 1a094c8..995b471 100644
--- a/graviola/src/high/ed25519.rs
+++ b/graviola/src/high/ed25519.rs
@@ -19,7 +19,10 @@ impl Ed25519VerifyingKey {
         let _entry = Entry::new_public();
         let decoded = pkix::SubjectPublicKeyInfo::from_bytes(bytes).map_err(Error::Asn1Error)?;
 
-        if decoded.algorithm.algorithm != asn1::oid::id_ed25519 {
+        // RFC8410 section 3: the parameters MUST be absent.
+        if decoded.algorithm.algorithm != asn1::oid::id_ed25519
+            || decoded.algorithm.parameters.is_some()
+        {
             return Err(KeyFormatError::MismatchedSpkiAlgorithm.into());
         }
 
-- 
2.43.0


From eb7e903a53e153a6d2fd6f798b91441850c1029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:08 +0000
Subject: [PATCH 12/17] fix: reject RSA private keys with a zero CRT exponent

---
 graviola/src/mid/rsa_priv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index dba8946..22b8d87 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -41,6 +41,8 @@ impl RsaPrivateKey {
         if p.is_even()
             || q.is_even()
             || !(MIN_PRIVATE_MODULUS_BYTES..=MAX_PRIVATE_MODULUS_BYTES).contains(&p_len)
+            || dp.is_zero()
+            || dq.is_zero()
         {
             return Err(Error::OutOfRange);
         }
-- 
2.43.0


From 970756fdca7020b9851d17b6190746678b7d9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:40 +0000
Subject: [PATCH 13/17] fix: clear zmm16-31 on leaving library code

vzeroall only clears registers 0-15; since the AVX512 AES-GCM code was
added the upper registers kept key-dependent values after return.
---
 graviola/src/low/x86_64/cpu.rs | 51 +++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index c8ad5e3..f551a93 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -20,7 +20,6 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             // clear z/y/xmm0-15
             "   vzeroall",
 
-            // TODO: add zmm16-31 here if/when we use AVX512
             out("ymm0") _,
             out("ymm1") _,
             out("ymm2") _,
@@ -39,6 +38,8 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             out("ymm15") _,
         )
     }
+
+    zero_avx512_registers();
 }
 
 /// Effectively memset(ptr, 0, len), but not visible to optimiser
@@ -159,6 +160,54 @@ macro_rules! have_cpu_feature {
     };
 }
 
+/// Zeroise the registers that `vzeroall` does not reach.
+fn zero_avx512_registers() {
+    if !have_cpu_feature!("avx512f") {
+        return;
+    }
+
+    // SAFETY: the `avx512f` cpu feature is present.
+    // SAFETY: all registers written are listed as clobbers.
+    unsafe {
+        core::arch::asm!(
+            // clear z/y/xmm16-31
+            "   vpxord zmm16, zmm16, zmm16",
+            "   vpxord zmm17, zmm17, zmm17",
+            "   vpxord zmm18, zmm18, zmm18",
+            "   vpxord zmm19, zmm19, zmm19",
+            "   vpxord zmm20, zmm20, zmm20",
+            "   vpxord zmm21, zmm21, zmm21",
+            "   vpxord zmm22, zmm22, zmm22",
+            "   vpxord zmm23, zmm23, zmm23",
+            "   vpxord zmm24, zmm24, zmm24",
+            "   vpxord zmm25, zmm25, zmm25",
+            "   vpxord zmm26, zmm26, zmm26",
+            "   vpxord zmm27, zmm27, zmm27",
+            "   vpxord zmm28, zmm28, zmm28",
+            "   vpxord zmm29, zmm29, zmm29",
+            "   vpxord zmm30, zmm30, zmm30",
+            "   vpxord zmm31, zmm31, zmm31",
+
+            out("zmm16") _,
+            out("zmm17") _,
+            out("zmm18") _,
+            out("zmm19") _,
+            out("zmm20") _,
+            out("zmm21") _,
+            out("zmm22") _,
+            out("zmm23") _,
+            out("zmm24") _,
+            out("zmm25") _,
+            out("zmm26") _,
+            out("zmm27") _,
+            out("zmm28") _,
+            out("zmm29") _,
+            out("zmm30") _,
+            out("zmm31") _,
+        )
+    }
+}
+
 /// Token type reflecting the check for CPU features needed for AVX512-AES-GCM
 ///
 /// A value of this type is proof that the CPU dynamic feature check has happened.
-- 
2.43.0


From ceedc84a349270068c6ee980728d921819141622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 14/17] verif hook: report secret/public annotations to an
 external monitor (cfg verif_ctgrind)

---
 graviola/src/low/ct.rs               | 43 ++++++++++++++++++++++++++++
 graviola/src/low/generic/ct_equal.rs |  2 ++
 graviola/src/low/mod.rs              |  2 ++
 graviola/src/mid/mlkem768.rs         |  3 ++
 4 files changed, 50 insertions(+)

diff --git a/graviola/src/low/ct.rs b/graviola/src/low/ct.rs
index 79502b8..1173f98 100644
--- a/graviola/src/low/ct.rs
+++ b/graviola/src/low/ct.rs
@@ -57,6 +57,49 @@ cfg_if::cfg_if! {
             }
             v
         }
+    } else if #[cfg(verif_ctgrind)] {
+        // Verification hook: the same annotations, reported to an external monitor.
+        use core::mem::size_of_val;
+
+        const PUBLIC: u8 = 0;
+        const SECRET: u8 = 1;
+        const VERDICT: u8 = 2;
+
+        unsafe extern "Rust" {
+            fn __graviola_verif_mark(ptr: *const u8, len: usize, what: u8);
+        }
+
+        fn mark<T: ?Sized>(v: &T, what: u8) {
+            // SAFETY: the monitor only reads, and the memory is owned by `v`
+            unsafe { __graviola_verif_mark((v as *const T).cast(), size_of_val(v), what) }
+        }
+
+        pub(crate) fn secret_slice<T>(v: &[T]) {
+            mark(v, SECRET);
+        }
+
+        pub(crate) fn public_slice<T>(v: &[T]) {
+            mark(v, PUBLIC);
+        }
+
+        #[must_use]
+        pub(crate) fn into_secret<T>(v: T) -> T {
+            mark(&v, SECRET);
+            v
+        }
+
+        #[must_use]
+        pub(crate) fn into_public<T>(v: T) -> T {
+            mark(&v, PUBLIC);
+            v
+        }
+
+        /// The result of a comparison, which is usually public
+        #[must_use]
+        pub(crate) fn into_verdict<T>(v: T) -> T {
+            mark(&v, VERDICT);
+            v
+        }
     } else {
         #[inline]
         pub(crate) fn secret_slice<T>(_v: &[T]) {}
diff --git a/graviola/src/low/generic/ct_equal.rs b/graviola/src/low/generic/ct_equal.rs
index 38f0019..1d01628 100644
--- a/graviola/src/low/generic/ct_equal.rs
+++ b/graviola/src/low/generic/ct_equal.rs
@@ -10,5 +10,7 @@ pub(crate) fn ct_equal(a: &[u8], b: &[u8]) -> bool {
 
     // SAFETY: prior code guarantees a.len() == b.len()
     let diff = unsafe { ct_compare_bytes(a.as_ptr(), b.as_ptr(), a.len()) };
+    #[cfg(verif_ctgrind)]
+    let diff = crate::low::ct::into_verdict(diff);
     diff == 0
 }
diff --git a/graviola/src/low/mod.rs b/graviola/src/low/mod.rs
index 843df17..e9d31c8 100644
--- a/graviola/src/low/mod.rs
+++ b/graviola/src/low/mod.rs
@@ -4,6 +4,7 @@
 #[macro_use]
 mod macros;
 
+#[allow(unexpected_cfgs)] // verif_ctgrind
 pub(crate) mod ct;
 
 #[cfg(doc)]
@@ -14,6 +15,7 @@ mod generic {
     #[cfg(target_arch = "aarch64")]
     pub(crate) mod chacha20;
     pub(super) mod ct_copy;
+    #[allow(unexpected_cfgs)] // verif_ctgrind
     pub(super) mod ct_equal;
     #[cfg(test)]
     pub(crate) mod ghash;
diff --git a/graviola/src/mid/mlkem768.rs b/graviola/src/mid/mlkem768.rs
index d3f1b85..f9aab1b 100644
--- a/graviola/src/mid/mlkem768.rs
+++ b/graviola/src/mid/mlkem768.rs
@@ -139,6 +139,7 @@ impl DecapKey {
     }
 
     /// This is Algorithm 13: K-PKE.KeyGen(d) -> (ek_PKE, dk_PKE)
+    #[allow(unexpected_cfgs)] // verif_ctgrind
     fn kpke_keygen(d: &[u8; 32]) -> (EncapKey, [u8; K * 384]) {
         // 1. (𝜌, 𝜎) <- G(d || k)
         let mut g = sha3::Sha3_512Context::new();
@@ -147,6 +148,8 @@ impl DecapKey {
         let g = g.finish();
         let (rho, sigma) = g.split_at(32);
         let rho: [u8; 32] = rho.try_into().unwrap();
+        #[cfg(verif_ctgrind)]
+        let rho = low::ct::into_public(rho);
         let sigma = sigma.try_into().unwrap();
 
         // 3. - 7.
-- 
2.43.0


From 6191d8346a3c16258b9c92db34c50caf958aa122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:27 +0000
Subject: [PATCH 15/17] verif hook: the operands of public_eq are public to the
 external monitor (cfg verif_ctgrind)

---
 graviola/src/mid/p256.rs | 6 ++++++
 graviola/src/mid/p384.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index 6439005..d5d9ae3 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -761,7 +761,13 @@ impl FieldElement {
     }
 
     /// Public equality
+    #[allow(unexpected_cfgs)] // verif_ctgrind
     fn public_eq(&self, other: &Self) -> bool {
+        #[cfg(verif_ctgrind)]
+        {
+            low::ct::public_slice(&self.0);
+            low::ct::public_slice(&other.0);
+        }
         self.0 == other.0
     }
 
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index a72a553..50b17d6 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -642,7 +642,13 @@ impl FieldElement {
     }
 
     /// Public equality
+    #[allow(unexpected_cfgs)] // verif_ctgrind
     fn public_eq(&self, other: &Self) -> bool {
+        #[cfg(verif_ctgrind)]
+        {
+            low::ct::public_slice(&self.0);
+            low::ct::public_slice(&other.0);
+        }
         self.0 == other.0
     }
 
-- 
2.43.0


From 74cf3acae59673403e30d3864ed1321ae9a4d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:57 +0000
Subject: [PATCH 16/17] fix: allow Ed25519 certificates with TLS 1.2
 ECDHE_ECDSA suites

The provider offers ed25519 in signature_algorithms, but the suites did not list
it: a client aborted when a server signed its key exchange with it, and a server
with such a certificate found no suite in common with any client.
---
 rustls-graviola/src/suites.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustls-graviola/src/suites.rs b/rustls-graviola/src/suites.rs
index af432e5..6661a56 100644
--- a/rustls-graviola/src/suites.rs
+++ b/rustls-graviola/src/suites.rs
@@ -144,6 +144,7 @@ pub static TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384: SupportedCipherSuite =
     });
 
 static TLS12_ECDSA_SCHEMES: &[SignatureScheme] = &[
+    SignatureScheme::ED25519,
     SignatureScheme::ECDSA_NISTP521_SHA512,
     SignatureScheme::ECDSA_NISTP384_SHA384,
     SignatureScheme::ECDSA_NISTP256_SHA256,
-- 
2.43.0


From 753435e729ae31d7a417a0653f652aef631205d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:57 +0000
Subject: [PATCH 17/17] fix: reject oversized TLS 1.2 ChaCha20-Poly1305 records

The fragment of a record is at most 2^14 bytes; the AES-GCM decrypter already
refuses longer ones.
---
 rustls-graviola/src/aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 52d4d49..562905a 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -177,6 +177,10 @@ impl MessageDecrypter for ChaChaTls12Cipher {
             .decrypt(&nonce.0, &aad, payload, tag)
             .map_err(|_| rustls::Error::DecryptError)?;
 
+        if cipher_len > MAX_FRAGMENT_LEN {
+            return Err(rustls::Error::PeerSentOversizedRecord);
+        }
+
         m.payload.truncate(cipher_len);
         Ok(m.into_plain_message())
     }
-- 
2.43.0

