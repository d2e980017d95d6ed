From 032bee36771ac412d8491ff3f8e94090b5ead125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 01/16] fix: reject P-256/P-384 public keys with non-canonical
 coordinates

A coordinate not less than the field prime was silently reduced, so
encodings such as (x + p, y) were accepted as aliases of (x, y).
---
 graviola/src/mid/p256.rs | 17 +++++++++++++++--
 graviola/src/mid/p384.rs | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index b48b4af..11519cd 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -262,8 +262,8 @@ impl AffineMontPoint {
         let (x, y) = xy.split_at(FieldElement::BYTES);
 
         let point = Self::from_xy(
-            FieldElement(util::big_endian_slice_to_u64x4(x).unwrap()).as_mont(),
-            FieldElement(util::big_endian_slice_to_u64x4(y).unwrap()).as_mont(),
+            FieldElement::from_bytes_checked(x)?.as_mont(),
+            FieldElement::from_bytes_checked(y)?.as_mont(),
         );
 
         if !point.on_curve() {
@@ -711,6 +711,19 @@ struct FieldElement([u64; 4]);
 impl FieldElement {
     const BYTES: usize = 32;
 
+    /// Create a (non-Montgomery, public) field element from the given slice.
+    ///
+    /// This returns an error if the length is wrong, or if the encoding is not
+    /// canonical (ie. the value is not less than the field prime).
+    fn from_bytes_checked(bytes: &[u8]) -> Result<Self, Error> {
+        let full = Self(util::big_endian_slice_to_u64x4(bytes).ok_or(Error::WrongLength)?);
+
+        match full.as_mont().demont().public_eq(&full) {
+            true => Ok(full),
+            false => Err(Error::OutOfRange),
+        }
+    }
+
     fn inv(&self) -> Self {
         let mut r = Self::default();
         low::bignum_inv_p256(&mut r.0, &self.0);
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index 35ac6e8..fab4c7a 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -262,8 +262,8 @@ impl AffineMontPoint {
         let (x, y) = xy.split_at(FieldElement::BYTES);
 
         let point = Self::from_xy(
-            FieldElement(util::big_endian_slice_to_u64x6(x).unwrap()).as_mont(),
-            FieldElement(util::big_endian_slice_to_u64x6(y).unwrap()).as_mont(),
+            FieldElement::from_bytes_checked(x)?.as_mont(),
+            FieldElement::from_bytes_checked(y)?.as_mont(),
         );
 
         if !point.on_curve() {
@@ -592,6 +592,19 @@ struct FieldElement([u64; 6]);
 impl FieldElement {
     const BYTES: usize = 48;
 
+    /// Create a (non-Montgomery, public) field element from the given slice.
+    ///
+    /// This returns an error if the length is wrong, or if the encoding is not
+    /// canonical (ie. the value is not less than the field prime).
+    fn from_bytes_checked(bytes: &[u8]) -> Result<Self, Error> {
+        let full = Self(util::big_endian_slice_to_u64x6(bytes).ok_or(Error::WrongLength)?);
+
+        match full.as_mont().demont().public_eq(&full) {
+            true => Ok(full),
+            false => Err(Error::OutOfRange),
+        }
+    }
+
     fn inv(&self) -> Self {
         let mut r = Self::default();
         low::bignum_inv_p384(&mut r.0, &self.0);
-- 
2.43.0


From fc66abf67fe7c23fcc9589c9426244d46b1fa770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:49 +0000
Subject: [PATCH 02/16] fix: require RSA signatures to be exactly modulus
 length

RFC8017 sections 8.1.2 and 8.2.2 (step 1) require that a signature whose
length is not the modulus length is rejected.  PKCS#1 verification accepted
any length, and PSS verification accepted shorter encodings.
---
 graviola/src/high/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0519f9e..8a3ac5b 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -139,6 +139,9 @@ impl VerifyingKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<(), Error> {
+        if signature.len() != self.0.modulus_len_bytes() {
+            return Err(Error::BadSignature);
+        }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
@@ -212,7 +215,7 @@ impl VerifyingKey {
     fn _verify_pss<H: Hash>(&self, signature: &[u8], message: &[u8]) -> Result<(), Error> {
         let hash = H::hash(message);
 
-        if signature.len() > self.0.modulus_len_bytes() {
+        if signature.len() != self.0.modulus_len_bytes() {
             return Err(Error::BadSignature);
         }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
-- 
2.43.0


From d8ff81aa750d68b159fa62d5efef2b4ef75e3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 03/16] fix: support RSA moduli that are not a multiple of 64
 bits long

Signatures and message representatives were converted to octet strings of
a whole number of words, rather than of the modulus length (RFC8017 I2OSP).
That meant valid signatures by keys with other modulus lengths were
rejected or produced with the wrong length, and that signatures with a
leading zero word were produced too short.  PSS encoding also assumed
the modulus length was a multiple of 8 bits.
---
 graviola/src/high/pkcs1.rs   | 60 ++++++++++++++++++++++++++++++------
 graviola/src/high/rsa.rs     | 23 ++++++++++----
 graviola/src/low/posint.rs   | 18 +++++++++++
 graviola/src/mid/rsa_priv.rs |  4 +++
 graviola/src/mid/rsa_pub.rs  |  4 +++
 5 files changed, 94 insertions(+), 15 deletions(-)

diff --git a/graviola/src/high/pkcs1.rs b/graviola/src/high/pkcs1.rs
index ae9d4ee..861c3da 100644
--- a/graviola/src/high/pkcs1.rs
+++ b/graviola/src/high/pkcs1.rs
@@ -76,10 +76,12 @@ pub(crate) static DIGESTINFO_SHA512: &[u8] = &[
 /// `sLen` is fixed as `hLen`.
 /// `MGF` is `MGF1` with hash `H`.
 /// `out` is the modulus-length output buffer.
+/// `em_bits` is `emBits`: one less than the bit length of the modulus.
 /// `hash` is the message hash, made by the caller using `H`.
 /// `rng` is used to generate the salt.
-pub(crate) fn encode_pss_sig<H: Hash>(
+pub(crate) fn encode_pss_sig_bits<H: Hash>(
     out: &mut [u8],
+    em_bits: usize,
     rng: &mut dyn RandomSource,
     hash: &[u8],
 ) -> Result<(), Error> {
@@ -92,9 +94,14 @@ pub(crate) fn encode_pss_sig<H: Hash>(
     // 3.  If emLen < hLen + sLen + 2, output "encoding error" and stop.
     let s_len = hash.len();
     let h_len = hash.len();
-    let em_len = out.len();
+    let em_len = em_bits.div_ceil(8);
     assert!(em_len >= h_len + s_len + 2);
 
+    // (emLen is one less than the modulus length if emBits is a multiple
+    // of 8.)
+    let (leader, out) = out.split_at_mut(out.len() - em_len);
+    leader.fill(0x00);
+
     // 4.  Generate a random octet string salt of length sLen; if sLen = 0,
     //     then salt is the empty string.
     let mut salt = H::zeroed_output();
@@ -132,7 +139,7 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 
     // 11. Set the leftmost 8emLen - emBits bits of the leftmost octet in
     //     maskedDB to zero.
-    db[0] &= 0x7f;
+    db[0] &= pss_top_mask(em_len, em_bits);
 
     // 12. Let EM = maskedDB || H || 0xbc.
     let (bc, h_out) = h_bc.split_last_mut().unwrap();
@@ -145,14 +152,20 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 
 /// This is EMSA-PSS-VERIFY.
 ///
-/// `sLen` is fixed as `hLen`, like `encode_pss_sig`.
+/// `sLen` is fixed as `hLen`, like `encode_pss_sig_bits`.
 ///
 /// `MGF` is `MGF1` with hash `H`.
 ///
 /// `em` is the modulus-length input and temporary buffer.
 ///
+/// `em_bits` is `emBits`: one less than the bit length of the modulus.
+///
 /// `m_hash` is the message hash, made by the caller using `H`.
-pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+pub(crate) fn verify_pss_sig_bits<H: Hash>(
+    em: &mut [u8],
+    em_bits: usize,
+    m_hash: &[u8],
+) -> Result<(), Error> {
     // 1.   If the length of M is greater than the input limitation for
     //      the hash function (2^61 - 1 octets for SHA-1), output
     //      "inconsistent" and stop.
@@ -160,10 +173,17 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     // (done by caller)
 
     // 3.   If emLen < hLen + sLen + 2, output "inconsistent" and stop.
-    let em_len = em.len();
+    let em_len = em_bits.div_ceil(8);
     let h_len = m_hash.len();
     let s_len = h_len;
-    if em_len < h_len + s_len + 2 {
+    if em_len < h_len + s_len + 2 || em.len() < em_len {
+        return Err(Error::BadSignature);
+    }
+
+    // (emLen is one less than the modulus length if emBits is a multiple
+    // of 8.  The conversion I2OSP(m, emLen) fails if `m` is too large.)
+    let (leader, em) = em.split_at_mut(em.len() - em_len);
+    if leader.iter().any(|z| *z != 0x00) {
         return Err(Error::BadSignature);
     }
 
@@ -181,7 +201,8 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     // 6.   If the leftmost 8emLen - emBits bits of the leftmost octet in
     //      maskedDB are not all equal to zero, output "inconsistent" and
     //      stop.
-    if masked_db[0] & 0x80 != 0x00 {
+    let top_mask = pss_top_mask(em_len, em_bits);
+    if masked_db[0] & !top_mask != 0x00 {
         return Err(Error::BadSignature);
     }
 
@@ -192,7 +213,7 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
 
     // 9.   Set the leftmost 8emLen - emBits bits of the leftmost octet
     //      in DB to zero.
-    db[0] &= 0x7f;
+    db[0] &= top_mask;
 
     // 10.  If the emLen - hLen - sLen - 2 leftmost octets of DB are not
     //      zero or if the octet at position emLen - hLen - sLen - 1 (the
@@ -229,6 +250,27 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     }
 }
 
+/// `encode_pss_sig_bits` for a modulus filling `out`.
+#[cfg(test)]
+fn encode_pss_sig<H: Hash>(
+    out: &mut [u8],
+    rng: &mut dyn RandomSource,
+    hash: &[u8],
+) -> Result<(), Error> {
+    encode_pss_sig_bits::<H>(out, out.len() * 8 - 1, rng, hash)
+}
+
+/// `verify_pss_sig_bits` for a modulus filling `em`.
+#[cfg(test)]
+fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+    verify_pss_sig_bits::<H>(em, em.len() * 8 - 1, m_hash)
+}
+
+/// Mask of the bits used in the leftmost octet of EM.
+fn pss_top_mask(em_len: usize, em_bits: usize) -> u8 {
+    0xff >> (em_len * 8 - em_bits)
+}
+
 /// Compute MGF1-H, and XOR the result into `out`.
 fn mgf1_xor<H: Hash>(seed: &[u8], h_len: usize, out: &mut [u8]) {
     for (chunk, counter) in out.chunks_mut(h_len).zip(0u32..) {
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 8a3ac5b..3b3d148 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -146,7 +146,8 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = m.to_bytes(&mut m_bytes)?;
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_bytes_fixed(m_bytes)?;
 
         let mut actual_m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let actual_m = &mut actual_m[..self.0.modulus_len_bytes()];
@@ -222,9 +223,10 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes_len = m.to_bytes(&mut m_bytes)?.len();
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_bytes_fixed(m_bytes)?;
 
-        pkcs1::verify_pss_sig::<H>(&mut m_bytes[..m_bytes_len], hash.as_ref())
+        pkcs1::verify_pss_sig_bits::<H>(m_bytes, self.0.modulus_len_bits() - 1, hash.as_ref())
     }
 }
 
@@ -525,7 +527,9 @@ impl SigningKey {
 
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        let signature = &mut signature[..self.0.modulus_len_bytes()];
+        c.to_bytes_fixed(signature)?;
+        Ok(signature)
     }
 
     fn _sign_pss<'a, H: Hash>(
@@ -542,10 +546,17 @@ impl SigningKey {
         let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let m = &mut m[..self.0.modulus_len_bytes()];
 
-        pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
+        pkcs1::encode_pss_sig_bits::<H>(
+            m,
+            self.0.modulus_len_bits() - 1,
+            &mut SystemRandom,
+            hash.as_ref(),
+        )?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        let signature = &mut signature[..self.0.modulus_len_bytes()];
+        c.to_bytes_fixed(signature)?;
+        Ok(signature)
     }
 }
 
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index cfbdaff..97826a3 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -105,6 +105,24 @@ impl<const N: usize> PosInt<N> {
         Ok(out)
     }
 
+    /// Like `to_bytes`, but writes precisely `out.len()` bytes.
+    ///
+    /// The value is padded with leading zero bytes as needed.  An error
+    /// is returned if the value does not fit.
+    pub(crate) fn to_bytes_fixed(&self, out: &mut [u8]) -> Result<(), Error> {
+        if self.len_bytes() > out.len() {
+            return Err(Error::OutOfRange);
+        }
+
+        out.fill(0x00);
+        for (chunk, word) in out.rchunks_mut(8).zip(self.as_words().iter()) {
+            let len = chunk.len();
+            chunk.copy_from_slice(&word.to_be_bytes()[8 - len..]);
+        }
+
+        Ok(())
+    }
+
     /// Like `to_bytes`, but guarantees a zero byte prefix.
     ///
     /// This means, if the result is used in an ASN.1 encoded integer, the encoding
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 209eb77..15a9867 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -91,6 +91,10 @@ impl RsaPrivateKey {
         self.public.modulus_len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.public.modulus_len_bits()
+    }
+
     pub(crate) fn encode_components<'a>(
         &self,
         buffer: &'a mut RsaComponentsBuffer,
diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index f734e0a..ae253ec 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -46,6 +46,10 @@ impl RsaPublicKey {
         self.n.len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.n.len_bits()
+    }
+
     /// m = c ** e mod n
     pub(crate) fn public_op(&self, mut c: RsaPosInt) -> Result<RsaPosInt, Error> {
         if !c.less_than(&self.n) {
-- 
2.43.0


From bba656fc189f88f6a5c1d7e14f78be59933a2e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:41 +0000
Subject: [PATCH 04/16] fix: RSA private key operation for keys with q > p

m_2 is reduced mod q, but was used as a value reduced mod p.  If q > p that
is not the case, and then signing failed for some messages, or panicked if
p and q are represented with different numbers of words.
---
 graviola/src/mid/rsa_priv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 15a9867..99ebeca 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -168,8 +168,12 @@ impl RsaPrivateKey {
         // (we don't support multiprime rsa)
 
         // iii. Let h = (m_1 - m_2) * qInv mod p.
+        // (m_2 is in [0, q), so reduce it first: p > q is not guaranteed.)
+        let m_2_mod_p = m_2
+            .widen::<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>()
+            .reduce(&self.p, &self.p_montifier);
         let h = m_1
-            .sub_mod(&m_2, &self.p)
+            .sub_mod(&m_2_mod_p, &self.p)
             .mont_mul(&self.iqmp_mont, &self.p, self.p0);
 
         // iv.  Let m = m_2 + q * h.
-- 
2.43.0


From e8787cd4da9102015cc4c9b2659ab98b32e798a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:12 +0000
Subject: [PATCH 05/16] fix: RSA private key operation for primes of differing
 length

`PosInt::reduce` silently ignored words beyond twice the width of the
modulus, so keys with (say) a 1028-bit p and 1024-bit q could not sign.
---
 graviola/src/low/posint.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index 97826a3..07fa41c 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -541,6 +541,24 @@ impl<const N: usize> PosInt<N> {
         n_montifier: &PosInt<M>,
     ) -> PosInt<M> {
         assert!(M < N);
+
+        // `mont_redc` only handles values up to twice the width of `n`; for larger
+        // values reduce the upper part first.
+        if self.used > n.used * 2 {
+            let (lower, upper) = self.as_words().split_at(n.used);
+
+            let mut folded = Self::zero();
+            folded.words[..upper.len()].copy_from_slice(upper);
+            folded.used = upper.len();
+            let upper = folded.reduce(n, n_montifier);
+
+            let mut folded = Self::zero();
+            folded.words[..n.used].copy_from_slice(lower);
+            folded.words[n.used..n.used * 2].copy_from_slice(upper.as_words());
+            folded.used = n.used * 2;
+            return folded.reduce(n, n_montifier);
+        }
+
         // do this by montgomery reduction (leaving one inverse-M term) then multiply out M
         self.mont_redc(n).to_montgomery(n_montifier, n)
     }
-- 
2.43.0


From 42cb2b1086afef8a97ad909d09900d6e408dcb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:13 +0000
Subject: [PATCH 06/16] fix: reject RSA private keys with a zero CRT exponent

These never make a working key, and signing with one panicked.
---
 graviola/src/mid/rsa_priv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 99ebeca..e672619 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -40,6 +40,8 @@ impl RsaPrivateKey {
         let p_len = p.len_bytes();
         if p.is_even()
             || q.is_even()
+            || dp.is_zero()
+            || dq.is_zero()
             || !(MIN_PRIVATE_MODULUS_BYTES..=MAX_PRIVATE_MODULUS_BYTES).contains(&p_len)
         {
             return Err(Error::OutOfRange);
-- 
2.43.0


From 7a0fcc00dfea4344060a25d595f3181587718b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:20 +0000
Subject: [PATCH 07/16] fix: encode RSA public exponents of 2^31 and above as
 positive integers

---
 graviola/src/high/rsa.rs     |  7 +++++--
 graviola/src/mid/rsa_priv.rs | 10 ++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 3b3d148..ee86350 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -85,11 +85,14 @@ impl VerifyingKey {
 
         let mut buffer = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 1];
         let public_modulus = self.0.n.to_bytes_asn1(&mut buffer)?;
-        let public_exponent = self.0.e.to_be_bytes();
+        let mut exponent_buffer = [0u8; 4 + 1];
 
         let pub_key = pkix::RSAPublicKey {
             modulus: asn1::Integer::new(public_modulus),
-            publicExponent: asn1::Integer::new(&public_exponent),
+            publicExponent: asn1::Integer::new_positive(
+                &mut exponent_buffer,
+                &self.0.e.to_be_bytes(),
+            ),
         };
         let used = pub_key
             .encode(&mut asn1::Encoder::new(output))
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index e672619..c094f2f 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -102,7 +102,7 @@ impl RsaPrivateKey {
         buffer: &'a mut RsaComponentsBuffer,
     ) -> Result<RsaComponents<'a>, Error> {
         let (public_modulus, buffer) = buffer.0.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
-        let (public_exponent, buffer) = buffer.split_at_mut(4);
+        let (public_exponent, buffer) = buffer.split_at_mut(1 + 4);
         let (p, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (q, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (d, buffer) = buffer.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
@@ -111,7 +111,9 @@ impl RsaPrivateKey {
         let (iqmp, _) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
 
         let public_modulus = self.public.n.to_bytes_asn1(public_modulus)?;
-        public_exponent.copy_from_slice(&self.public.e.to_be_bytes());
+        // leading zero ensures this is not mistaken for a negative number
+        public_exponent[0] = 0x00;
+        public_exponent[1..].copy_from_slice(&self.public.e.to_be_bytes());
 
         let p = self.p.to_bytes_asn1(p)?;
         let q = self.q.to_bytes_asn1(q)?;
@@ -219,7 +221,7 @@ impl RsaComponentsBuffer {
         // public modulus and private exponent
         (MAX_PUBLIC_MODULUS_BYTES + 1) * 2 +
             // public exponent
-            4 +
+            (4 + 1) +
             // private moduli and crt components
             (MAX_PRIVATE_MODULUS_BYTES + 1) * 5;
 }
@@ -232,7 +234,7 @@ impl Drop for RsaComponentsBuffer {
 
 impl Default for RsaComponentsBuffer {
     fn default() -> Self {
-        Self([0u8; 4619])
+        Self([0u8; Self::LEN])
     }
 }
 
-- 
2.43.0


From 012ff7cefb5ccc411bad2b869844714c23abc666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:20 +0000
Subject: [PATCH 08/16] fix: reject trailing data after PKCS#8 private keys

---
 graviola/src/high/pkcs8.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 66d5bbf..eee6c5e 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -26,8 +26,7 @@ impl<'a> Key<'a> {
         algorithm: &asn1::ObjectId,
         parameters: Option<asn1::Any<'_>>,
     ) -> Result<Self, Error> {
-        let oak = pkix::OneAsymmetricKey::parse(&mut asn1::Parser::new(slice))
-            .map_err(Error::Asn1Error)?;
+        let oak = pkix::OneAsymmetricKey::from_bytes(slice).map_err(Error::Asn1Error)?;
 
         match (oak.version, oak.publicKey.inner()) {
             (pkix::Pkcs8Version::Pkcs8v1, None) => {}
-- 
2.43.0


From 807bea329501da2d5d057bdc8fc03b16326176c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:23 +0000
Subject: [PATCH 09/16] fix: reject Ed25519 SubjectPublicKeyInfo with algorithm
 parameters

---
 graviola/src/high/ed25519.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/ed25519.rs b/graviola/src/high/ed25519.rs
index 1a094c8..643de4d 100644
--- a/graviola/src/high/ed25519.rs
+++ b/graviola/src/high/ed25519.rs
@@ -19,7 +19,10 @@ impl Ed25519VerifyingKey {
         let _entry = Entry::new_public();
         let decoded = pkix::SubjectPublicKeyInfo::from_bytes(bytes).map_err(Error::Asn1Error)?;
 
-        if decoded.algorithm.algorithm != asn1::oid::id_ed25519 {
+        // RFC8410 section 3: "the parameters field MUST be absent"
+        if decoded.algorithm.algorithm != asn1::oid::id_ed25519
+            || decoded.algorithm.parameters.is_some()
+        {
             return Err(KeyFormatError::MismatchedSpkiAlgorithm.into());
         }
 
-- 
2.43.0


From c35e3a2575e3dabb0d4847c1d0bae6dc8705961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:26 +0000
Subject: [PATCH 10/16] fix: reject RSA private keys with negative components

---
 graviola/src/high/rsa.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index ee86350..01ddb67 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -287,7 +287,14 @@ impl SigningKey {
             return Err(Error::OutOfRange);
         }
 
-        if decoded.modulus.is_negative() {
+        if decoded.modulus.is_negative()
+            || decoded.prime1.is_negative()
+            || decoded.prime2.is_negative()
+            || decoded.privateExponent.is_negative()
+            || decoded.exponent1.is_negative()
+            || decoded.exponent2.is_negative()
+            || decoded.coefficient.is_negative()
+        {
             return Err(Error::OutOfRange);
         }
 
-- 
2.43.0


From 22a6b9474946a6033bf3130d58a34fb7f49ffd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:29 +0000
Subject: [PATCH 11/16] fix: check PKCS#8 v2 public key of ECDSA and RSA
 private keys

---
 graviola/src/high/ecdsa.rs | 20 +++++++++++++++++---
 graviola/src/high/rsa.rs   | 20 ++++++++++++++++----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index 2a6e056..a1c08ee 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -33,12 +33,26 @@ impl<C: Curve> SigningKey<C> {
     /// Load an ECDSA private key in PKCS#8 format.
     pub fn from_pkcs8_der(bytes: &[u8]) -> Result<Self, Error> {
         let _entry = Entry::new_secret();
-        pkcs8::Key::decode(
+        let p8 = pkcs8::Key::decode(
             bytes,
             &asn1::oid::id_ecPublicKey,
             Some(asn1::Any::ObjectId(C::oid())),
-        )
-        .and_then(|k| Self::from_sec1_der(k.private_key()))
+        )?;
+
+        let key = Self::from_sec1_der(p8.private_key())?;
+
+        if let Some(alleged_pub_key) = p8.public_key() {
+            let mut actual_pub_key = [0u8; MAX_UNCOMPRESSED_PUBLIC_KEY_LEN];
+            let actual_pub_key = key
+                .private_key
+                .public_key_encode_uncompressed(&mut actual_pub_key)?;
+
+            if alleged_pub_key != actual_pub_key {
+                return Err(KeyFormatError::MismatchedPkcs8PublicKey.into());
+            }
+        }
+
+        Ok(key)
     }
 
     /// Encode this private key in PKCS#8 DER format.
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 01ddb67..155cc33 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -3,7 +3,7 @@
 
 pub use rsa_priv::KeySize;
 
-use crate::Error;
+use crate::error::{Error, KeyFormatError};
 use crate::high::asn1::{self, Type, pkix};
 use crate::high::hash::{self, Hash};
 use crate::high::{pkcs1, pkcs8};
@@ -381,12 +381,24 @@ impl SigningKey {
     /// `privateKeyAlgorithm` inside this encoding must be `rsaEncryption`.
     pub fn from_pkcs8_der(bytes: &[u8]) -> Result<Self, Error> {
         let _entry = Entry::new_secret();
-        pkcs8::Key::decode(
+        let p8 = pkcs8::Key::decode(
             bytes,
             &asn1::oid::rsaEncryption,
             Some(asn1::Any::Null(asn1::Null)),
-        )
-        .and_then(|k| Self::from_pkcs1_der(k.private_key()))
+        )?;
+
+        let key = Self::from_pkcs1_der(p8.private_key())?;
+
+        if let Some(alleged_pub_key) = p8.public_key() {
+            let mut actual_pub_key = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 64];
+            let actual_pub_key = key.public_key().to_pkcs1_der(&mut actual_pub_key)?;
+
+            if alleged_pub_key != actual_pub_key {
+                return Err(KeyFormatError::MismatchedPkcs8PublicKey.into());
+            }
+        }
+
+        Ok(key)
     }
 
     /// Returns the matching public key.
-- 
2.43.0


From 6a90f5b9fb6e8036be01d3b47f7a22af39ab0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:55 +0000
Subject: [PATCH 12/16] fix: refuse oversized TLS1.2 ChaCha20-Poly1305 records

The other TLS1.2 and all TLS1.3 decrypters return
PeerSentOversizedRecord for plaintexts longer than 2^14 bytes; this one
delivered them.
---
 rustls-graviola/src/aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 52d4d49..562905a 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -177,6 +177,10 @@ impl MessageDecrypter for ChaChaTls12Cipher {
             .decrypt(&nonce.0, &aad, payload, tag)
             .map_err(|_| rustls::Error::DecryptError)?;
 
+        if cipher_len > MAX_FRAGMENT_LEN {
+            return Err(rustls::Error::PeerSentOversizedRecord);
+        }
+
         m.payload.truncate(cipher_len);
         Ok(m.into_plain_message())
     }
-- 
2.43.0


From 7dc069acaf17b7a831a9ee3efdb230f3ff3b2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:47 +0000
Subject: [PATCH 13/16] fix: allow Ed25519 signatures in TLS1.2 ECDHE_ECDSA
 suites

---
 rustls-graviola/src/suites.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustls-graviola/src/suites.rs b/rustls-graviola/src/suites.rs
index af432e5..6661a56 100644
--- a/rustls-graviola/src/suites.rs
+++ b/rustls-graviola/src/suites.rs
@@ -144,6 +144,7 @@ pub static TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384: SupportedCipherSuite =
     });
 
 static TLS12_ECDSA_SCHEMES: &[SignatureScheme] = &[
+    SignatureScheme::ED25519,
     SignatureScheme::ECDSA_NISTP521_SHA512,
     SignatureScheme::ECDSA_NISTP384_SHA384,
     SignatureScheme::ECDSA_NISTP256_SHA256,
-- 
2.43.0


From 9f160cdf90b04d45389c68db0b6933a8728a2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 14/16] fix: clear zmm16-31 when leaving a secret entry point

AES-GCM uses AVX-512, and leaves powers of the GHASH key times message
blocks in zmm16-20; vzeroall only covers zmm0-15.
---
 graviola/src/low/x86_64/cpu.rs | 49 ++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index c8ad5e3..203a1f9 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -19,8 +19,6 @@ pub(crate) fn leave_cpu_state(_old: u32) {
         core::arch::asm!(
             // clear z/y/xmm0-15
             "   vzeroall",
-
-            // TODO: add zmm16-31 here if/when we use AVX512
             out("ymm0") _,
             out("ymm1") _,
             out("ymm2") _,
@@ -39,6 +37,53 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             out("ymm15") _,
         )
     }
+
+    if is_x86_feature_detected!("avx512f") {
+        // SAFETY: we just checked for the `avx512f` cpu feature.
+        unsafe { zero_zmm16_to_31() }
+    }
+}
+
+/// Clear zmm16-31, which `vzeroall` leaves alone.
+#[target_feature(enable = "avx512f")]
+fn zero_zmm16_to_31() {
+    // SAFETY: all registers written are listed as clobbers.
+    unsafe {
+        core::arch::asm!(
+            "   vpxord zmm16, zmm16, zmm16",
+            "   vpxord zmm17, zmm17, zmm17",
+            "   vpxord zmm18, zmm18, zmm18",
+            "   vpxord zmm19, zmm19, zmm19",
+            "   vpxord zmm20, zmm20, zmm20",
+            "   vpxord zmm21, zmm21, zmm21",
+            "   vpxord zmm22, zmm22, zmm22",
+            "   vpxord zmm23, zmm23, zmm23",
+            "   vpxord zmm24, zmm24, zmm24",
+            "   vpxord zmm25, zmm25, zmm25",
+            "   vpxord zmm26, zmm26, zmm26",
+            "   vpxord zmm27, zmm27, zmm27",
+            "   vpxord zmm28, zmm28, zmm28",
+            "   vpxord zmm29, zmm29, zmm29",
+            "   vpxord zmm30, zmm30, zmm30",
+            "   vpxord zmm31, zmm31, zmm31",
+            out("zmm16") _,
+            out("zmm17") _,
+            out("zmm18") _,
+            out("zmm19") _,
+            out("zmm20") _,
+            out("zmm21") _,
+            out("zmm22") _,
+            out("zmm23") _,
+            out("zmm24") _,
+            out("zmm25") _,
+            out("zmm26") _,
+            out("zmm27") _,
+            out("zmm28") _,
+            out("zmm29") _,
+            out("zmm30") _,
+            out("zmm31") _,
+        )
+    }
 }
 
 /// Effectively memset(ptr, 0, len), but not visible to optimiser
-- 
2.43.0


From b05a8006501a5af9cc4d16c60125c4d55b45a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:15 +0000
Subject: [PATCH 15/16] fix: refuse processors without bmi2, which the
 s2n-bignum code needs

---
 graviola/src/low/x86_64/cpu.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index 203a1f9..2f1c606 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -288,6 +288,11 @@ pub(crate) fn verify_cpu_features() {
         have_cpu_feature!("bmi1"),
         "graviola requires bmi1 CPU support"
     );
+    // nb. not `have_cpu_feature`: denying bmi2 there selects fallbacks where they exist.
+    assert!(
+        is_x86_feature_detected!("bmi2"),
+        "graviola requires bmi2 CPU support"
+    );
 
     // see this valgrind bug: https://bugs.kde.org/show_bug.cgi?id=494162
     assert!(
-- 
2.43.0


From 944443465cf876b8ffd34e60f1bfa6bad9a1d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 16/16] fix: check the processor before hashing with SHA-2

---
 graviola/src/mid/sha2.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graviola/src/mid/sha2.rs b/graviola/src/mid/sha2.rs
index 575c8cb..d07ab3d 100644
--- a/graviola/src/mid/sha2.rs
+++ b/graviola/src/mid/sha2.rs
@@ -6,7 +6,7 @@
 //! This is SHA256, SHA384, and SHA512.
 //! These are all described in [FIPS180](https://nvlpubs.nist.gov/nistpubs/FIPS/NIST.FIPS.180-4.pdf).
 
-use crate::low::Blockwise;
+use crate::low::{Blockwise, Entry};
 
 /// A context for incremental computation of SHA256.
 #[derive(Clone)]
@@ -31,6 +31,7 @@ impl Sha256Context {
 
     /// Add `bytes` to the ongoing hash computation.
     pub fn update(&mut self, bytes: &[u8]) {
+        let _entry = Entry::new_public();
         if self.blockwise.used() == 0 && bytes.len().is_multiple_of(Self::BLOCK_SZ) {
             self.update_blocks(bytes);
             return;
@@ -54,6 +55,7 @@ impl Sha256Context {
 
     /// Complete the SHA256 computation, returning the hash output.
     pub fn finish(mut self) -> [u8; Self::OUTPUT_SZ] {
+        let _entry = Entry::new_public();
         let bytes = self
             .nblocks
             .checked_mul(Self::BLOCK_SZ)
@@ -163,6 +165,7 @@ impl Sha512Context {
 
     /// Add `bytes` to the ongoing hash computation.
     pub fn update(&mut self, bytes: &[u8]) {
+        let _entry = Entry::new_public();
         if self.blockwise.used() == 0 && bytes.len().is_multiple_of(Self::BLOCK_SZ) {
             self.update_blocks(bytes);
             return;
@@ -186,6 +189,7 @@ impl Sha512Context {
 
     /// Complete the SHA512 computation, returning the hash output.
     pub fn finish(mut self) -> [u8; Self::OUTPUT_SZ] {
+        let _entry = Entry::new_public();
         let bytes = self
             .nblocks
             .checked_mul(Self::BLOCK_SZ)
-- 
2.43.0

