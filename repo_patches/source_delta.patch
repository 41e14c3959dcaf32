From fa623bdecc3f16bff0c60377dac12aa2f68c4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 01/26] fix: AES-GCM: do not hash an extra zero block after
 complete blocks

---
 crylib/src/aead/gcm.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crylib/src/aead/gcm.rs b/crylib/src/aead/gcm.rs
index 02f1734..9396b60 100644
--- a/crylib/src/aead/gcm.rs
+++ b/crylib/src/aead/gcm.rs
@@ -159,13 +159,12 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        // Only a partial block is padded; a complete last block must not be followed by a zero block.
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         // TODO: use `array_chunks` once stabilized
         let blocks = cipher_text.chunks_exact(aes::BLOCK_SIZE);
@@ -175,13 +174,12 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        // Only a partial block is padded; a complete last block must not be followed by a zero block.
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         tag ^= ((add_data.len() as u128 * 8) << 64) | cipher_text.len() as u128 * 8;
         tag = gf_2to128_mul(tag, self.h);
-- 
2.43.0


From c4899e77d129efc490d2390d3b2cb0c58fd2b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 02/26] fix: HMAC: hash keys longer than the block size

---
 crylib/src/hmac.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crylib/src/hmac.rs b/crylib/src/hmac.rs
index 1042448..16045a0 100644
--- a/crylib/src/hmac.rs
+++ b/crylib/src/hmac.rs
@@ -18,6 +18,14 @@ where
     pub fn new(key: &[u8]) -> Self {
         let mut ipad = [0x36; B_LEN];
         let mut opad = [0x5c; B_LEN];
+        // Keys longer than the block size are hashed first.
+        let hashed_key;
+        let key = if key.len() > B_LEN {
+            hashed_key = H::hash(key);
+            &hashed_key[..]
+        } else {
+            key
+        };
         for ((ipad_byte, opad_byte), key_byte) in ipad.iter_mut().zip(opad.iter_mut()).zip(key) {
             *ipad_byte ^= key_byte;
             *opad_byte ^= key_byte;
-- 
2.43.0


From 0b4b98ce9f6911e663702b3f9c37fe6eb5c38f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 03/26] fix: field elements: put the digit-multiplication carry
 in the next limb

---
 crylib/src/finite_field/field_element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/finite_field/field_element.rs b/crylib/src/finite_field/field_element.rs
index cac90f4..a7e0024 100644
--- a/crylib/src/finite_field/field_element.rs
+++ b/crylib/src/finite_field/field_element.rs
@@ -208,7 +208,7 @@ macro_rules! impl_field_element {
                 for i in 0..$n {
                     (buf.0[i], carry) = crate::big_int::carry_mul(self.0 .0[i], digit, carry);
                 }
-                buf.0[buf.len() - 1] = carry;
+                buf.0[$n] = carry;
                 unsafe { Self::new_unchecked(buf.div(&F::MODULUS.resize()).1.resize()) }
             }
 
-- 
2.43.0


From 2421e753c843dad91eefdaea0a2935536a68de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 04/26] fix: elliptic curves: handle equal points and infinity
 in addition and doubling

---
 crylib/src/ec/point/affine.rs     | 4 ++++
 crylib/src/ec/point/projective.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/crylib/src/ec/point/affine.rs b/crylib/src/ec/point/affine.rs
index 0f33cdf..d592873 100644
--- a/crylib/src/ec/point/affine.rs
+++ b/crylib/src/ec/point/affine.rs
@@ -83,6 +83,10 @@ impl<C: EllipticCurve> AffinePoint<C> {
     }
 
     pub fn add(&self, rhs: &Self) -> Self {
+        // The chord through a point and itself is the tangent.
+        if self.x == rhs.x && self.y == rhs.y {
+            return self.double();
+        }
         let slope = rhs.y.sub(&self.y).div(&rhs.x.sub(&self.x));
         self.third_point_on_line(rhs, &slope)
     }
diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 1ab66e3..f412beb 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -94,6 +94,10 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
             v_1.sub_assign(&v_2);
             v_1
         };
+        // The addition formula is not defined for equal points.
+        if u == FieldElement::ZERO && v == FieldElement::ZERO {
+            return self.double();
+        }
         let v_sqr = v.sqr();
         let v_cube = v_sqr.mul(&v);
         // TODO: name this something better
@@ -135,6 +139,10 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
     }
 
     pub fn double(&self) -> Self {
+        // Doubling the point at infinity or a point of order two gives the point at infinity.
+        if self.is_infinity() || self.y == FieldElement::ZERO {
+            return Self::POINT_AT_INF;
+        }
         let w = {
             let mut three_x_sqr = self.x.sqr();
             three_x_sqr.mul_digit_assign(3);
-- 
2.43.0


From fd929564f079308fbf4aa1c42533628437ac38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 05/26] fix: ECDSA: reject zero components and nonces and keep
 the hash across retries

---
 crylib/src/ec/ecdsa.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 4e15925..7caa255 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -51,11 +51,14 @@ pub fn sign<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     random_num_gen: impl Fn() -> FieldElement<4, C::Order>,
 ) -> Signature<C::Order> {
-    let mut hash: FieldElement<4, C::Order> =
+    let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
 
     loop {
         let secret_num = random_num_gen();
+        if secret_num == FieldElement::ZERO {
+            continue;
+        }
         let mut inverse = secret_num.inverse();
 
         let Some(new_point) = C::BASE_POINT.mul_scalar(&secret_num).as_affine() else {
@@ -64,8 +67,7 @@ pub fn sign<C: EllipticCurve>(
 
         let r = new_point.x_ref().convert();
 
-        hash.add_assign(&r.mul(priv_key));
-        inverse.mul_assign(&hash);
+        inverse.mul_assign(&hash.add(&r.mul(priv_key)));
 
         if r != FieldElement::ZERO && inverse != FieldElement::ZERO {
             return Signature::new(r, inverse);
@@ -80,6 +82,10 @@ pub fn verify_signature<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     sig: &Signature<C::Order>,
 ) -> Result<ValidSig, InvalidSig> {
+    if sig.r == FieldElement::ZERO || sig.s == FieldElement::ZERO {
+        return Err(InvalidSig);
+    }
+
     let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
     let inverse = sig.s.inverse();
-- 
2.43.0


From 735d56485c6e54d4279781c05a9817979bc1e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 06/26] fix: signed big integers: correct ordering, abs,
 division, multiplication and widening of negative values

---
 crylib/src/big_int/signed.rs | 70 +++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 417568f..5c8bf81 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -200,9 +200,7 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs_assign(&mut self) {
-        let temp = *self;
-        self.neg_assign();
-        self.xor_assign(&temp);
+        *self = self.abs();
     }
 
     /// Returns the absolute value of `self`.
@@ -212,12 +210,23 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs(&self) -> Self {
-        self.xor(&self.neg())
+        match self.is_negative {
+            true => Self {
+                digits: self.neg().digits,
+                is_negative: false,
+            },
+            false => *self,
+        }
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
+        let mut digits: UBigInt<O> = self.digits.resize();
+        // Extend the sign if the output is wider.
+        if self.is_negative {
+            digits.0.iter_mut().skip(N).for_each(|digit| *digit = u64::MAX);
+        }
         BigInt {
-            digits: self.digits.resize(),
+            digits,
             is_negative: self.is_negative,
         }
     }
@@ -228,23 +237,23 @@ macro_rules! impl_big_int {
         impl BigInt<$n> {
             /// Divides `self` by `rhs`, returning the quotient and the remainder.
             ///
+            /// The quotient is rounded toward zero and the remainder has the sign of `self`.
+            ///
             /// # Panics
             /// This function will panic if `divisor == Self::ZERO`.
             ///
             /// # Constant-timedness
             /// TODO: document constant-timedness
             pub fn div(&self, rhs: &Self) -> (Self, Self) {
-                let (quotient, remainder) = self.digits.div(&rhs.digits);
-                let quotient = Self {
-                    digits: quotient,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
-                };
-                let remainder = Self {
-                    digits: remainder,
-                    is_negative: self.is_negative,
-                };
+                let (quotient, remainder) = self.abs().digits.div(&rhs.abs().digits);
+                let mut quotient: Self = quotient.into();
+                if self.is_negative() ^ rhs.is_negative() {
+                    quotient = quotient.neg();
+                }
+                let mut remainder: Self = remainder.into();
+                if self.is_negative() {
+                    remainder = remainder.neg();
+                }
                 (quotient, remainder)
             }
 
@@ -257,7 +266,19 @@ macro_rules! impl_big_int {
             ///
             /// The product is twice the width of the input, so overflow cannot occur.
             pub fn widening_mul(&self, rhs: &Self) -> BigInt<{ $n * 2 }> {
-                let product = self.digits.widening_mul(&rhs.digits);
+                let mut product = self.digits.widening_mul(&rhs.digits);
+                // A negative factor's digits are `2^(64 * $n)` more than its value.
+                let mut excess = UBigInt::<$n>::ZERO;
+                if self.is_negative() {
+                    excess.add_assign(&rhs.digits);
+                }
+                if rhs.is_negative() {
+                    excess.add_assign(&self.digits);
+                }
+                let mut high_digits = UBigInt::<$n>::ZERO;
+                high_digits.0.copy_from_slice(&product.0[$n..]);
+                high_digits.sub_assign(&excess);
+                product.0[$n..].copy_from_slice(&high_digits.0);
                 BigInt::<{ $n * 2 }> {
                     digits: product,
                     is_negative: (self.is_negative() ^ rhs.is_negative())
@@ -275,7 +296,7 @@ impl_big_int!(8);
 
 impl<const N: usize> PartialOrd for BigInt<N> {
     fn lt(&self, other: &Self) -> bool {
-        self.sub(other).is_negative
+        self.cmp(other).is_lt()
     }
 
     fn le(&self, other: &Self) -> bool {
@@ -283,7 +304,7 @@ impl<const N: usize> PartialOrd for BigInt<N> {
     }
 
     fn gt(&self, other: &Self) -> bool {
-        other.sub(self).is_negative
+        self.cmp(other).is_gt()
     }
 
     fn ge(&self, other: &Self) -> bool {
@@ -297,12 +318,11 @@ impl<const N: usize> PartialOrd for BigInt<N> {
 
 impl<const N: usize> Ord for BigInt<N> {
     fn cmp(&self, other: &Self) -> core::cmp::Ordering {
-        let cmped = self.sub(other);
-        match cmped.is_negative {
-            true => core::cmp::Ordering::Greater,
-            false if self.digits == other.digits => core::cmp::Ordering::Equal,
-            false => core::cmp::Ordering::Less,
-        }
+        // With equal signs, two's-complement digits are ordered like the values.
+        other
+            .is_negative
+            .cmp(&self.is_negative)
+            .then(self.digits.cmp(&other.digits))
     }
 }
 
-- 
2.43.0


From 05215c6d03611cb530bb9a39acd6ed3d355357b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 07/26] fix: ChaCha20: do not touch the output buffer past the
 message

---
 crylib/src/aead/chacha/chacha20.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/aead/chacha/chacha20.rs b/crylib/src/aead/chacha/chacha20.rs
index 591a09f..fdf3e58 100644
--- a/crylib/src/aead/chacha/chacha20.rs
+++ b/crylib/src/aead/chacha/chacha20.rs
@@ -124,7 +124,7 @@ pub fn encrypt_inline(msg: &mut [u8], key: &[u8; 32], nonce: &[u8; 12], start_c:
 /// more than once with the same key
 pub fn encrypt(msg: &[u8], key: &[u8; 32], nonce: &[u8; 12], counter: u32, buf: &mut [u8]) {
     buf[..msg.len()].copy_from_slice(msg);
-    encrypt_inline(buf, key, nonce, counter);
+    encrypt_inline(&mut buf[..msg.len()], key, nonce, counter);
 }
 
 #[cfg(test)]
-- 
2.43.0


From beb306ee0af64b0dc907265a9fe4a27eaf9acc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 08/26] fix: big integers: implement viewing a digit array as
 an integer

---
 crylib/src/big_int/unsigned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 15af54a..2b29e78 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -944,7 +944,7 @@ impl<const N: usize> AsMut<[u64; N]> for UBigInt<N> {
 
 impl<const N: usize> AsRef<UBigInt<N>> for [u64; N] {
     fn as_ref(&self) -> &UBigInt<N> {
-        todo!()
+        UBigInt::from_ref(self)
     }
 }
 
-- 
2.43.0


From 0389b40aadb3fcb584230c1dee76dfebe6ec2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 09/26] fix: extension blocks: report truncated entries as
 decode errors

---
 src/extensions.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index b019eea..a478431 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -166,25 +166,28 @@ impl<'a> ExtIter<'a> {
 }
 
 impl<'a> Iterator for ExtIter<'a> {
-    type Item = ExtRef<'a>;
+    type Item = Result<ExtRef<'a>, TurtlsAlert>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+        if self.exts.is_empty() {
             return None;
         }
+        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let len = u16::from_be_bytes([
             self.exts[TurtlsExts::HEADER_SIZE - 2],
             self.exts[TurtlsExts::HEADER_SIZE - 1],
         ]) as usize;
-        if len > self.exts.len() {
-            return None;
+        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let ext;
         (ext, self.exts) = self.exts.split_at(len + TurtlsExts::HEADER_SIZE);
         let ext_type = [ext[0], ext[1]];
-        Some(ExtRef {
+        Some(Ok(ExtRef {
             ext_type,
             data: &ext[TurtlsExts::HEADER_SIZE..],
-        })
+        }))
     }
 }
 
@@ -195,6 +198,9 @@ pub(crate) fn parse_ser_hel_exts(
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
 
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -203,6 +209,7 @@ pub(crate) fn parse_ser_hel_exts(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -220,6 +227,9 @@ pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -228,6 +238,7 @@ pub(crate) fn parse_encrypted_extensions(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
-- 
2.43.0


From 90c047185510a6988d11ebd71912d76276cfaae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 10/26] fix: extension blocks: reject repeated extensions

---
 src/extensions.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index a478431..145fda6 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -157,11 +157,16 @@ pub(crate) struct ExtRef<'a> {
 /// An iterator over the extensions sent by the peer.
 pub(crate) struct ExtIter<'a> {
     exts: &'a [u8],
+    /// The extension types already returned.
+    seen: Vec<[u8; 2]>,
 }
 
 impl<'a> ExtIter<'a> {
     pub(crate) const fn new(exts: &'a [u8]) -> Self {
-        Self { exts }
+        Self {
+            exts,
+            seen: Vec::new(),
+        }
     }
 }
 
@@ -184,6 +189,10 @@ impl<'a> Iterator for ExtIter<'a> {
         let ext;
         (ext, self.exts) = self.exts.split_at(len + TurtlsExts::HEADER_SIZE);
         let ext_type = [ext[0], ext[1]];
+        if self.seen.contains(&ext_type) {
+            return Some(Err(TurtlsAlert::IllegalParam));
+        }
+        self.seen.push(ext_type);
         Some(Ok(ExtRef {
             ext_type,
             data: &ext[TurtlsExts::HEADER_SIZE..],
-- 
2.43.0


From 9ffaf32638473ed760ac697ffd12f34b9f9a0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 11/26] fix: key share: check the lengths and the point form

---
 src/extensions/key_share.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 8275f9a..651ff72 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -14,6 +14,10 @@ use crate::state::{GlobalState, UnprotShakeState};
 use crate::TurtlsError;
 
 const KEY_SHARE_LEGACY_FORM: u8 = 4;
+/// The length of an uncompressed secp256r1 point, including the legacy form.
+const SECP256R1_SHARE_LEN: usize = 65;
+/// The size of the group and length fields of a key share entry.
+const KEY_SHARE_HEADER_SIZE: usize = size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE;
 /// Key exchange via ECDH on the secp256r1 (NIST-P 256) curve.
 pub const TURTLS_SECP256R1: u16 = 0b0000000000000001;
 
@@ -144,6 +148,9 @@ pub(crate) fn secp256r1_shared_secret(
     key_share: &[u8],
     group_keys: &GroupKeys,
 ) -> Option<[u8; 32]> {
+    if key_share.len() != SECP256R1_SHARE_LEN || key_share[0] != KEY_SHARE_LEGACY_FORM {
+        return None;
+    }
     let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
     let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;
 
@@ -161,13 +168,19 @@ pub(super) fn parse_ser(
     shake_crypto: &mut UnprotShakeState,
     state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    match &key_share[..size_of::<NamedGroup>()] {
-        x if x == NamedGroup::Secp256r1.to_be_bytes() && shake_crypto.sup_groups != 0 => {
-            let dh_secret = secp256r1_shared_secret(
-                &key_share[size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE..],
-                &shake_crypto.priv_keys,
-            )
-            .ok_or(TurtlsAlert::IllegalParam)?;
+    let Some((header, share)) = key_share.split_at_checked(KEY_SHARE_HEADER_SIZE) else {
+        return Err(TurtlsAlert::DecodeError);
+    };
+    let (group, len) = header.split_at(size_of::<NamedGroup>());
+    if u16::from_be_bytes(len.try_into().unwrap()) as usize != share.len() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    match group {
+        x if x == NamedGroup::Secp256r1.to_be_bytes()
+            && shake_crypto.sup_groups & TURTLS_SECP256R1 != 0 =>
+        {
+            let dh_secret = secp256r1_shared_secret(share, &shake_crypto.priv_keys)
+                .ok_or(TurtlsAlert::IllegalParam)?;
 
             TlsAead::shake_aead(state, &dh_secret, shake_crypto.ciphers)
                 .ok_or(TurtlsAlert::HandshakeFailure)
-- 
2.43.0


From 49fd5f8861ca444a7757973186f4f7b2ef9e545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 12/26] fix: ServerHello: require TLS 1.3 to be selected

---
 src/extensions.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index 145fda6..f639557 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -206,6 +206,7 @@ pub(crate) fn parse_ser_hel_exts(
     global_state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
+    let mut tls_one_three = false;
 
     if exts.len() < TurtlsExts::LEN_SIZE {
         return Err(TurtlsAlert::DecodeError);
@@ -222,6 +223,7 @@ pub(crate) fn parse_ser_hel_exts(
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
+                tls_one_three = true;
             },
             x if x == ExtensionType::KeyShare.to_be_bytes() => {
                 maybe_aead = key_share::parse_ser(ext.data, shake_crypto, global_state);
@@ -229,6 +231,10 @@ pub(crate) fn parse_ser_hel_exts(
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
+    if !tls_one_three {
+        // Without the extension, an earlier version was chosen.
+        return Err(TurtlsAlert::ProtocolVersion);
+    }
     maybe_aead
 }
 
-- 
2.43.0


From 1fbe5e11b18f21a3957591b47f21e9c2a8515a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 13/26] fix: ServerHello: check the session id echo and the
 compression method

---
 src/server_hello.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index a285584..d80e1df 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -1,11 +1,13 @@
 use crate::aead::TlsAead;
 use crate::cipher_suites::{CipherSuite, TurtlsCipherList};
-use crate::client_hello::RANDOM_BYTES_LEN;
+use crate::client_hello::{LEGACY_SESSION_ID, RANDOM_BYTES_LEN};
 use crate::extensions::versions::ProtocolVersion;
 use crate::extensions::{self, TurtlsExts};
 use crate::state::{GlobalState, UnprotShakeState};
 use crate::TurtlsAlert;
 
+const LEGACY_COMPRESSION_METHOD: u8 = 0;
+
 pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + RANDOM_BYTES_LEN
     + 3
@@ -29,7 +31,11 @@ pub(crate) fn server_hello_client(
     if leg_session_id_len > 32 {
         return Err(TurtlsAlert::DecodeError);
     }
-    pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
+    if leg_session_id_len != LEGACY_SESSION_ID {
+        // The server must echo the session id, which was empty.
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    pos += size_of_val(&leg_session_id_len);
 
     unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
         ser_hel[pos..][..size_of::<CipherSuite>()]
@@ -39,7 +45,10 @@ pub(crate) fn server_hello_client(
     .suites;
     pos += size_of::<CipherSuite>();
 
-    pos += 1;
+    if ser_hel[pos] != LEGACY_COMPRESSION_METHOD {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    pos += size_of_val(&LEGACY_COMPRESSION_METHOD);
 
     extensions::parse_ser_hel_exts(&ser_hel[pos..], unprot_state, global_state)
 }
-- 
2.43.0


From ecc54acabdc05f9ddfe03308235c85cfcc5017dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 14/26] fix: handshake: check the message type

---
 src/handshake.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index f6f3f8b..6e0c8a9 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -42,7 +42,11 @@ pub(crate) fn handshake_client(
                 UnprotShakeMsg::ServerHello => {
                     shake_state
                         .buf
-                        .read_raw(&mut global_state.rl, &mut global_state.transcript)
+                        .read_raw(
+                            ShakeType::ServerHello,
+                            &mut global_state.rl,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             if let TurtlsError::Tls = err.turtls_error {
                                 global_state.rl.close_raw(err.alert);
@@ -68,7 +72,12 @@ pub(crate) fn handshake_client(
                 ProtShakeMsg::EncryptedExtensions => {
                     shake_state
                         .buf
-                        .read(&mut global_state.rl, aead, &mut global_state.transcript)
+                        .read(
+                            ShakeType::EncryptedExtensions,
+                            &mut global_state.rl,
+                            aead,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             if let TurtlsError::Tls = err.turtls_error {
                                 global_state.rl.close(err.alert, aead);
@@ -86,7 +95,12 @@ pub(crate) fn handshake_client(
                 ProtShakeMsg::Certificate => {
                     shake_state
                         .buf
-                        .read(&mut global_state.rl, aead, &mut global_state.transcript)
+                        .read(
+                            ShakeType::Certificate,
+                            &mut global_state.rl,
+                            aead,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             if let TurtlsError::Tls = err.turtls_error {
                                 global_state.rl.close(err.alert, aead);
@@ -111,7 +125,7 @@ pub(crate) fn handshake_client(
 }
 
 /// The message type of a handshake message.
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[expect(unused, reason = "not all handshake messages are implemented yet")]
 pub(crate) enum ShakeType {
     ClientHello = 1,
@@ -209,6 +223,7 @@ impl ShakeBuf {
 
     fn read_inner(
         &mut self,
+        expected: ShakeType,
         rl: &mut RecordLayer,
         mut get_fn: impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
         transcript: &mut TranscriptHasher,
@@ -236,6 +251,9 @@ impl ShakeBuf {
                         }
                         *amt += new_bytes;
                     }
+                    if self.buf[0] != expected.to_byte() {
+                        return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+                    }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
                     if self.len > self.buf.len() {
@@ -262,24 +280,27 @@ impl ShakeBuf {
         }
     }
 
-    /// Reads an entire plaintext handshake message.
+    /// Reads an entire plaintext handshake message of type `expected`.
     pub(crate) fn read_raw(
         &mut self,
+        expected: ShakeType,
         rl: &mut RecordLayer,
         transcript: &mut TranscriptHasher,
     ) -> Result<(), FullError> {
         let get_fn = RecordLayer::get_raw;
-        self.read_inner(rl, get_fn, transcript)
+        self.read_inner(expected, rl, get_fn, transcript)
     }
 
+    /// Reads an entire encrypted handshake message of type `expected`.
     pub(crate) fn read(
         &mut self,
+        expected: ShakeType,
         rl: &mut RecordLayer,
         aead: &mut TlsAead,
         transcript: &mut TranscriptHasher,
     ) -> Result<(), FullError> {
         let get_fn = |rl: &mut RecordLayer| RecordLayer::get(rl, aead);
-        self.read_inner(rl, get_fn, transcript)
+        self.read_inner(expected, rl, get_fn, transcript)
     }
 
     pub(crate) fn write_raw(
-- 
2.43.0


From e8d98db376718c890fbec348e2eeca7a2d777036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 15/26] fix: handshake: reassemble messages from handshake
 records only, of any size

---
 src/handshake.rs   | 70 +++++++++++++++++++++++++---------------------
 src/record/read.rs | 49 +++++++++++++++++++++++---------
 2 files changed, 74 insertions(+), 45 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 6e0c8a9..80bb108 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -199,21 +199,26 @@ impl ShakeBuf {
     }
 
     pub(crate) fn push(&mut self, value: u8) {
-        if self.len + Self::HEADER_SIZE + 1 > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.grow(Self::HEADER_SIZE + self.len + 1);
         self.buf[self.len + Self::HEADER_SIZE] = value;
         self.len += 1;
     }
 
     pub(crate) fn extend_from_slice(&mut self, slice: &[u8]) {
-        if self.len + Self::HEADER_SIZE + slice.len() > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.grow(Self::HEADER_SIZE + self.len + slice.len());
         self.buf[Self::HEADER_SIZE + self.len..][..slice.len()].copy_from_slice(slice);
         self.len += slice.len();
     }
 
+    /// Makes room for at least `size` bytes.
+    fn grow(&mut self, size: usize) {
+        if size > self.buf.len() {
+            let mut buf = std::mem::take(&mut self.buf).into_vec();
+            buf.resize(size, 0);
+            self.buf = buf.into_boxed_slice();
+        }
+    }
+
     /// Returns the data sent in the handshake message.
     ///
     /// This does NOT include the header.
@@ -231,46 +236,27 @@ impl ShakeBuf {
         loop {
             match self.status {
                 ReadStatus::NeedsHeader(ref mut amt) => {
-                    if *amt == 0 {
-                        get_fn(rl)?;
-                        if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
-                            rl.discard();
-                            get_fn(rl)?;
-                        }
-                        rl.check_alert()
-                            .map_err(|alert| FullError::recving_alert(alert))?;
-                        if rl.msg_type() != ContentType::Handshake.to_byte() {
-                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
-                        }
-                    }
                     while *amt < Self::HEADER_SIZE {
-                        get_fn(rl)?;
-                        let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
-                        if new_bytes == 0 {
-                            return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
-                        }
-                        *amt += new_bytes;
+                        Self::get_fragment(rl, &mut get_fn)?;
+                        *amt += rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
                     }
                     if self.buf[0] != expected.to_byte() {
                         return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
                     }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
-                    if self.len > self.buf.len() {
-                        todo!("grow handshake buffer");
+                    if Self::HEADER_SIZE + self.len > self.max_size {
+                        return Err(FullError::sending_alert(TurtlsAlert::DecodeError));
                     }
+                    self.grow(Self::HEADER_SIZE + self.len);
                     self.status = ReadStatus::NeedsData(0);
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
                     while *amt < self.len {
-                        get_fn(rl)?;
-                        let new_bytes = rl.read_remaining(
+                        Self::get_fragment(rl, &mut get_fn)?;
+                        *amt += rl.read_remaining(
                             &mut self.buf[Self::HEADER_SIZE + *amt..Self::HEADER_SIZE + self.len],
                         );
-                        if new_bytes == 0 {
-                            return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
-                        }
-                        *amt += new_bytes;
                     }
                     self.status = ReadStatus::new();
                     transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
@@ -280,6 +266,26 @@ impl ShakeBuf {
         }
     }
 
+    /// Gets a record containing at least one unread byte of a handshake message.
+    ///
+    /// `ChangeCipherSpec` records are discarded.
+    fn get_fragment(
+        rl: &mut RecordLayer,
+        get_fn: &mut impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
+    ) -> Result<(), FullError> {
+        loop {
+            get_fn(rl)?;
+            rl.check_alert()?;
+            if rl.msg_type() == ContentType::Handshake.to_byte() && rl.has_unread() {
+                return Ok(());
+            }
+            if !rl.is_dummy_change_cipher_spec() {
+                return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+            }
+            rl.discard();
+        }
+    }
+
     /// Reads an entire plaintext handshake message of type `expected`.
     pub(crate) fn read_raw(
         &mut self,
diff --git a/src/record/read.rs b/src/record/read.rs
index 190c016..85972e2 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -1,6 +1,6 @@
 use super::{ContentType, RecordLayer};
 use crate::aead::TlsAead;
-use crate::alert::TurtlsAlert;
+use crate::alert::{AlertMsg, TurtlsAlert};
 use crate::error::FullError;
 use crate::TurtlsError;
 
@@ -52,6 +52,9 @@ impl RecordLayer {
     ///
     /// If an unused record is already in the buffer, a new record will not be read.
     pub(crate) fn get_raw(&mut self) -> Result<(), FullError> {
+        if self.has_unread() {
+            return Ok(());
+        }
         loop {
             match self.rbuf.status {
                 ReadStatus::NeedsHeader(ref mut bytes_read) => {
@@ -69,7 +72,12 @@ impl RecordLayer {
                             .try_into()
                             .unwrap(),
                     ) as usize;
-                    if self.rbuf.len > Self::MAX_LEN {
+                    let max_len = if self.msg_type() == ContentType::ApplicationData.to_byte() {
+                        Self::MAX_LEN + Self::SUFFIX_SIZE
+                    } else {
+                        Self::MAX_LEN
+                    };
+                    if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
                     self.rbuf.status = ReadStatus::NeedsData(0);
@@ -85,13 +93,10 @@ impl RecordLayer {
                         *bytes_read += new_bytes;
                     }
                     self.rbuf.status = ReadStatus::Moving(0);
+                    return Ok(());
                 },
-                ReadStatus::Moving(bytes_moved) => {
-                    if bytes_moved == self.rbuf.len {
-                        self.rbuf.status = ReadStatus::NeedsHeader(0);
-                    } else {
-                        return Ok(());
-                    }
+                ReadStatus::Moving(_) => {
+                    self.rbuf.status = ReadStatus::NeedsHeader(0);
                 },
             }
         }
@@ -176,11 +181,29 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
-    pub(crate) fn check_alert(&self) -> Result<(), TurtlsAlert> {
-        if self.msg_type() == ContentType::Alert.to_byte() {
-            Err(TurtlsAlert::from_byte(self.rbuf.buf[Self::HEADER_SIZE + 1]))
-        } else {
-            Ok(())
+    /// Returns an error if the current record contains an alert.
+    pub(crate) fn check_alert(&self) -> Result<(), FullError> {
+        if self.msg_type() != ContentType::Alert.to_byte() {
+            return Ok(());
+        }
+        if self.rbuf.len < AlertMsg::SIZE {
+            return Err(FullError::sending_alert(TurtlsAlert::DecodeError));
+        }
+        let alert = TurtlsAlert::from_byte(self.rbuf.buf[Self::HEADER_SIZE + 1]);
+        Err(FullError::recving_alert(alert))
+    }
+
+    /// Whether the current record is a `ChangeCipherSpec` that only exists for compatibility.
+    pub(crate) fn is_dummy_change_cipher_spec(&self) -> bool {
+        self.msg_type() == ContentType::ChangeCipherSpec.to_byte()
+            && self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len] == [1]
+    }
+
+    /// Whether the current record contains data that has not been read yet.
+    pub(crate) fn has_unread(&self) -> bool {
+        match self.rbuf.status {
+            ReadStatus::Moving(bytes_moved) => bytes_moved < self.rbuf.len,
+            _ => false,
         }
     }
 }
-- 
2.43.0


From 749367044083caa39bb0e4dfbf183ef1ed162158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 16/26] fix: record layer: require protection once keys are
 installed

---
 src/handshake.rs   |  7 +++++++
 src/record/read.rs | 19 +++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 80bb108..96b8b6d 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -53,6 +53,13 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    if global_state.rl.has_unread() {
+                        // The keys are about to change.
+                        let alert = TurtlsAlert::UnexpectedMessage;
+                        global_state.rl.close_raw(alert);
+                        global_state.error = FullError::sending_alert(alert);
+                        return Err(());
+                    }
                     let aead =
                         server_hello_client(shake_state.buf.data(), unprot_state, global_state)
                             .map_err(|alert| {
diff --git a/src/record/read.rs b/src/record/read.rs
index 85972e2..e810e45 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -106,6 +106,10 @@ impl RecordLayer {
     ///
     /// If an unused record is already in the buffer, a new record will not be read.
     pub(crate) fn get(&mut self, aead: &mut TlsAead) -> Result<(), FullError> {
+        if self.has_unread() {
+            // The record has already been decrypted.
+            return Ok(());
+        }
         self.get_raw()?;
 
         self.deprotect(aead)
@@ -114,10 +118,13 @@ impl RecordLayer {
 
     /// Decrypts the current record and remove any padding.
     fn deprotect(&mut self, aead: &mut TlsAead) -> Result<(), TurtlsAlert> {
-        // Only deprotect the record if it's already protected.
-        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+        if self.is_dummy_change_cipher_spec() {
             return Ok(());
         }
+        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+            // Everything else must be protected.
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
 
         if self.rbuf.len < Self::MIN_PROT_LEN {
             return Err(TurtlsAlert::DecodeError);
@@ -145,6 +152,14 @@ impl RecordLayer {
         self.rbuf.len -= padding;
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
+
+        if self.rbuf.len > Self::MAX_LEN {
+            return Err(TurtlsAlert::RecordOverflow);
+        }
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            // ChangeCipherSpec is never protected.
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 7cb318b001726988a2aea05d1a419839e866fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 17/26] fix: record layer: continue interrupted writes where
 they stopped

---
 src/handshake.rs    | 24 +++++++++++++++---------
 src/record/write.rs | 30 ++++++++++++++++++++++--------
 src/state.rs        |  1 +
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 96b8b6d..5d15e38 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -30,12 +30,16 @@ pub(crate) fn handshake_client(
                 UnprotShakeMsg::ClientHello => {
                     // Don't send alert because handshake hasn't started.
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
-                        .map_err(|err| global_state.error.turtls_error = err)?;
+                        .map_err(|err| global_state.error = FullError::error(err))?;
+                    shake_state.buf.finish(&mut global_state.transcript);
 
+                    *next = UnprotShakeMsg::SendClientHello;
+                },
+                UnprotShakeMsg::SendClientHello => {
                     shake_state
                         .buf
-                        .write_raw(&mut global_state.rl, &mut global_state.transcript)
-                        .map_err(|err| global_state.error.turtls_error = err)?;
+                        .write_raw(&mut global_state.rl)
+                        .map_err(|err| global_state.error = FullError::error(err))?;
 
                     *next = UnprotShakeMsg::ServerHello;
                 },
@@ -316,14 +320,16 @@ impl ShakeBuf {
         self.read_inner(expected, rl, get_fn, transcript)
     }
 
-    pub(crate) fn write_raw(
-        &mut self,
-        rl: &mut RecordLayer,
-        transcript: &mut TranscriptHasher,
-    ) -> Result<(), TurtlsError> {
+    /// Completes the message, adding it to the transcript.
+    pub(crate) fn finish(&mut self, transcript: &mut TranscriptHasher) {
         self.encode_len();
-
         transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+    }
+
+    /// Writes a completed message in plaintext.
+    ///
+    /// If an error is returned, calling this function again continues writing.
+    pub(crate) fn write_raw(&self, rl: &mut RecordLayer) -> Result<(), TurtlsError> {
         rl.write_raw(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
diff --git a/src/record/write.rs b/src/record/write.rs
index 9fd3e89..ddfbebe 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -14,7 +14,7 @@ pub(super) struct WriteBuf {
     /// This does not include the header.
     len: usize,
     record_bytes: usize,
-    /// The total number of bytes written to IO.
+    /// The number of bytes of the current message in the records that were written to IO.
     total_bytes: usize,
 }
 
@@ -48,6 +48,7 @@ impl RecordLayer {
                 .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
             self.wbuf.len = record_size;
             self.finish_raw()?;
+            self.wbuf.total_bytes += record_size;
         }
         self.wbuf.total_bytes = 0;
         Ok(())
@@ -64,7 +65,9 @@ impl RecordLayer {
             self.wbuf.buf[Self::HEADER_SIZE..][..record.len()].copy_from_slice(record);
             self.wbuf.len = record.len();
             self.finish(msg_type, aead)?;
+            self.wbuf.total_bytes += record.len();
         }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -95,7 +98,6 @@ impl RecordLayer {
                 .ok_or(TurtlsError::WantWrite)?;
             self.wbuf.record_bytes += bytes_written as usize;
         }
-        self.wbuf.total_bytes += self.wbuf.record_bytes;
         self.wbuf.record_bytes = 0;
         Ok(())
     }
@@ -109,16 +111,28 @@ impl RecordLayer {
     }
 
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
-        let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        if self.abandon_message() {
+            let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        }
         self.io.close();
     }
 
     pub(crate) fn close(&mut self, alert: TurtlsAlert, aead: &mut TlsAead) {
-        let _ = self.write(
-            &AlertMsg::new(alert).to_be_bytes(),
-            ContentType::Alert,
-            aead,
-        );
+        if self.abandon_message() {
+            let _ = self.write(
+                &AlertMsg::new(alert).to_be_bytes(),
+                ContentType::Alert,
+                aead,
+            );
+        }
         self.io.close();
     }
+
+    /// Gives up on the message being written, returning whether another record may be sent.
+    ///
+    /// This isn't the case if only a part of the previous record was written.
+    fn abandon_message(&mut self) -> bool {
+        self.wbuf.total_bytes = 0;
+        self.wbuf.record_bytes == 0
+    }
 }
diff --git a/src/state.rs b/src/state.rs
index 2c8ed6a..954ac0a 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -72,6 +72,7 @@ pub(crate) enum MaybeProt {
 #[derive(PartialEq, Eq)]
 pub(crate) enum UnprotShakeMsg {
     ClientHello,
+    SendClientHello,
     ServerHello,
 }
 
-- 
2.43.0


From 99411272d3e06bfc6bdbb4c0e73daa1c5624e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 18/26] fix: connections: end a failed handshake and start the
 next one afresh

---
 src/handshake.rs    | 18 ++++++++++++------
 src/lib.rs          | 26 +++++++++++++++++++++-----
 src/record.rs       |  6 ++++++
 src/record/write.rs |  5 +++++
 src/state.rs        | 10 ++++++++++
 5 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 5d15e38..a38bc74 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -52,8 +52,10 @@ pub(crate) fn handshake_client(
                             &mut global_state.transcript,
                         )
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close_raw(err.alert);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close_raw(err.alert),
+                                TurtlsError::TlsPeer => global_state.rl.close_silently(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
@@ -90,8 +92,10 @@ pub(crate) fn handshake_client(
                             &mut global_state.transcript,
                         )
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close(err.alert, aead);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close(err.alert, aead),
+                                TurtlsError::TlsPeer => global_state.rl.close_silently(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
@@ -113,8 +117,10 @@ pub(crate) fn handshake_client(
                             &mut global_state.transcript,
                         )
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close(err.alert, aead);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close(err.alert, aead),
+                                TurtlsError::TlsPeer => global_state.rl.close_silently(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
diff --git a/src/lib.rs b/src/lib.rs
index 3545854..9150487 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,9 @@ use std::ffi::c_int;
 use crylib::hash::Sha256;
 use crylib::hkdf;
 
+use error::FullError;
 use handshake::handshake_client;
+use state::MaybeProt;
 use state::ShakeState;
 use state::TlsStatus;
 
@@ -78,10 +80,11 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
     loop {
         match tls_conn.state {
             TlsStatus::None => {
+                tls_conn.gloabl_state.reset();
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
-                        tls_conn.gloabl_state.error.turtls_error = err;
+                        tls_conn.gloabl_state.error = FullError::error(err);
                         return -1;
                     },
                 }
@@ -95,6 +98,11 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 if let Err(()) =
                     handshake_client(shake_state, &mut tls_conn.gloabl_state, &tls_conn.config)
                 {
+                    match tls_conn.gloabl_state.error.turtls_error {
+                        // The handshake can be resumed.
+                        TurtlsError::WantRead | TurtlsError::WantWrite => (),
+                        _ => tls_conn.state = TlsStatus::None,
+                    }
                     return -1;
                 }
                 todo!()
@@ -118,10 +126,18 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     // SAFETY: the caller guarantees that the pointer is valid.
     let tls_conn = unsafe { &mut *tls_conn };
 
-    if let TlsStatus::None = tls_conn.state {
-        return;
+    let alert = TurtlsAlert::CloseNotify;
+    match tls_conn.state {
+        TlsStatus::None => return,
+        TlsStatus::Shake(ShakeState {
+            state: MaybeProt::Unprot { .. },
+            ..
+        }) => tls_conn.gloabl_state.rl.close_raw(alert),
+        TlsStatus::Shake(ShakeState {
+            state: MaybeProt::Prot { ref mut aead, .. },
+            ..
+        })
+        | TlsStatus::App { ref mut aead } => tls_conn.gloabl_state.rl.close(alert, aead),
     }
-
-    tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify);
     tls_conn.state = TlsStatus::None;
 }
diff --git a/src/record.rs b/src/record.rs
index 41ed28a..35e8e5f 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -108,4 +108,10 @@ impl RecordLayer {
             io,
         }
     }
+
+    /// Discards everything that was read or written, preparing for a new connection.
+    pub(crate) fn reset(&mut self) {
+        self.rbuf = ReadBuf::new();
+        self.wbuf = WriteBuf::new();
+    }
 }
diff --git a/src/record/write.rs b/src/record/write.rs
index ddfbebe..0869949 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -128,6 +128,11 @@ impl RecordLayer {
         self.io.close();
     }
 
+    /// Closes the connection without alerting the peer.
+    pub(crate) fn close_silently(&mut self) {
+        self.io.close();
+    }
+
     /// Gives up on the message being written, returning whether another record may be sent.
     ///
     /// This isn't the case if only a part of the previous record was written.
diff --git a/src/state.rs b/src/state.rs
index 954ac0a..bf98726 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -41,6 +41,16 @@ pub(crate) struct GlobalState {
     pub(crate) app_proto: [u8; 256],
 }
 
+impl GlobalState {
+    /// Forgets everything about the previous connection, except for its error.
+    pub(crate) fn reset(&mut self) {
+        self.rl.reset();
+        self.secret = [0; Sha256::HASH_SIZE];
+        self.transcript = TranscriptHasher::new();
+        self.app_proto = [0; 256];
+    }
+}
+
 pub(crate) enum TlsStatus {
     None,
     Shake(ShakeState),
-- 
2.43.0


From 2a5bad12bc9a0c6e457fce627d5af021fc51827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 19/26] fix: EncryptedExtensions: only accept what was offered

---
 src/extensions.rs           | 24 ++++++++++++++++++--
 src/extensions/app_proto.rs | 45 +++++++++++++++++++++++++++++--------
 src/handshake.rs            | 15 ++++++++-----
 src/state.rs                |  3 +++
 4 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index f639557..fbd8c44 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -149,6 +149,21 @@ impl TurtlsExts {
     }
 }
 
+/// The optional extensions that were offered to the server.
+pub(crate) struct OfferedExts {
+    server_name: bool,
+    app_protos: Box<[u8]>,
+}
+
+impl OfferedExts {
+    pub(crate) fn new(exts: &TurtlsExts) -> Self {
+        Self {
+            server_name: exts.server_name_len() > 0,
+            app_protos: exts.app_protos().into(),
+        }
+    }
+}
+
 pub(crate) struct ExtRef<'a> {
     ext_type: [u8; 2],
     data: &'a [u8],
@@ -240,6 +255,7 @@ pub(crate) fn parse_ser_hel_exts(
 
 pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
+    offered: &OfferedExts,
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
     if exts.len() < TurtlsExts::LEN_SIZE {
@@ -256,11 +272,15 @@ pub(crate) fn parse_encrypted_extensions(
         let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
-            x if x == ExtensionType::ServerName.to_be_bytes() => (),
+            x if x == ExtensionType::ServerName.to_be_bytes() && offered.server_name => (),
             // SupportedGroups from server is ignored
             x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
             x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
-                parse_app_proto_client(ext.data, &mut global_state.app_proto)?
+                parse_app_proto_client(
+                    ext.data,
+                    &offered.app_protos,
+                    &mut global_state.app_proto,
+                )?
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 498af62..c64b2e3 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -13,6 +13,16 @@ impl TurtlsExts {
         }
         size_of::<u16>() + self.app_protos_len
     }
+
+    /// Returns the application protocols to offer, or an empty slice if there are none.
+    pub(crate) fn app_protos(&self) -> &[u8] {
+        if self.app_protos_len() == 0 {
+            return &[];
+        }
+        // SAFETY: We just checked for null and the caller guarantees the length is correct.
+        unsafe { std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len) }
+    }
+
     pub(super) fn write_app_protos_client(&self, shake_buf: &mut ShakeBuf) {
         // TODO: properly handle the error
         let len: u16 = self.app_protos_len().try_into().unwrap();
@@ -20,24 +30,36 @@ impl TurtlsExts {
         if len == 0 {
             return;
         }
-        // SAFETY: We just checked for null and the caller guarantees the string is
-        // nul-terminated.
-        let as_slice = unsafe {
-            std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len)
-        };
-
         shake_buf.extend_from_slice(&ExtensionType::AppLayerProtoNeg.to_be_bytes());
 
         shake_buf.extend_from_slice(&len.to_be_bytes());
         shake_buf.extend_from_slice(&(len - size_of::<u16>() as u16).to_be_bytes());
-        shake_buf.extend_from_slice(as_slice)
+        shake_buf.extend_from_slice(self.app_protos())
+    }
+}
+
+/// Whether `name` is one of the length-prefixed names in `list`.
+fn contains_app_proto(mut list: &[u8], name: &[u8]) -> bool {
+    while let Some((&len, rest)) = list.split_first() {
+        let Some((entry, rest)) = rest.split_at_checked(len as usize) else {
+            return false;
+        };
+        if entry == name {
+            return true;
+        }
+        list = rest;
     }
+    false
 }
 
 pub(crate) fn parse_app_proto_client(
     alpn: &[u8],
+    offered: &[u8],
     alpn_state: &mut [u8; 256],
 ) -> Result<(), TurtlsAlert> {
+    if offered.is_empty() {
+        return Err(TurtlsAlert::UnsupportedExtension);
+    }
     if alpn.len() < 4 {
         return Err(TurtlsAlert::DecodeError);
     }
@@ -53,8 +75,13 @@ pub(crate) fn parse_app_proto_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
-    // `alpn.len` is guaranteed to be less than or equal to `256` because the length is encoded as
-    // a single byte
+    if !contains_app_proto(offered, alpn) {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+
+    // `alpn.len` is guaranteed to be less than `256` because the length is encoded as a single
+    // byte, so there is always room for the nul terminator.
+    *alpn_state = [0; 256];
     alpn_state[..alpn.len()].copy_from_slice(alpn);
     Ok(())
 }
diff --git a/src/handshake.rs b/src/handshake.rs
index a38bc74..758c9cb 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -99,12 +99,15 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
-                        |alert| {
-                            global_state.rl.close(alert, aead);
-                            global_state.error = FullError::sending_alert(alert);
-                        },
-                    )?;
+                    parse_encrypted_extensions(
+                        shake_state.buf.data(),
+                        &shake_state.offered,
+                        global_state,
+                    )
+                    .map_err(|alert| {
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                    })?;
                     *next = ProtShakeMsg::Certificate;
                 },
                 ProtShakeMsg::Certificate => {
diff --git a/src/state.rs b/src/state.rs
index bf98726..06f805e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -5,6 +5,7 @@ use crate::cipher_suites::TurtlsCipherList;
 use crate::config::TurtlsConfig;
 use crate::error::FullError;
 use crate::extensions::key_share::GroupKeys;
+use crate::extensions::OfferedExts;
 use crate::handshake::ShakeBuf;
 use crate::record::{RecordLayer, TurtlsIo};
 use crate::TurtlsError;
@@ -101,6 +102,7 @@ pub(crate) enum ProtShakeMsg {
 
 pub(crate) struct ShakeState {
     pub(crate) state: MaybeProt,
+    pub(crate) offered: OfferedExts,
     pub(crate) buf: ShakeBuf,
 }
 
@@ -116,6 +118,7 @@ impl ShakeState {
                     ciphers: config.cipher_suites,
                 },
             },
+            offered: OfferedExts::new(&config.extensions),
             buf: ShakeBuf::new(0x20000),
         })
     }
-- 
2.43.0


From f715a5fc2484a5065cd24610241f89f57c783f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 20/26] fix: ClientHello: check the configuration before using
 it

---
 src/cipher_suites.rs          |  3 ++-
 src/config.rs                 | 22 ++++++++++++++++++++++
 src/extensions/key_share.rs   |  5 +++--
 src/extensions/server_name.rs |  5 ++++-
 src/extensions/sig_algs.rs    |  2 +-
 src/lib.rs                    |  3 +--
 src/state.rs                  |  7 ++++---
 7 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/cipher_suites.rs b/src/cipher_suites.rs
index 2951cf1..40a977c 100644
--- a/src/cipher_suites.rs
+++ b/src/cipher_suites.rs
@@ -23,7 +23,8 @@ impl TurtlsCipherList {
     pub(crate) const LEN_SIZE: usize = 2;
 
     pub(crate) const fn len(&self) -> usize {
-        self.suites.count_ones() as usize * size_of::<CipherSuite>()
+        let known = Self::TURTLS_CHA_CHA_POLY1305_SHA256 | Self::TURTLS_AES_128_GCM_SHA256;
+        (self.suites & known).count_ones() as usize * size_of::<CipherSuite>()
     }
 
     pub(crate) fn write_to(&self, buf: &mut ShakeBuf) {
diff --git a/src/config.rs b/src/config.rs
index 2b547fd..17213ea 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1,6 +1,10 @@
 use crate::cipher_suites::TurtlsCipherList;
+use crate::error::{FullError, TurtlsError};
+use crate::extensions::key_share::TURTLS_SECP256R1;
+use crate::extensions::sig_algs::TURTLS_ECDSA_SECP256R1;
 use crate::extensions::TurtlsExts;
 use crate::state::TurtlsConn;
+use crate::TurtlsAlert;
 
 /// Configure `TurtlsConn` connections.
 ///
@@ -15,6 +19,24 @@ pub struct TurtlsConfig {
     pub cipher_suites: TurtlsCipherList,
 }
 
+impl TurtlsConfig {
+    /// Returns an error if it is impossible to create a ClientHello from the configuration.
+    pub(crate) fn check_client(&self) -> Result<(), FullError> {
+        if self.extensions.sig_algs & TURTLS_ECDSA_SECP256R1 == 0
+            || self.extensions.sup_groups & TURTLS_SECP256R1 == 0
+        {
+            return Err(FullError::error(TurtlsError::MissingExtensions));
+        }
+        if self.cipher_suites.len() == 0 {
+            return Err(FullError::sending_alert(TurtlsAlert::HandshakeFailure));
+        }
+        if self.extensions.len_client() > u16::MAX as usize {
+            return Err(FullError::sending_alert(TurtlsAlert::InternalError));
+        }
+        Ok(())
+    }
+}
+
 impl Default for TurtlsConfig {
     fn default() -> Self {
         Self {
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 651ff72..012e751 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -62,7 +62,7 @@ pub(crate) struct GroupKeys {
 
 impl GroupKeys {
     pub(crate) fn generate(groups: u16) -> Result<Self, TurtlsError> {
-        if groups == 0 {
+        if groups & TURTLS_SECP256R1 == 0 {
             return Err(TurtlsError::MissingExtensions);
         }
         let mut buf = [0; 32];
@@ -124,7 +124,8 @@ impl TurtlsExts {
     }
 
     pub(super) const fn sup_groups_len(&self) -> usize {
-        Self::LEN_SIZE + self.sup_groups.count_ones() as usize * size_of::<NamedGroup>()
+        let groups = self.sup_groups & TURTLS_SECP256R1;
+        Self::LEN_SIZE + groups.count_ones() as usize * size_of::<NamedGroup>()
     }
 
     pub(super) fn write_sup_groups(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/extensions/server_name.rs b/src/extensions/server_name.rs
index 13f425c..9020481 100644
--- a/src/extensions/server_name.rs
+++ b/src/extensions/server_name.rs
@@ -12,11 +12,14 @@ impl TurtlsExts {
             return 0;
         }
         let str_len = unsafe { CStr::from_ptr(self.server_name).count_bytes() };
+        if str_len == 0 {
+            return 0;
+        }
         Self::LEN_SIZE + size_of_val(&SERVER_NAME_TYPE) + Self::LEN_SIZE + str_len
     }
 
     pub(super) fn write_server_name(&self, shake_buf: &mut ShakeBuf) {
-        if self.server_name.is_null() {
+        if self.server_name_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::ServerName.to_be_bytes());
diff --git a/src/extensions/sig_algs.rs b/src/extensions/sig_algs.rs
index 415d498..53acc62 100644
--- a/src/extensions/sig_algs.rs
+++ b/src/extensions/sig_algs.rs
@@ -57,7 +57,7 @@ pub const TURTLS_ECDSA_SECP256R1: u16 = 0b0000000000000001;
 
 impl TurtlsExts {
     pub(super) const fn sig_algs_len(&self) -> usize {
-        self.sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
+        (self.sig_algs & TURTLS_ECDSA_SECP256R1).count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
     }
 
     pub(super) fn write_sig_algs(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/lib.rs b/src/lib.rs
index 9150487..e04d672 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,6 @@ use std::ffi::c_int;
 use crylib::hash::Sha256;
 use crylib::hkdf;
 
-use error::FullError;
 use handshake::handshake_client;
 use state::MaybeProt;
 use state::ShakeState;
@@ -84,7 +83,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
-                        tls_conn.gloabl_state.error = FullError::error(err);
+                        tls_conn.gloabl_state.error = err;
                         return -1;
                     },
                 }
diff --git a/src/state.rs b/src/state.rs
index 06f805e..99e458a 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -8,7 +8,6 @@ use crate::extensions::key_share::GroupKeys;
 use crate::extensions::OfferedExts;
 use crate::handshake::ShakeBuf;
 use crate::record::{RecordLayer, TurtlsIo};
-use crate::TurtlsError;
 /// A TLS connection object.
 ///
 /// An instance may be reused between multiple consecutive connections.
@@ -107,12 +106,14 @@ pub(crate) struct ShakeState {
 }
 
 impl ShakeState {
-    pub(crate) fn new(config: &TurtlsConfig) -> Result<Self, TurtlsError> {
+    pub(crate) fn new(config: &TurtlsConfig) -> Result<Self, FullError> {
+        config.check_client()?;
         Ok(Self {
             state: MaybeProt::Unprot {
                 next: UnprotShakeMsg::ClientHello,
                 unprot_state: UnprotShakeState {
-                    priv_keys: GroupKeys::generate(config.extensions.sup_groups)?,
+                    priv_keys: GroupKeys::generate(config.extensions.sup_groups)
+                        .map_err(FullError::error)?,
                     sup_groups: config.extensions.sup_groups,
                     sig_algs: config.extensions.sig_algs,
                     ciphers: config.cipher_suites,
-- 
2.43.0


From 423768d8082dbeb4934f345710cc4701acfa0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 21/26] fix: key share: check for a zero private key after
 reducing it

---
 src/extensions/key_share.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 012e751..14caf08 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -68,15 +68,15 @@ impl GroupKeys {
         let mut buf = [0; 32];
         getrandom(&mut buf).map_err(|_| TurtlsError::Rng)?;
 
-        if buf == [0; 32] {
-            return Err(TurtlsError::PrivKeyIsZero);
-        }
-
         // SAFETY: `[u64; 4]` and `[u8; 32]` have the same memory layout.
         let as_u64s: [u64; 4] = unsafe { std::mem::transmute(buf) };
-        return Ok(Self {
-            secp256r1: FieldElement::<4, _>::new(UBigInt(as_u64s)),
-        });
+        let secp256r1 = FieldElement::<4, _>::new(UBigInt(as_u64s));
+
+        // The random number might also be the order of the group.
+        if secp256r1 == FieldElement::ZERO {
+            return Err(TurtlsError::PrivKeyIsZero);
+        }
+        Ok(Self { secp256r1 })
     }
 }
 
-- 
2.43.0


From 6064e68d1055899e86aafbc9d8478e98ef4507f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 22/26] fix: certificates: refuse what can't be validated
 instead of crashing

---
 src/certificates.rs      | 38 +++++++++++++++++----
 src/certificates/x509.rs | 71 ++++++++++++++++++++++++++--------------
 src/handshake.rs         | 19 +++++------
 3 files changed, 88 insertions(+), 40 deletions(-)

diff --git a/src/certificates.rs b/src/certificates.rs
index 5f3b120..9905a9c 100644
--- a/src/certificates.rs
+++ b/src/certificates.rs
@@ -1,5 +1,7 @@
 use std::iter::Iterator;
 
+use crate::TurtlsAlert;
+
 pub(crate) mod der;
 pub(crate) mod x509;
 
@@ -32,30 +34,54 @@ impl<'a> CertIter<'a> {
 }
 
 impl<'a> Iterator for CertIter<'a> {
-    type Item = CertEntry<'a>;
+    type Item = Result<CertEntry<'a>, TurtlsAlert>;
 
-    fn next(&mut self) -> Option<CertEntry<'a>> {
-        if self.cert_list.len() < 5 {
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.cert_list.is_empty() {
             return None;
         }
+        if self.cert_list.len() < 5 {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let data_len =
             u32::from_be_bytes([0, self.cert_list[0], self.cert_list[1], self.cert_list[2]])
                 as usize;
         if data_len > self.cert_list.len() - 5 {
-            return None;
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let extensions_len = u16::from_be_bytes([
             self.cert_list[3 + data_len],
             self.cert_list[3 + data_len + 1],
         ]) as usize;
         if extensions_len > self.cert_list.len() - 5 - data_len {
-            return None;
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let cert = CertEntry {
             data: &self.cert_list[3..][..data_len],
             extensions: &self.cert_list[3 + data_len + 2..][..extensions_len],
         };
         self.cert_list = &self.cert_list[5 + data_len + extensions_len..];
-        Some(cert)
+        Some(Ok(cert))
+    }
+}
+
+/// Parses the body of a Certificate message.
+///
+/// At least one certificate is required.
+pub(crate) fn parse_certificate(cert_msg: &[u8]) -> Result<(), TurtlsAlert> {
+    let (&context_len, rest) = cert_msg.split_first().ok_or(TurtlsAlert::DecodeError)?;
+    let (_context, rest) = rest
+        .split_at_checked(context_len as usize)
+        .ok_or(TurtlsAlert::DecodeError)?;
+    let (len, cert_list) = rest.split_at_checked(3).ok_or(TurtlsAlert::DecodeError)?;
+
+    let len = u32::from_be_bytes([0, len[0], len[1], len[2]]) as usize;
+    if len != cert_list.len() || cert_list.is_empty() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+
+    for cert in CertIter::new(cert_list) {
+        x509::validate_cert(cert?.data).map_err(|err| err.to_alert())?;
     }
+    Ok(())
 }
diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 7084a2f..895b956 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -1,10 +1,13 @@
 use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
+use crate::TurtlsAlert;
+
 use crylib::ec::ecdsa::Signature;
-use crylib::ec::Secp256r1;
+use crylib::ec::{EllipticCurve, Secp256r1};
 use crylib::big_int::UBigInt;
 use crylib::finite_field::FieldElement;
 
+type ScalarField = <Secp256r1 as EllipticCurve>::Order;
 
 pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
     let cert = DerIter::new(cert_buf).next().ok_or(CertError::ParseError)?;
@@ -23,11 +26,38 @@ pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
     Ok(())
 }
 
-fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError> {
+/// Parses an integer that must be greater than zero and less than the order of the group.
+fn parse_scalar(obj: DerObj) -> Result<FieldElement<4, ScalarField>, CertError> {
+    if obj.tag != DerTag::Integer as u8 {
+        return Err(CertError::ParseError);
+    }
+    match obj.data.first() {
+        None => return Err(CertError::ParseError),
+        Some(first) if first & 0x80 != 0 => return Err(CertError::CertInvalid),
+        _ => (),
+    }
+
+    // remove leading zeros
+    let leading_bytes = obj.data.iter().take_while(|&&byte| byte == 0).count();
+    let bytes = &obj.data[leading_bytes..];
+
+    let mut buf = [0; 32];
+    let start = buf.len().checked_sub(bytes.len()).ok_or(CertError::CertInvalid)?;
+    buf[start..].copy_from_slice(bytes);
+
+    let scalar = FieldElement::try_new(UBigInt::<4>::from_be_bytes(buf))
+        .ok_or(CertError::CertInvalid)?;
+    if scalar == FieldElement::ZERO {
+        return Err(CertError::CertInvalid);
+    }
+    Ok(scalar)
+}
+
+fn parse_signature(signature: DerObj) -> Result<Signature<ScalarField>, CertError> {
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
-    if signature.data[0] != 0 {
+    if signature.data.first() != Some(&0) {
         // there should never be unused bits
         return Err(CertError::ParseError);
     }
@@ -36,26 +66,8 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
     let mut sig_iter = DerIter::new(sig_obj.data);
-    let r_obj = sig_iter.next().ok_or(CertError::ParseError)?;
-
-    if r_obj.tag != DerTag::Integer as u8 {
-        return Err(CertError::ParseError);
-    }
-
-    // remove leading zeros
-    let leading_bytes = r_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let r = UBigInt::<4>::from_be_bytes(r_obj.data[leading_bytes..].try_into().unwrap());
-    let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;
-
-    let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
-    if s_obj.tag != DerTag::Integer as u8 {
-        return Err(CertError::ParseError);
-    }
-
-    // remove leading zeros
-    let leading_bytes = s_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
-    let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
+    let r = parse_scalar(sig_iter.next().ok_or(CertError::ParseError)?)?;
+    let s = parse_scalar(sig_iter.next().ok_or(CertError::ParseError)?)?;
 
     Ok(Signature::new(r, s))
 }
@@ -75,7 +87,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
         return Err(CertError::ParseError);
         }
-        version = vers.data[0] + 1;
+        version = vers.data[0].saturating_add(1);
         next = tbs_iter.next().ok_or(CertError::ParseError)?;
     } else {
         version = 1;
@@ -149,6 +161,17 @@ pub(crate) enum CertError {
     UnsupportedSigAlg,
 }
 
+impl CertError {
+    /// The alert to send if a certificate has the error.
+    pub(crate) const fn to_alert(&self) -> TurtlsAlert {
+        match self {
+            Self::ParseError | Self::CertInvalid => TurtlsAlert::BadCert,
+            Self::CertExpired => TurtlsAlert::CertExpired,
+            Self::UnsupportedVersion | Self::UnsupportedSigAlg => TurtlsAlert::UnsupportedCert,
+        }
+    }
+}
+
 fn validate_time(validity: DerObj) -> Result<(), CertError> {
     if validity.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
diff --git a/src/handshake.rs b/src/handshake.rs
index 758c9cb..fcd9ff7 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,6 +1,7 @@
 use std::mem::MaybeUninit;
 
 use crate::aead::TlsAead;
+use crate::certificates::parse_certificate;
 use crate::client_hello::client_hello_client;
 use crate::config::TurtlsConfig;
 use crate::error::{FullError, TurtlsError};
@@ -127,16 +128,14 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    let cert_msg = shake_state.buf.data();
-
-                    let context_len = cert_msg[0] as usize;
-                    let certs = &cert_msg[1 + context_len as usize..];
-
-                    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
-                    for cert in crate::certificates::CertIter::new(&certs[3..][..data_len]) {
-                        crate::certificates::x509::validate_cert(cert.data).unwrap();
-                    }
-                    todo!("validate certificates");
+                    // TODO: validate the certificates. Until that is possible, no server can be
+                    // authenticated, so no certificate can be accepted.
+                    let alert = parse_certificate(shake_state.buf.data())
+                        .err()
+                        .unwrap_or(TurtlsAlert::CertUnknown);
+                    global_state.rl.close(alert, aead);
+                    global_state.error = FullError::sending_alert(alert);
+                    return Err(());
                 },
                 _ => todo!("Finish handshake"),
             },
-- 
2.43.0


From 5e8ab0cf38280f8c26a8c6865b87d43ea3107e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 23/26] fix: ServerHello: refuse retry requests

---
 src/server_hello.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index d80e1df..b0a9f4f 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -8,6 +8,12 @@ use crate::TurtlsAlert;
 
 const LEGACY_COMPRESSION_METHOD: u8 = 0;
 
+/// The random value of a ServerHello that really is a HelloRetryRequest.
+const HELLO_RETRY_REQUEST_RANDOM: [u8; RANDOM_BYTES_LEN] = [
+    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91,
+    0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
+];
+
 pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + RANDOM_BYTES_LEN
     + 3
@@ -24,7 +30,13 @@ pub(crate) fn server_hello_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
-    let mut pos = size_of::<ProtocolVersion>() + RANDOM_BYTES_LEN;
+    let mut pos = size_of::<ProtocolVersion>();
+
+    if ser_hel[pos..][..RANDOM_BYTES_LEN] == HELLO_RETRY_REQUEST_RANDOM {
+        // Everything there is to offer has already been offered.
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    pos += RANDOM_BYTES_LEN;
 
     let leg_session_id_len = ser_hel[pos];
 
-- 
2.43.0


From 64bc5d44ae7d06e9887f9d4a045212efd351df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 24/26] fix: big integers: keep the optimizer from branching on
 masks

The optimizer turned the masks of and_bool and the shifts back into branches,
so these operations, which are documented as constant-time, and those using
them, such as FieldElement::sub, took different paths for different values.
---
 crylib/src/big_int.rs          | 9 +++++++++
 crylib/src/big_int/unsigned.rs | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/crylib/src/big_int.rs b/crylib/src/big_int.rs
index 6ade589..5691a8d 100644
--- a/crylib/src/big_int.rs
+++ b/crylib/src/big_int.rs
@@ -39,6 +39,15 @@ impl core::fmt::Display for FromNegErr {
 
 impl core::error::Error for FromNegErr {}
 
+/// Returns `u64::MAX` if `condition` is `true`, otherwise `0`.
+///
+/// Hides where the mask comes from, so that the optimizer doesn't turn the use of it back into a
+/// branch.
+#[inline]
+pub(crate) fn mask(condition: bool) -> u64 {
+    core::hint::black_box((condition as u64).wrapping_neg())
+}
+
 pub(crate) const fn carry_add(x: u64, y: u64, carry: bool) -> (u64, bool) {
     let (sum1, overflowed1) = x.overflowing_add(y);
     let (sum2, overflowed2) = sum1.overflowing_add(carry as u64);
diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 2b29e78..427b849 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -360,7 +360,7 @@ impl<const N: usize> UBigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn and_bool_assign(&mut self, rhs: bool) {
-        let mask = (rhs as u64).wrapping_neg();
+        let mask = super::mask(rhs);
         for digit in self.0.iter_mut() {
             *digit &= mask
         }
@@ -388,7 +388,7 @@ impl<const N: usize> UBigInt<N> {
     pub fn shift_right_assign(&mut self, mut rhs: u64) {
         rhs %= 64;
         let left_shift = (64 - rhs) % 64;
-        let mask = ((rhs != 0) as u64).wrapping_neg();
+        let mask = super::mask(rhs != 0);
 
         for i in 0..N - 1 {
             self.0[i] >>= rhs;
@@ -414,7 +414,7 @@ impl<const N: usize> UBigInt<N> {
     pub fn shift_left_assign(&mut self, mut rhs: u64) {
         rhs %= 64;
         let right_shift = (64 - rhs) % 64;
-        let mask = ((rhs != 0) as u64).wrapping_neg();
+        let mask = super::mask(rhs != 0);
 
         for i in (1..N).rev() {
             self.0[i] <<= rhs;
@@ -696,7 +696,7 @@ macro_rules! impl_non_generic {
                 rhs %= 64;
                 let mut expanded = [0u64; $n + 1];
                 let right_shift = (64 - rhs) % 64;
-                let mask = ((rhs != 0) as u64).wrapping_neg();
+                let mask = super::mask(rhs != 0);
 
                 expanded[$n] = self.0[$n - 1] >> right_shift & mask;
                 for i in (1..$n).rev() {
-- 
2.43.0


From e48b32830c3c35b9fa6d47645b6707c58c45df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 25/26] fix: signed big integers: do not branch on the sign in
 abs

abs is documented as constant-time.
---
 crylib/src/big_int/signed.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 5c8bf81..21d0b6d 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -210,12 +210,11 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs(&self) -> Self {
-        match self.is_negative {
-            true => Self {
-                digits: self.neg().digits,
-                is_negative: false,
-            },
-            false => *self,
+        // -x = !x + 1 = (x ^ -1) - (-1)
+        let mask = UBigInt::MAX.and_bool(self.is_negative);
+        Self {
+            digits: self.digits.xor(&mask).sub(&mask),
+            is_negative: false,
         }
     }
 
-- 
2.43.0


From 7b22d10de640bec9dc2b625815fb1bc11087b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 26/26] fix: signed big integers: look at every digit in
 is_positive

is_positive is documented as constant-time; comparing arrays stops at the
first difference.
---
 crylib/src/big_int/signed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 21d0b6d..700de28 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -152,7 +152,7 @@ impl<const N: usize> BigInt<N> {
     /// This is a constant-time operation.
     #[inline]
     pub fn is_positive(&self) -> bool {
-        !self.is_negative & (self.digits != UBigInt::ZERO)
+        !self.is_negative & (self.digits.count_digits() != 0)
     }
 
     /// Converts `self` into its one's compliment
-- 
2.43.0

