From a0688fe2b42f4ddf63bb6fde1c1962e20a9b8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 01/41] fix: GHASH absorbed an extra zero block when an input
 was block-aligned

When the additional data or the cipher text was empty or a multiple of 16
bytes long, the empty remainder was still hashed, producing a wrong tag.
---
 crylib/src/aead/gcm.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crylib/src/aead/gcm.rs b/crylib/src/aead/gcm.rs
index 02f1734..5463492 100644
--- a/crylib/src/aead/gcm.rs
+++ b/crylib/src/aead/gcm.rs
@@ -159,13 +159,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         // TODO: use `array_chunks` once stabilized
         let blocks = cipher_text.chunks_exact(aes::BLOCK_SIZE);
@@ -175,13 +173,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         tag ^= ((add_data.len() as u128 * 8) << 64) | cipher_text.len() as u128 * 8;
         tag = gf_2to128_mul(tag, self.h);
-- 
2.43.0


From 3d588c5cd788644274b5e8798f2a9f9b3d25ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 02/41] fix: HMAC truncated keys longer than a block instead of
 hashing them

---
 crylib/src/hmac.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crylib/src/hmac.rs b/crylib/src/hmac.rs
index 1042448..093f22f 100644
--- a/crylib/src/hmac.rs
+++ b/crylib/src/hmac.rs
@@ -16,6 +16,15 @@ where
     H: BlockHasher<H_LEN, B_LEN>,
 {
     pub fn new(key: &[u8]) -> Self {
+        // keys that don't fit in a block are hashed first
+        let hashed_key;
+        let key = if key.len() > B_LEN {
+            hashed_key = H::new().finish_with(key);
+            &hashed_key
+        } else {
+            key
+        };
+
         let mut ipad = [0x36; B_LEN];
         let mut opad = [0x5c; B_LEN];
         for ((ipad_byte, opad_byte), key_byte) in ipad.iter_mut().zip(opad.iter_mut()).zip(key) {
-- 
2.43.0


From 71b7ddc775815e8689f407c34ce8b7bf9fc58e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 03/41] fix: adding a point to itself returned the invalid
 point (0, 0, 0)

This made verify_signature() reject valid signatures with u1*G == u2*Q.
---
 crylib/src/ec/point/projective.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 1ab66e3..6257040 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -70,6 +70,10 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
         if rhs.is_infinity() {
             return *self;
         }
+        // the addition formula isn't defined for equal points
+        if self == rhs {
+            return self.double();
+        }
         Self::add_fast(self, rhs)
     }
 
@@ -131,6 +135,11 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
         if rhs.is_infinity() {
             return;
         }
+        // the addition formula isn't defined for equal points
+        if self == rhs {
+            self.double_assign();
+            return;
+        }
         self.add_assign_fast(rhs);
     }
 
-- 
2.43.0


From c65d76d78748475c0877f385ac49ca56a88f474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 04/41] fix: doubling the point at infinity returned (0, 0, 0)

(0, 0, 0) is not a point and compares equal to every point.
---
 crylib/src/ec/point/projective.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 6257040..d4124b4 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -144,6 +144,9 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
     }
 
     pub fn double(&self) -> Self {
+        if self.is_infinity() {
+            return Self::POINT_AT_INF;
+        }
         let w = {
             let mut three_x_sqr = self.x.sqr();
             three_x_sqr.mul_digit_assign(3);
-- 
2.43.0


From 05363dc87fce3a5eeeae08b5c757e8f8bd6301ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 05/41] fix: FieldElement<3>::mul_digit put the carry in the
 wrong digit

---
 crylib/src/finite_field/field_element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/finite_field/field_element.rs b/crylib/src/finite_field/field_element.rs
index cac90f4..a7e0024 100644
--- a/crylib/src/finite_field/field_element.rs
+++ b/crylib/src/finite_field/field_element.rs
@@ -208,7 +208,7 @@ macro_rules! impl_field_element {
                 for i in 0..$n {
                     (buf.0[i], carry) = crate::big_int::carry_mul(self.0 .0[i], digit, carry);
                 }
-                buf.0[buf.len() - 1] = carry;
+                buf.0[$n] = carry;
                 unsafe { Self::new_unchecked(buf.div(&F::MODULUS.resize()).1.resize()) }
             }
 
-- 
2.43.0


From 4cb5ba2d0dd00f4945a2a3fe7097b467cbf6f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 06/41] fix: retrying in ecdsa::sign() accumulated into the
 message hash

---
 crylib/src/ec/ecdsa.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 4e15925..29796e7 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -51,7 +51,7 @@ pub fn sign<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     random_num_gen: impl Fn() -> FieldElement<4, C::Order>,
 ) -> Signature<C::Order> {
-    let mut hash: FieldElement<4, C::Order> =
+    let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
 
     loop {
@@ -64,8 +64,7 @@ pub fn sign<C: EllipticCurve>(
 
         let r = new_point.x_ref().convert();
 
-        hash.add_assign(&r.mul(priv_key));
-        inverse.mul_assign(&hash);
+        inverse.mul_assign(&hash.add(&r.mul(priv_key)));
 
         if r != FieldElement::ZERO && inverse != FieldElement::ZERO {
             return Signature::new(r, inverse);
-- 
2.43.0


From e759f61367ac758dc78ca7e83628d9423f47678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 07/41] fix: ecdsa::sign() inverted a zero nonce instead of
 retrying

---
 crylib/src/ec/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 29796e7..0f35282 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -56,6 +56,9 @@ pub fn sign<C: EllipticCurve>(
 
     loop {
         let secret_num = random_num_gen();
+        if secret_num == FieldElement::ZERO {
+            continue;
+        }
         let mut inverse = secret_num.inverse();
 
         let Some(new_point) = C::BASE_POINT.mul_scalar(&secret_num).as_affine() else {
-- 
2.43.0


From 21c5d4bc39ee2487b7315912796c4eb1db5ca5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 08/41] fix: verify_signature() didn't reject r = 0 and s = 0

s = 0 has no inverse and panicked in debug builds.
---
 crylib/src/ec/ecdsa.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 0f35282..7caa255 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -82,6 +82,10 @@ pub fn verify_signature<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     sig: &Signature<C::Order>,
 ) -> Result<ValidSig, InvalidSig> {
+    if sig.r == FieldElement::ZERO || sig.s == FieldElement::ZERO {
+        return Err(InvalidSig);
+    }
+
     let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
     let inverse = sig.s.inverse();
-- 
2.43.0


From 89a368d99d703732d59e0417b41e19fa113a71d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 09/41] fix: chacha20::encrypt() encrypted bytes of buf beyond
 the message

---
 crylib/src/aead/chacha/chacha20.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/aead/chacha/chacha20.rs b/crylib/src/aead/chacha/chacha20.rs
index 591a09f..fdf3e58 100644
--- a/crylib/src/aead/chacha/chacha20.rs
+++ b/crylib/src/aead/chacha/chacha20.rs
@@ -124,7 +124,7 @@ pub fn encrypt_inline(msg: &mut [u8], key: &[u8; 32], nonce: &[u8; 12], start_c:
 /// more than once with the same key
 pub fn encrypt(msg: &[u8], key: &[u8; 32], nonce: &[u8; 12], counter: u32, buf: &mut [u8]) {
     buf[..msg.len()].copy_from_slice(msg);
-    encrypt_inline(buf, key, nonce, counter);
+    encrypt_inline(&mut buf[..msg.len()], key, nonce, counter);
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1a56468cd61663fcdb63c041fde862b6696697c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 10/41] fix: AsRef<UBigInt<N>> for [u64; N] panicked

---
 crylib/src/big_int/unsigned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 15af54a..2b29e78 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -944,7 +944,7 @@ impl<const N: usize> AsMut<[u64; N]> for UBigInt<N> {
 
 impl<const N: usize> AsRef<UBigInt<N>> for [u64; N] {
     fn as_ref(&self) -> &UBigInt<N> {
-        todo!()
+        UBigInt::from_ref(self)
     }
 }
 
-- 
2.43.0


From b71c0074228239be701420710cd6e498a2bdaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 11/41] fix: BigInt::abs() didn't return the absolute value

---
 crylib/src/big_int/signed.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 417568f..6057c3d 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -200,9 +200,7 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs_assign(&mut self) {
-        let temp = *self;
-        self.neg_assign();
-        self.xor_assign(&temp);
+        *self = self.abs();
     }
 
     /// Returns the absolute value of `self`.
@@ -212,7 +210,12 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs(&self) -> Self {
-        self.xor(&self.neg())
+        let mut buf = *self;
+        if buf.is_negative {
+            buf.neg_assign();
+        }
+        buf.is_negative = false;
+        buf
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
-- 
2.43.0


From 2b2390941a9fe7133761dab87e767afa65b741f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 12/41] fix: BigInt ordering was reversed in cmp() and wrong on
 overflow in lt()/gt()

---
 crylib/src/big_int/signed.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 6057c3d..8e38f3d 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -278,7 +278,7 @@ impl_big_int!(8);
 
 impl<const N: usize> PartialOrd for BigInt<N> {
     fn lt(&self, other: &Self) -> bool {
-        self.sub(other).is_negative
+        self.cmp(other).is_lt()
     }
 
     fn le(&self, other: &Self) -> bool {
@@ -286,7 +286,7 @@ impl<const N: usize> PartialOrd for BigInt<N> {
     }
 
     fn gt(&self, other: &Self) -> bool {
-        other.sub(self).is_negative
+        self.cmp(other).is_gt()
     }
 
     fn ge(&self, other: &Self) -> bool {
@@ -300,11 +300,10 @@ impl<const N: usize> PartialOrd for BigInt<N> {
 
 impl<const N: usize> Ord for BigInt<N> {
     fn cmp(&self, other: &Self) -> core::cmp::Ordering {
-        let cmped = self.sub(other);
-        match cmped.is_negative {
-            true => core::cmp::Ordering::Greater,
-            false if self.digits == other.digits => core::cmp::Ordering::Equal,
-            false => core::cmp::Ordering::Less,
+        match (self.is_negative, other.is_negative) {
+            (true, false) => core::cmp::Ordering::Less,
+            (false, true) => core::cmp::Ordering::Greater,
+            _ => self.digits.cmp(&other.digits),
         }
     }
 }
-- 
2.43.0


From c82cc0b8c1170441f1f75ae25952b439e0bafe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 13/41] fix: BigInt::widening_mul() gave a wrong upper half for
 negative operands

---
 crylib/src/big_int/signed.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 8e38f3d..06fb0e5 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -260,7 +260,13 @@ macro_rules! impl_big_int {
             ///
             /// The product is twice the width of the input, so overflow cannot occur.
             pub fn widening_mul(&self, rhs: &Self) -> BigInt<{ $n * 2 }> {
-                let product = self.digits.widening_mul(&rhs.digits);
+                let mut product = self.digits.widening_mul(&rhs.digits);
+                // a negative operand `x` is stored as `x + 2^(64 * $n)`
+                let mut high = UBigInt::<$n>::ZERO;
+                high.0.copy_from_slice(&product.0[$n..]);
+                high.sub_assign(&rhs.digits.and_bool(self.is_negative));
+                high.sub_assign(&self.digits.and_bool(rhs.is_negative));
+                product.0[$n..].copy_from_slice(&high.0);
                 BigInt::<{ $n * 2 }> {
                     digits: product,
                     is_negative: (self.is_negative() ^ rhs.is_negative())
-- 
2.43.0


From 758866e090981d90c232a193e18d2e27af6ba6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 14/41] fix: BigInt::div() divided the two's complement digits
 of negative numbers

---
 crylib/src/big_int/signed.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 06fb0e5..13e3674 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -237,17 +237,15 @@ macro_rules! impl_big_int {
             /// # Constant-timedness
             /// TODO: document constant-timedness
             pub fn div(&self, rhs: &Self) -> (Self, Self) {
-                let (quotient, remainder) = self.digits.div(&rhs.digits);
-                let quotient = Self {
-                    digits: quotient,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
-                };
-                let remainder = Self {
-                    digits: remainder,
-                    is_negative: self.is_negative,
-                };
+                let (quotient, remainder) = self.abs().digits.div(&rhs.abs().digits);
+                let mut quotient: Self = quotient.into();
+                if self.is_negative() ^ rhs.is_negative() {
+                    quotient.neg_assign();
+                }
+                let mut remainder: Self = remainder.into();
+                if self.is_negative() {
+                    remainder.neg_assign();
+                }
                 (quotient, remainder)
             }
 
-- 
2.43.0


From cb322b4789f6c5c1b3622558ef0aa7f0f2dd2544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 15/41] fix: messages longer than a record lost data and
 resumed writes were corrupted

The header was counted as part of the message, total_bytes was never reset by
write() and a resumed protected write encrypted the same record again.
---
 src/record/write.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/record/write.rs b/src/record/write.rs
index 9fd3e89..dc2327b 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -14,8 +14,10 @@ pub(super) struct WriteBuf {
     /// This does not include the header.
     len: usize,
     record_bytes: usize,
-    /// The total number of bytes written to IO.
+    /// The number of bytes of the message that have been put in a record.
     total_bytes: usize,
+    /// Whether `buf` contains a record that hasn't been completely written to IO.
+    pending: bool,
 }
 
 impl WriteBuf {
@@ -25,6 +27,7 @@ impl WriteBuf {
             len: 0,
             record_bytes: 0,
             total_bytes: 0,
+            pending: false,
         };
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
@@ -41,12 +44,15 @@ impl RecordLayer {
         buf: &[u8],
         msg_type: ContentType,
     ) -> Result<(), TurtlsError> {
-        self.set_msg_type(msg_type);
+        // A previous call may have been interrupted.
+        self.write_record()?;
         while self.wbuf.total_bytes < buf.len() {
+            self.set_msg_type(msg_type);
             let record_size = std::cmp::min(buf.len() - self.wbuf.total_bytes, Self::MAX_LEN);
             self.wbuf.buf[Self::HEADER_SIZE..][..record_size]
                 .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
             self.wbuf.len = record_size;
+            self.wbuf.total_bytes += record_size;
             self.finish_raw()?;
         }
         self.wbuf.total_bytes = 0;
@@ -59,12 +65,16 @@ impl RecordLayer {
         msg_type: ContentType,
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
-        self.set_msg_type(ContentType::ApplicationData);
+        // A previous call may have been interrupted.
+        self.write_record()?;
         for record in buf[self.wbuf.total_bytes..].chunks(Self::MAX_LEN) {
+            self.set_msg_type(ContentType::ApplicationData);
             self.wbuf.buf[Self::HEADER_SIZE..][..record.len()].copy_from_slice(record);
             self.wbuf.len = record.len();
+            self.wbuf.total_bytes += record.len();
             self.finish(msg_type, aead)?;
         }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -75,6 +85,7 @@ impl RecordLayer {
 
     fn finish_raw(&mut self) -> Result<(), TurtlsError> {
         self.encode_len();
+        self.wbuf.pending = true;
         self.write_record()
     }
 
@@ -84,10 +95,15 @@ impl RecordLayer {
         self.wbuf.len += TAG_SIZE;
         self.encode_len();
         self.protect(aead);
+        self.wbuf.pending = true;
         self.write_record()
     }
 
+    /// Writes the rest of the pending record, if there is one.
     fn write_record(&mut self) -> Result<(), TurtlsError> {
+        if !self.wbuf.pending {
+            return Ok(());
+        }
         while self.wbuf.record_bytes < self.wbuf.len + Self::HEADER_SIZE {
             let bytes_written = self
                 .io
@@ -95,8 +111,8 @@ impl RecordLayer {
                 .ok_or(TurtlsError::WantWrite)?;
             self.wbuf.record_bytes += bytes_written as usize;
         }
-        self.wbuf.total_bytes += self.wbuf.record_bytes;
         self.wbuf.record_bytes = 0;
+        self.wbuf.pending = false;
         Ok(())
     }
 
-- 
2.43.0


From ac369e0720878495b3a80585549facbda6697af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 16/41] fix: closing after an interrupted write didn't send the
 alert

---
 src/record/write.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/record/write.rs b/src/record/write.rs
index dc2327b..88155c1 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -124,17 +124,28 @@ impl RecordLayer {
         *tag = aead.encrypt_inline(msg, header);
     }
 
+    /// Finishes the pending record but drops the rest of an interrupted message.
+    fn abort_write(&mut self) -> Result<(), TurtlsError> {
+        self.write_record()?;
+        self.wbuf.total_bytes = 0;
+        Ok(())
+    }
+
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
-        let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        if self.abort_write().is_ok() {
+            let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        }
         self.io.close();
     }
 
     pub(crate) fn close(&mut self, alert: TurtlsAlert, aead: &mut TlsAead) {
-        let _ = self.write(
-            &AlertMsg::new(alert).to_be_bytes(),
-            ContentType::Alert,
-            aead,
-        );
+        if self.abort_write().is_ok() {
+            let _ = self.write(
+                &AlertMsg::new(alert).to_be_bytes(),
+                ContentType::Alert,
+                aead,
+            );
+        }
         self.io.close();
     }
 }
-- 
2.43.0


From bf7dc965dc3d56b6318f3f4d97dc22fe0b3e519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 17/41] fix: protected records with more than 2^14 bytes of
 ciphertext were rejected

---
 src/record/read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 190c016..4b3cd62 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -69,7 +69,12 @@ impl RecordLayer {
                             .try_into()
                             .unwrap(),
                     ) as usize;
-                    if self.rbuf.len > Self::MAX_LEN {
+                    let max_len = if self.rbuf.buf[0] == ContentType::ApplicationData.to_byte() {
+                        Self::MAX_LEN + Self::SUFFIX_SIZE
+                    } else {
+                        Self::MAX_LEN
+                    };
+                    if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
                     self.rbuf.status = ReadStatus::NeedsData(0);
@@ -140,6 +145,10 @@ impl RecordLayer {
         self.rbuf.len -= padding;
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
+
+        if self.rbuf.len > Self::MAX_LEN {
+            return Err(TurtlsAlert::RecordOverflow);
+        }
         Ok(())
     }
 
-- 
2.43.0


From e3d06eb602768d73fea079cdaf8feb51156a4eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 18/41] fix: unprotected records were accepted after encryption
 started

Also, decrypted application data was decrypted again if it wasn't read at once.
---
 src/record/read.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 4b3cd62..2f09fbd 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -31,6 +31,8 @@ pub(super) struct ReadBuf {
     /// This does not include the header.
     len: usize,
     status: ReadStatus,
+    /// Whether the current record has already been decrypted.
+    deprotected: bool,
 }
 
 impl ReadBuf {
@@ -39,6 +41,7 @@ impl ReadBuf {
             buf: [0; RecordLayer::BUF_SIZE],
             len: 0,
             status: ReadStatus::new(),
+            deprotected: false,
         }
     }
 }
@@ -90,6 +93,7 @@ impl RecordLayer {
                         *bytes_read += new_bytes;
                     }
                     self.rbuf.status = ReadStatus::Moving(0);
+                    self.rbuf.deprotected = false;
                 },
                 ReadStatus::Moving(bytes_moved) => {
                     if bytes_moved == self.rbuf.len {
@@ -114,11 +118,20 @@ impl RecordLayer {
 
     /// Decrypts the current record and remove any padding.
     fn deprotect(&mut self, aead: &mut TlsAead) -> Result<(), TurtlsAlert> {
-        // Only deprotect the record if it's already protected.
-        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+        // Only deprotect the record once.
+        if self.rbuf.deprotected {
+            return Ok(());
+        }
+
+        // `ChangeCipherSpec` is the only record type that isn't protected.
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
             return Ok(());
         }
 
+        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
+
         if self.rbuf.len < Self::MIN_PROT_LEN {
             return Err(TurtlsAlert::DecodeError);
         }
@@ -149,6 +162,7 @@ impl RecordLayer {
         if self.rbuf.len > Self::MAX_LEN {
             return Err(TurtlsAlert::RecordOverflow);
         }
+        self.rbuf.deprotected = true;
         Ok(())
     }
 
-- 
2.43.0


From a56712715b4a5d0eac883f5890a0d20ad3ed0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 19/41] fix: ShakeBuf::write() hashed the unused part of the
 buffer

---
 src/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index f6f3f8b..011d3fc 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -303,7 +303,7 @@ impl ShakeBuf {
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
         self.encode_len();
-        transcript.update_with(&self.buf);
+        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
         rl.write(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
-- 
2.43.0


From 0b2a6beb2e31f51568865a6a0a4d916494a3373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 20/41] fix: handshake messages larger than the initial buffer
 panicked

---
 src/handshake.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 011d3fc..447ceed 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -185,21 +185,26 @@ impl ShakeBuf {
     }
 
     pub(crate) fn push(&mut self, value: u8) {
-        if self.len + Self::HEADER_SIZE + 1 > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.grow(self.len + Self::HEADER_SIZE + 1);
         self.buf[self.len + Self::HEADER_SIZE] = value;
         self.len += 1;
     }
 
     pub(crate) fn extend_from_slice(&mut self, slice: &[u8]) {
-        if self.len + Self::HEADER_SIZE + slice.len() > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.grow(self.len + Self::HEADER_SIZE + slice.len());
         self.buf[Self::HEADER_SIZE + self.len..][..slice.len()].copy_from_slice(slice);
         self.len += slice.len();
     }
 
+    /// Makes sure at least `size` bytes fit in the buffer.
+    fn grow(&mut self, size: usize) {
+        if size > self.buf.len() {
+            let mut buf = vec![0; size].into_boxed_slice();
+            buf[..self.buf.len()].copy_from_slice(&self.buf);
+            self.buf = buf;
+        }
+    }
+
     /// Returns the data sent in the handshake message.
     ///
     /// This does NOT include the header.
@@ -238,9 +243,10 @@ impl ShakeBuf {
                     }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
-                    if self.len > self.buf.len() {
-                        todo!("grow handshake buffer");
+                    if Self::HEADER_SIZE + self.len > self.max_size {
+                        return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
                     }
+                    self.grow(Self::HEADER_SIZE + self.len);
                     self.status = ReadStatus::NeedsData(0);
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
-- 
2.43.0


From 1e8dc1fef3d5245d18856c9e91e86221c259e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 21/41] fix: the record type was only checked for the first
 fragment of a handshake message

---
 src/handshake.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 447ceed..ccdf8a9 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -212,6 +212,24 @@ impl ShakeBuf {
         &self.buf[Self::HEADER_SIZE..][..self.len]
     }
 
+    /// Gets the next handshake record, ignoring `ChangeCipherSpec`.
+    fn get_shake_record(
+        rl: &mut RecordLayer,
+        mut get_fn: impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
+    ) -> Result<(), FullError> {
+        get_fn(rl)?;
+        while rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            rl.discard();
+            get_fn(rl)?;
+        }
+        rl.check_alert()
+            .map_err(|alert| FullError::recving_alert(alert))?;
+        if rl.msg_type() != ContentType::Handshake.to_byte() {
+            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+        }
+        Ok(())
+    }
+
     fn read_inner(
         &mut self,
         rl: &mut RecordLayer,
@@ -221,20 +239,8 @@ impl ShakeBuf {
         loop {
             match self.status {
                 ReadStatus::NeedsHeader(ref mut amt) => {
-                    if *amt == 0 {
-                        get_fn(rl)?;
-                        if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
-                            rl.discard();
-                            get_fn(rl)?;
-                        }
-                        rl.check_alert()
-                            .map_err(|alert| FullError::recving_alert(alert))?;
-                        if rl.msg_type() != ContentType::Handshake.to_byte() {
-                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
-                        }
-                    }
                     while *amt < Self::HEADER_SIZE {
-                        get_fn(rl)?;
+                        Self::get_shake_record(rl, &mut get_fn)?;
                         let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
                         if new_bytes == 0 {
                             return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
@@ -251,7 +257,7 @@ impl ShakeBuf {
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
                     while *amt < self.len {
-                        get_fn(rl)?;
+                        Self::get_shake_record(rl, &mut get_fn)?;
                         let new_bytes = rl.read_remaining(
                             &mut self.buf[Self::HEADER_SIZE + *amt..Self::HEADER_SIZE + self.len],
                         );
-- 
2.43.0


From 3d3ed332a1103df3c26147f20aba572c91e4ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 22/41] fix: protected ChangeCipherSpec records were ignored
 instead of rejected

---
 src/record/read.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/record/read.rs b/src/record/read.rs
index 2f09fbd..1ca9bbd 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -159,6 +159,10 @@ impl RecordLayer {
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
 
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
+
         if self.rbuf.len > Self::MAX_LEN {
             return Err(TurtlsAlert::RecordOverflow);
         }
-- 
2.43.0


From b2991d5e7479532cac079de11acc8f733c6b5e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 23/41] fix: resuming the handshake after WantWrite created and
 hashed a second ClientHello

---
 src/handshake.rs | 13 +++++++++----
 src/state.rs     |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index ccdf8a9..0240d6a 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -32,6 +32,9 @@ pub(crate) fn handshake_client(
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
                         .map_err(|err| global_state.error.turtls_error = err)?;
 
+                    *next = UnprotShakeMsg::WriteClientHello;
+                },
+                UnprotShakeMsg::WriteClientHello => {
                     shake_state
                         .buf
                         .write_raw(&mut global_state.rl, &mut global_state.transcript)
@@ -301,11 +304,12 @@ impl ShakeBuf {
     ) -> Result<(), TurtlsError> {
         self.encode_len();
 
-        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
         rl.write_raw(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
-        )
+        )?;
+        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+        Ok(())
     }
 
     pub(crate) fn write(
@@ -315,12 +319,13 @@ impl ShakeBuf {
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
         self.encode_len();
-        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
         rl.write(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
             aead,
-        )
+        )?;
+        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+        Ok(())
     }
 
     /// Returns the type of handshake message the message is.
diff --git a/src/state.rs b/src/state.rs
index 2c8ed6a..32a0379 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -72,6 +72,8 @@ pub(crate) enum MaybeProt {
 #[derive(PartialEq, Eq)]
 pub(crate) enum UnprotShakeMsg {
     ClientHello,
+    /// The ClientHello message has been created but not completely written.
+    WriteClientHello,
     ServerHello,
 }
 
-- 
2.43.0


From 081254b7339e789ccf7092adcf552612f84d2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 24/41] fix: handshake messages were parsed without checking
 their type

---
 src/handshake.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 0240d6a..e4a5de1 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -52,6 +52,12 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    if shake_state.buf.msg_type() != ShakeType::ServerHello.to_byte() {
+                        global_state.rl.close_raw(TurtlsAlert::UnexpectedMessage);
+                        global_state.error =
+                            FullError::sending_alert(TurtlsAlert::UnexpectedMessage);
+                        return Err(());
+                    }
                     let aead =
                         server_hello_client(shake_state.buf.data(), unprot_state, global_state)
                             .map_err(|alert| {
@@ -78,6 +84,12 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    if shake_state.buf.msg_type() != ShakeType::EncryptedExtensions.to_byte() {
+                        global_state.rl.close(TurtlsAlert::UnexpectedMessage, aead);
+                        global_state.error =
+                            FullError::sending_alert(TurtlsAlert::UnexpectedMessage);
+                        return Err(());
+                    }
                     parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
                         |alert| {
                             global_state.rl.close(alert, aead);
@@ -96,6 +108,12 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    if shake_state.buf.msg_type() != ShakeType::Certificate.to_byte() {
+                        global_state.rl.close(TurtlsAlert::UnexpectedMessage, aead);
+                        global_state.error =
+                            FullError::sending_alert(TurtlsAlert::UnexpectedMessage);
+                        return Err(());
+                    }
                     let cert_msg = shake_state.buf.data();
 
                     let context_len = cert_msg[0] as usize;
-- 
2.43.0


From abea58c1272a6c63cbea8f7a3ff47889d5a6febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 25/41] fix: malformed Certificate messages panicked

---
 src/certificates.rs | 33 +++++++++++++++++++++++++++++++++
 src/handshake.rs    | 14 +++++---------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/certificates.rs b/src/certificates.rs
index 5f3b120..9bf9244 100644
--- a/src/certificates.rs
+++ b/src/certificates.rs
@@ -1,8 +1,41 @@
 use std::iter::Iterator;
 
+use crate::TurtlsAlert;
+
 pub(crate) mod der;
 pub(crate) mod x509;
 
+/// Parses the Certificate message.
+pub(crate) fn parse_certificate(cert_msg: &[u8]) -> Result<(), TurtlsAlert> {
+    let context_len = *cert_msg.first().ok_or(TurtlsAlert::DecodeError)? as usize;
+    let certs = cert_msg
+        .get(1 + context_len..)
+        .ok_or(TurtlsAlert::DecodeError)?;
+
+    if certs.len() < 3 {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
+    if data_len != certs.len() - 3 {
+        return Err(TurtlsAlert::DecodeError);
+    }
+
+    let mut cert_iter = CertIter::new(&certs[3..]);
+    for cert in cert_iter.by_ref() {
+        x509::validate_cert(cert.data).map_err(|err| match err {
+            x509::CertError::ParseError | x509::CertError::CertInvalid => TurtlsAlert::BadCert,
+            x509::CertError::CertExpired => TurtlsAlert::CertExpired,
+            x509::CertError::UnsupportedVersion | x509::CertError::UnsupportedSigAlg => {
+                TurtlsAlert::UnsupportedCert
+            },
+        })?;
+    }
+    if !cert_iter.cert_list.is_empty() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    Ok(())
+}
+
 enum CertType {
     X509 = 0,
     RawPublicKey = 2,
diff --git a/src/handshake.rs b/src/handshake.rs
index e4a5de1..1cf938f 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -3,6 +3,7 @@ use std::mem::MaybeUninit;
 use crate::aead::TlsAead;
 use crate::client_hello::client_hello_client;
 use crate::config::TurtlsConfig;
+use crate::certificates::parse_certificate;
 use crate::error::{FullError, TurtlsError};
 use crate::extensions::parse_encrypted_extensions;
 use crate::record::{ContentType, RecordLayer};
@@ -114,15 +115,10 @@ pub(crate) fn handshake_client(
                             FullError::sending_alert(TurtlsAlert::UnexpectedMessage);
                         return Err(());
                     }
-                    let cert_msg = shake_state.buf.data();
-
-                    let context_len = cert_msg[0] as usize;
-                    let certs = &cert_msg[1 + context_len as usize..];
-
-                    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
-                    for cert in crate::certificates::CertIter::new(&certs[3..][..data_len]) {
-                        crate::certificates::x509::validate_cert(cert.data).unwrap();
-                    }
+                    parse_certificate(shake_state.buf.data()).map_err(|alert| {
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                    })?;
                     todo!("validate certificates");
                 },
                 _ => todo!("Finish handshake"),
-- 
2.43.0


From 3b7f741f005534f7fba8673cb399575e74af0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 26/41] fix: extensions with a length past the end of the
 message panicked

---
 src/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index b019eea..c31dda5 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -175,7 +175,7 @@ impl<'a> Iterator for ExtIter<'a> {
             self.exts[TurtlsExts::HEADER_SIZE - 2],
             self.exts[TurtlsExts::HEADER_SIZE - 1],
         ]) as usize;
-        if len > self.exts.len() {
+        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
             return None;
         }
         let ext;
-- 
2.43.0


From 06913fa5138c9b24f7f446f5a145d37bea1fc8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 27/41] fix: truncated extension lists panicked or were
 silently accepted

---
 src/extensions.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index c31dda5..047b8c3 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -195,6 +195,9 @@ pub(crate) fn parse_ser_hel_exts(
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
 
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -202,7 +205,8 @@ pub(crate) fn parse_ser_hel_exts(
         return Err(TurtlsAlert::DecodeError);
     }
 
-    for ext in ExtIter::new(exts) {
+    let mut iter = ExtIter::new(exts);
+    for ext in iter.by_ref() {
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -213,6 +217,9 @@ pub(crate) fn parse_ser_hel_exts(
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
+    if !iter.exts.is_empty() {
+        return Err(TurtlsAlert::DecodeError);
+    }
     maybe_aead
 }
 
@@ -220,6 +227,9 @@ pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -227,7 +237,8 @@ pub(crate) fn parse_encrypted_extensions(
         return Err(TurtlsAlert::DecodeError);
     }
 
-    for ext in ExtIter::new(exts) {
+    let mut iter = ExtIter::new(exts);
+    for ext in iter.by_ref() {
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
@@ -239,5 +250,8 @@ pub(crate) fn parse_encrypted_extensions(
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
+    if !iter.exts.is_empty() {
+        return Err(TurtlsAlert::DecodeError);
+    }
     Ok(())
 }
-- 
2.43.0


From 97b73d5d3f2a3c36ad88dd9738df5a89fc2b2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 28/41] fix: ServerHello was accepted without negotiating TLS
 1.3 and with repeated extensions

---
 src/extensions.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 047b8c3..4882d54 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -194,6 +194,7 @@ pub(crate) fn parse_ser_hel_exts(
     global_state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
+    let mut has_version = false;
 
     if exts.len() < TurtlsExts::LEN_SIZE {
         return Err(TurtlsAlert::DecodeError);
@@ -209,10 +210,17 @@ pub(crate) fn parse_ser_hel_exts(
     for ext in iter.by_ref() {
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
+                if has_version {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
                 versions::parse_ser(ext.data)?;
+                has_version = true;
             },
             x if x == ExtensionType::KeyShare.to_be_bytes() => {
-                maybe_aead = key_share::parse_ser(ext.data, shake_crypto, global_state);
+                if maybe_aead.is_ok() {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+                maybe_aead = Ok(key_share::parse_ser(ext.data, shake_crypto, global_state)?);
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
@@ -220,6 +228,9 @@ pub(crate) fn parse_ser_hel_exts(
     if !iter.exts.is_empty() {
         return Err(TurtlsAlert::DecodeError);
     }
+    if !has_version {
+        return Err(TurtlsAlert::MissingExtension);
+    }
     maybe_aead
 }
 
-- 
2.43.0


From 0efdcdd54190cd1062ea560f3313c4e7f1d6d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 29/41] fix: long session ids in ServerHello panicked and
 weren't compared with the sent one

---
 src/server_hello.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index a285584..2fcb1ca 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -1,6 +1,6 @@
 use crate::aead::TlsAead;
 use crate::cipher_suites::{CipherSuite, TurtlsCipherList};
-use crate::client_hello::RANDOM_BYTES_LEN;
+use crate::client_hello::{LEGACY_SESSION_ID, RANDOM_BYTES_LEN};
 use crate::extensions::versions::ProtocolVersion;
 use crate::extensions::{self, TurtlsExts};
 use crate::state::{GlobalState, UnprotShakeState};
@@ -26,8 +26,9 @@ pub(crate) fn server_hello_client(
 
     let leg_session_id_len = ser_hel[pos];
 
-    if leg_session_id_len > 32 {
-        return Err(TurtlsAlert::DecodeError);
+    // The session ID must match the one that was sent.
+    if leg_session_id_len != LEGACY_SESSION_ID {
+        return Err(TurtlsAlert::IllegalParam);
     }
     pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
 
-- 
2.43.0


From 04c86488d2a8ec19d23574a20cf19cb6cf0c3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 30/41] fix: ServerHello was accepted with a compression method

---
 src/server_hello.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index 2fcb1ca..d5957f5 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -40,6 +40,10 @@ pub(crate) fn server_hello_client(
     .suites;
     pos += size_of::<CipherSuite>();
 
+    // Compression isn't allowed.
+    if ser_hel[pos] != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += 1;
 
     extensions::parse_ser_hel_exts(&ser_hel[pos..], unprot_state, global_state)
-- 
2.43.0


From 85b2d6087f86e75c87cc6c7c000949053ee5042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 31/41] fix: malformed key shares panicked or were accepted

---
 src/extensions/key_share.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 8275f9a..361d8f8 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -144,6 +144,9 @@ pub(crate) fn secp256r1_shared_secret(
     key_share: &[u8],
     group_keys: &GroupKeys,
 ) -> Option<[u8; 32]> {
+    if key_share.len() != 65 || key_share[0] != KEY_SHARE_LEGACY_FORM {
+        return None;
+    }
     let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
     let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;
 
@@ -161,8 +164,17 @@ pub(super) fn parse_ser(
     shake_crypto: &mut UnprotShakeState,
     state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
+    if key_share.len() < size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let len = u16::from_be_bytes([key_share[2], key_share[3]]) as usize;
+    if len != key_share.len() - size_of::<NamedGroup>() - TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     match &key_share[..size_of::<NamedGroup>()] {
-        x if x == NamedGroup::Secp256r1.to_be_bytes() && shake_crypto.sup_groups != 0 => {
+        x if x == NamedGroup::Secp256r1.to_be_bytes()
+            && shake_crypto.sup_groups & TURTLS_SECP256R1 > 0 =>
+        {
             let dh_secret = secp256r1_shared_secret(
                 &key_share[size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE..],
                 &shake_crypto.priv_keys,
-- 
2.43.0


From 4c76fb8312ccc7f248f995cb6221f86db81951e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 32/41] fix: private keys were checked for zero before being
 reduced

---
 src/extensions/key_share.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 361d8f8..46f8504 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -64,15 +64,13 @@ impl GroupKeys {
         let mut buf = [0; 32];
         getrandom(&mut buf).map_err(|_| TurtlsError::Rng)?;
 
-        if buf == [0; 32] {
-            return Err(TurtlsError::PrivKeyIsZero);
-        }
-
         // SAFETY: `[u64; 4]` and `[u8; 32]` have the same memory layout.
         let as_u64s: [u64; 4] = unsafe { std::mem::transmute(buf) };
-        return Ok(Self {
-            secp256r1: FieldElement::<4, _>::new(UBigInt(as_u64s)),
-        });
+        let secp256r1 = FieldElement::<4, _>::new(UBigInt(as_u64s));
+        if secp256r1 == FieldElement::ZERO {
+            return Err(TurtlsError::PrivKeyIsZero);
+        }
+        return Ok(Self { secp256r1 });
     }
 }
 
-- 
2.43.0


From c5e5e0bc123de9102fac2663631923e49a9d6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 33/41] fix: lengths in ClientHello counted extensions and
 flags that aren't written

---
 src/cipher_suites.rs        |  4 +++-
 src/extensions/key_share.rs | 10 +++++++---
 src/extensions/sig_algs.rs  |  8 ++++++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cipher_suites.rs b/src/cipher_suites.rs
index 2951cf1..22a8bf6 100644
--- a/src/cipher_suites.rs
+++ b/src/cipher_suites.rs
@@ -23,7 +23,9 @@ impl TurtlsCipherList {
     pub(crate) const LEN_SIZE: usize = 2;
 
     pub(crate) const fn len(&self) -> usize {
-        self.suites.count_ones() as usize * size_of::<CipherSuite>()
+        let suites = self.suites
+            & (Self::TURTLS_CHA_CHA_POLY1305_SHA256 | Self::TURTLS_AES_128_GCM_SHA256);
+        suites.count_ones() as usize * size_of::<CipherSuite>()
     }
 
     pub(crate) fn write_to(&self, buf: &mut ShakeBuf) {
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 46f8504..439a1bc 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -88,7 +88,7 @@ impl TurtlsExts {
     }
 
     pub(super) fn write_key_share_client(&self, shake_buf: &mut ShakeBuf, keys: &GroupKeys) {
-        if self.sup_groups == 0 {
+        if self.key_share_client_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::KeyShare.to_be_bytes());
@@ -118,11 +118,15 @@ impl TurtlsExts {
     }
 
     pub(super) const fn sup_groups_len(&self) -> usize {
-        Self::LEN_SIZE + self.sup_groups.count_ones() as usize * size_of::<NamedGroup>()
+        let groups = self.sup_groups & TURTLS_SECP256R1;
+        if groups == 0 {
+            return 0;
+        }
+        Self::LEN_SIZE + groups.count_ones() as usize * size_of::<NamedGroup>()
     }
 
     pub(super) fn write_sup_groups(&self, shake_buf: &mut ShakeBuf) {
-        if self.sup_groups == 0 {
+        if self.sup_groups_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::SupportedGroups.to_be_bytes());
diff --git a/src/extensions/sig_algs.rs b/src/extensions/sig_algs.rs
index 415d498..0223d09 100644
--- a/src/extensions/sig_algs.rs
+++ b/src/extensions/sig_algs.rs
@@ -57,11 +57,15 @@ pub const TURTLS_ECDSA_SECP256R1: u16 = 0b0000000000000001;
 
 impl TurtlsExts {
     pub(super) const fn sig_algs_len(&self) -> usize {
-        self.sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
+        let sig_algs = self.sig_algs & TURTLS_ECDSA_SECP256R1;
+        if sig_algs == 0 {
+            return 0;
+        }
+        sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
     }
 
     pub(super) fn write_sig_algs(&self, shake_buf: &mut ShakeBuf) {
-        if self.sig_algs == 0 {
+        if self.sig_algs_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::SignatureAlgorithms.to_be_bytes());
-- 
2.43.0


From 895924642bf162d93705061c0342bf3850819e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 34/41] fix: the application protocol wasn't nul-terminated
 when replacing a longer one

---
 src/extensions/app_proto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 498af62..5b699ee 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -53,8 +53,9 @@ pub(crate) fn parse_app_proto_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
-    // `alpn.len` is guaranteed to be less than or equal to `256` because the length is encoded as
+    // `alpn.len` is guaranteed to be less than `256` because the length is encoded as
     // a single byte
+    alpn_state.fill(0);
     alpn_state[..alpn.len()].copy_from_slice(alpn);
     Ok(())
 }
-- 
2.43.0


From 50bc938081b55fb2dbe9129250b79a84e5895657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 35/41] fix: malformed certificate signatures and versions
 panicked

---
 src/certificates/x509.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 7084a2f..eb8870b 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -27,7 +27,7 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
-    if signature.data[0] != 0 {
+    if signature.data.first() != Some(&0) {
         // there should never be unused bits
         return Err(CertError::ParseError);
     }
@@ -75,7 +75,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
         return Err(CertError::ParseError);
         }
-        version = vers.data[0] + 1;
+        version = vers.data[0].checked_add(1).ok_or(CertError::UnsupportedVersion)?;
         next = tbs_iter.next().ok_or(CertError::ParseError)?;
     } else {
         version = 1;
-- 
2.43.0


From 72c134bfb4a49e3b37e930e95aa9ad8dfbe8cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 36/41] fix: certificate signatures weren't parsed as integers
 modulo the order of the curve

---
 src/certificates/x509.rs | 52 +++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index eb8870b..53840ad 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -1,7 +1,7 @@
 use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
 use crylib::ec::ecdsa::Signature;
-use crylib::ec::Secp256r1;
+use crylib::ec::{EllipticCurve, Secp256r1};
 use crylib::big_int::UBigInt;
 use crylib::finite_field::FieldElement;
 
@@ -23,7 +23,33 @@ pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
     Ok(())
 }
 
-fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError> {
+type Order = <Secp256r1 as EllipticCurve>::Order;
+
+/// Parses a part of the signature.
+fn parse_sig_int(obj: DerObj) -> Result<FieldElement<4, Order>, CertError> {
+    if obj.tag != DerTag::Integer as u8 {
+        return Err(CertError::ParseError);
+    }
+    match obj.data.first() {
+        None => return Err(CertError::ParseError),
+        // the integer is negative
+        Some(0x80..) => return Err(CertError::CertInvalid),
+        _ => (),
+    }
+
+    // remove leading zeros
+    let leading_bytes = obj.data.len().saturating_sub(32);
+    if obj.data[..leading_bytes].iter().any(|&x| x != 0) {
+        return Err(CertError::CertInvalid);
+    }
+    let data = &obj.data[leading_bytes..];
+
+    let mut bytes = [0; 32];
+    bytes[32 - data.len()..].copy_from_slice(data);
+    FieldElement::try_new(UBigInt::<4>::from_be_bytes(bytes)).ok_or(CertError::CertInvalid)
+}
+
+fn parse_signature(signature: DerObj) -> Result<Signature<Order>, CertError> {
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
@@ -36,26 +62,8 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
     let mut sig_iter = DerIter::new(sig_obj.data);
-    let r_obj = sig_iter.next().ok_or(CertError::ParseError)?;
-
-    if r_obj.tag != DerTag::Integer as u8 {
-        return Err(CertError::ParseError);
-    }
-
-    // remove leading zeros
-    let leading_bytes = r_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let r = UBigInt::<4>::from_be_bytes(r_obj.data[leading_bytes..].try_into().unwrap());
-    let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;
-
-    let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
-    if s_obj.tag != DerTag::Integer as u8 {
-        return Err(CertError::ParseError);
-    }
-
-    // remove leading zeros
-    let leading_bytes = s_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
-    let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
+    let r = parse_sig_int(sig_iter.next().ok_or(CertError::ParseError)?)?;
+    let s = parse_sig_int(sig_iter.next().ok_or(CertError::ParseError)?)?;
 
     Ok(Signature::new(r, s))
 }
-- 
2.43.0


From 85cec98d225a11c04153103acf38d575281da6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 37/41] fix: reused connection objects kept the transcript and
 buffers of the last connection

---
 src/lib.rs    | 8 ++++++--
 src/record.rs | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3545854..de260a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,12 +19,12 @@ mod state;
 
 use std::ffi::c_int;
 
-use crylib::hash::Sha256;
+use crylib::hash::{Hasher, Sha256};
 use crylib::hkdf;
 
 use handshake::handshake_client;
 use state::ShakeState;
-use state::TlsStatus;
+use state::{TlsStatus, TranscriptHasher};
 
 pub use alert::turtls_stringify_alert;
 pub use alert::TurtlsAlert;
@@ -85,6 +85,10 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                         return -1;
                     },
                 }
+                // Nothing of a previous connection may be used.
+                tls_conn.gloabl_state.rl.reset();
+                tls_conn.gloabl_state.transcript = TranscriptHasher::new();
+                tls_conn.gloabl_state.app_proto.fill(0);
                 tls_conn.gloabl_state.secret =
                     hkdf::extract::<{ Sha256::HASH_SIZE }, { Sha256::BLOCK_SIZE }, Sha256>(
                         &[0; Sha256::HASH_SIZE],
diff --git a/src/record.rs b/src/record.rs
index 41ed28a..fcdf661 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -108,4 +108,10 @@ impl RecordLayer {
             io,
         }
     }
+
+    /// Discards all data of the current connection.
+    pub(crate) fn reset(&mut self) {
+        self.rbuf = ReadBuf::new();
+        self.wbuf = WriteBuf::new();
+    }
 }
-- 
2.43.0


From d462d0dddfdd8f091db1ca801fece36e9decea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 38/41] fix: a failed handshake continued with the next message
 of the peer

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index de260a0..3266014 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -99,6 +99,13 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 if let Err(()) =
                     handshake_client(shake_state, &mut tls_conn.gloabl_state, &tls_conn.config)
                 {
+                    // Only IO errors are resumable.
+                    if !matches!(
+                        tls_conn.gloabl_state.error.turtls_error,
+                        TurtlsError::WantRead | TurtlsError::WantWrite
+                    ) {
+                        tls_conn.state = TlsStatus::None;
+                    }
                     return -1;
                 }
                 todo!()
-- 
2.43.0


From 585d169c9f134296e458f92f1a8587c2e5f6cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 39/41] fix: turtls_close() sent an unprotected alert after
 encryption started

---
 src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3266014..48590f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,8 +23,7 @@ use crylib::hash::{Hasher, Sha256};
 use crylib::hkdf;
 
 use handshake::handshake_client;
-use state::ShakeState;
-use state::{TlsStatus, TranscriptHasher};
+use state::{MaybeProt, ShakeState, TlsStatus, TranscriptHasher};
 
 pub use alert::turtls_stringify_alert;
 pub use alert::TurtlsAlert;
@@ -129,10 +128,16 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     // SAFETY: the caller guarantees that the pointer is valid.
     let tls_conn = unsafe { &mut *tls_conn };
 
-    if let TlsStatus::None = tls_conn.state {
-        return;
+    match tls_conn.state {
+        TlsStatus::None => return,
+        TlsStatus::Shake(ShakeState {
+            state: MaybeProt::Prot { ref mut aead, .. },
+            ..
+        })
+        | TlsStatus::App { ref mut aead } => {
+            tls_conn.gloabl_state.rl.close(TurtlsAlert::CloseNotify, aead);
+        },
+        TlsStatus::Shake(_) => tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify),
     }
-
-    tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify);
     tls_conn.state = TlsStatus::None;
 }
-- 
2.43.0


From 304e6d071f97f6bba71b05624a86c5876a1c391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 40/41] Add verification hooks guarded by cfg(turtls_verif)

---
 src/aead.rs                 | 6 ++++++
 src/certificates/x509.rs    | 6 ++++++
 src/extensions.rs           | 6 ++++++
 src/extensions/key_share.rs | 6 ++++++
 src/lib.rs                  | 6 ++++++
 src/record/read.rs          | 6 ++++++
 src/record/write.rs         | 6 ++++++
 7 files changed, 42 insertions(+)

diff --git a/src/aead.rs b/src/aead.rs
index a0cd728..fc13071 100644
--- a/src/aead.rs
+++ b/src/aead.rs
@@ -160,3 +160,9 @@ impl TlsAead {
         Self::new(&cli_shake_traf_secret, &ser_shake_traf_secret, cipher)
     }
 }
+
+#[cfg(turtls_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("TURTLS_VERIF_HOOKS"), "/aead.rs"));
+}
diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 53840ad..1ebafd4 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -183,3 +183,9 @@ fn validate_time(validity: DerObj) -> Result<(), CertError> {
     }
     Ok(())
 }
+
+#[cfg(turtls_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("TURTLS_VERIF_HOOKS"), "/x509.rs"));
+}
diff --git a/src/extensions.rs b/src/extensions.rs
index 4882d54..72e1cd5 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -266,3 +266,9 @@ pub(crate) fn parse_encrypted_extensions(
     }
     Ok(())
 }
+
+#[cfg(turtls_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("TURTLS_VERIF_HOOKS"), "/extensions.rs"));
+}
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 439a1bc..f7bd807 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -189,3 +189,9 @@ pub(super) fn parse_ser(
         _ => return Err(TurtlsAlert::HandshakeFailure),
     }
 }
+
+#[cfg(turtls_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("TURTLS_VERIF_HOOKS"), "/key_share.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 48590f7..4e1fdaf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -141,3 +141,9 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     }
     tls_conn.state = TlsStatus::None;
 }
+
+#[cfg(turtls_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    include!(concat!(env!("TURTLS_VERIF_HOOKS"), "/lib.rs"));
+}
diff --git a/src/record/read.rs b/src/record/read.rs
index 1ca9bbd..c38747f 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -211,3 +211,9 @@ impl RecordLayer {
         }
     }
 }
+
+#[cfg(turtls_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("TURTLS_VERIF_HOOKS"), "/read.rs"));
+}
diff --git a/src/record/write.rs b/src/record/write.rs
index 88155c1..001f20d 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -149,3 +149,9 @@ impl RecordLayer {
         self.io.close();
     }
 }
+
+#[cfg(turtls_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("TURTLS_VERIF_HOOKS"), "/write.rs"));
+}
-- 
2.43.0


From 2911889459b28f63efcbe4ec0db75085b050d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 41/41] fix: a cipher suite or group that was not offered is an
 illegal parameter

---
 src/extensions/key_share.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index f7bd807..38dd998 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -184,9 +184,9 @@ pub(super) fn parse_ser(
             .ok_or(TurtlsAlert::IllegalParam)?;
 
             TlsAead::shake_aead(state, &dh_secret, shake_crypto.ciphers)
-                .ok_or(TurtlsAlert::HandshakeFailure)
+                .ok_or(TurtlsAlert::IllegalParam)
         },
-        _ => return Err(TurtlsAlert::HandshakeFailure),
+        _ => return Err(TurtlsAlert::IllegalParam),
     }
 }
 
-- 
2.43.0

