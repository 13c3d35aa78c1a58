From 1de2646d294fc9f03944be9515a14e5d977db89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 1/7] fix: hkdf::expand overflowed its u8 block counter for the
 longest outputs

With overflow checks, (1..) panics when it steps past 255, so expand panicked
for okm.len() >= 254 * DIGEST_SIZE although up to 255 * DIGEST_SIZE is allowed.
---
 src/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hkdf.rs b/src/hkdf.rs
index c5ec08e..839f31b 100644
--- a/src/hkdf.rs
+++ b/src/hkdf.rs
@@ -40,7 +40,7 @@ pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
     assert!(digest_size <= prk.len());
     assert!(255 * digest_size >= okm.len());
     let mut hmac: Hmac<H> = Hmac::new(prk);
-    for (i, chunk) in (1..).zip(okm.chunks_mut(digest_size)) {
+    for (i, chunk) in (1..=255).zip(okm.chunks_mut(digest_size)) {
         hmac.update(info);
         hmac.update(&[i]);
         let tag = hmac.tag();
-- 
2.43.0


From 9786a6dfb618f2f34a87aa811400cf4625097036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 2/7] fix: Gcm overflowed its u32 block counter on a message of
 maximal length

With overflow checks, (2..) panics when it steps past u32::MAX, so the last
block of a message of 2^36 - 33 bytes, which is allowed, panicked.
---
 src/gcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 5136370..6bd954d 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -87,7 +87,7 @@ impl<E: BlockCipher> Processor<E> {
 
     fn process(&self, counter: &mut [u8; 16], input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (2..).zip(input.chunks(16).zip(output.chunks_mut(16)))
+            (2..=u32::MAX).zip(input.chunks(16).zip(output.chunks_mut(16)))
         {
             let block = self.block(counter, i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From 16d09e2938bcc01cf184da042558cf09c953e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 3/7] fix: Poly1305 computed a wrong tag when the accumulator
 was at least 2^130 - 5

freeze() adds 252 to the top limb and takes the sign from bit 7, which only
works if the sum is reduced modulo 256 (as in the reference implementation):
otherwise the mask is -2 instead of 0 and the reduction is undone.
---
 src/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index fce0a06..1599c73 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -223,7 +223,7 @@ fn add(h: &mut [u32; 17], c: &[u8], last_byte: u8) {
         *h_j = u & 255;
         u >>= 8;
     }
-    h[16] += u + u32::from(last_byte);
+    h[16] = (h[16] + u + u32::from(last_byte)) & 255;
 }
 
 fn load_r(key: &[u8; 32]) -> [u8; 17] {
-- 
2.43.0


From 55eaaedbfe287fe58d177330a76989ff35757aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 4/7] fix: ChaCha20Poly1305 reused keystream on messages over
 2^38 - 64 bytes

The 32-bit block counter wrapped to 0, encrypting with the block that holds
the one-time Poly1305 key. RFC 8439 limits messages to 2^38 - 64 bytes; enforce
the limit as Gcm does for its own.
---
 src/poly1305.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index 1599c73..6f0c2d3 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -26,9 +26,11 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is more than 2^38 - 64.
     fn encrypt(&self, input: &[u8], nonce: &[u8], data: &[u8], output: &mut [u8]) -> [u8; 16] {
         assert_eq!(input.len(), output.len());
+        check_bounds(input);
         let cipher = &ChaCha20::new(&self.key, nonce);
         self.process(cipher, input, output);
         self.tag(cipher, output, data)
@@ -38,7 +40,8 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is more than 2^38 - 64.
     fn decrypt(
         &self,
         input: &[u8],
@@ -48,6 +51,7 @@ impl AeadCipher for ChaCha20Poly1305 {
         output: &mut [u8],
     ) -> bool {
         assert_eq!(output.len(), input.len());
+        check_bounds(input);
         let cipher = &ChaCha20::new(&self.key, nonce);
         let expected_tag = self.tag(cipher, input, data);
         if util::verify_16(&expected_tag, tag) {
@@ -62,7 +66,7 @@ impl AeadCipher for ChaCha20Poly1305 {
 impl ChaCha20Poly1305 {
     fn process(&self, cipher: &ChaCha20, input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (1..).zip(input.chunks(64).zip(output.chunks_mut(64)))
+            (1..=u32::MAX).zip(input.chunks(64).zip(output.chunks_mut(64)))
         {
             let block = cipher.block(i);
             for (block_byte, (input_byte, output_byte)) in
@@ -86,6 +90,10 @@ impl ChaCha20Poly1305 {
     }
 }
 
+fn check_bounds(input: &[u8]) {
+    assert!((1 << 38) - 64 >= input.len() as u64);
+}
+
 fn poly1305(key: &[u8; 32], data: &[u8], ciphertext: &[u8]) -> [u8; 16] {
     let mut tag = [0; 16];
     let mut mac = Poly1305::new(key, data);
-- 
2.43.0


From ef3e461d7154acc0f94634e4df8e3bf7383c474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 5/7] fix: ed25519::verify accepted signatures whose S is not
 reduced

RFC 8032 section 5.1.7 requires 0 <= S < L; without the check anyone can turn a
signature (R, S) into another valid signature (R, S + L) of the same message.
---
 src/ed25519.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 1353faf..2d1c00e 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -70,7 +70,7 @@ pub fn sign(message: &[u8], secret_key: &[u8]) -> [u8; 64] {
 /// Panics if `public_key.len()` is not equal to 32.
 pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     assert_eq!(32, public_key.len());
-    if signature.len() != 64 || (signature[63] & 224 != 0) {
+    if signature.len() != 64 || (signature[63] & 224 != 0) || !sc_is_reduced(&signature[32..]) {
         return false;
     }
     let a = match GeP3::from_bytes_negate_vartime(public_key) {
@@ -96,6 +96,16 @@ pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
 
 const ZERO: [u8; 32] = [0; 32];
 
+/// The order of the base point in little-endian.
+const ORDER: [u8; 32] = [
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
+];
+
+fn sc_is_reduced(s: &[u8]) -> bool {
+    s.iter().rev().lt(ORDER.iter().rev())
+}
+
 impl Fe {
     fn cmov_from(&mut self, g: &Fe, b: u32) {
         let f = &mut self.0;
-- 
2.43.0


From 3fe641d6d9f2140d58a693a3e5c3efbccb6369b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 6/7] fix: ed25519::verify accepted public keys that are not
 valid encodings

RFC 8032 section 5.1.3 requires decoding to fail when y >= p, and when x = 0
but the sign bit is set.
---
 src/ed25519.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 2d1c00e..067b366 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -1346,6 +1346,12 @@ impl GeP3 {
         let check = &mut Fe::default();
 
         h.y.assign_from_bytes(s);
+        let y = &mut [0; 32];
+        h.y.write_bytes(y);
+        y[31] |= s[31] & 128;
+        if y != s {
+            return None;
+        }
         h.z.assign_one();
         u.assign_square(&h.y);
         v.assign_product(u, &Fe::from(D));
@@ -1373,6 +1379,9 @@ impl GeP3 {
             h.x *= &Fe::from(SQRTM1);
         }
 
+        if h.x.is_nonzero() == 0 && s[31] >> 7 == 1 {
+            return None;
+        }
         if h.x.is_negative() == i32::from(s[31] >> 7) {
             h.x.neg();
         }
-- 
2.43.0


From 27bbe1c3fa014e03a8b0bf034976f585292d377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:10 +0000
Subject: [PATCH 7/7] fix: gcm did not compile for targets with 32-bit usize

---
 src/gcm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 6bd954d..352a046 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -127,8 +127,8 @@ fn counter(nonce: &[u8]) -> [u8; 16] {
 fn check_bounds(message: &[u8], ciphertext: &[u8], nonce: &[u8], data: &[u8]) {
     assert_eq!(12, nonce.len());
     assert_eq!(message.len(), ciphertext.len());
-    assert!(1 << 36 > message.len() + 32);
-    assert!(1 << 61 > data.len());
+    assert!(1 << 36 > message.len() as u64 + 32);
+    assert!(1 << 61 > data.len() as u64);
 }
 
 #[cfg(test)]
-- 
2.43.0

