From bd4b7422e141a561cd89acab8e50a2c9a70440c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 1/6] fix: UBig::clear_bit keeps a one-word number when the bit
 is beyond its word

---
 src/bits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bits.rs b/src/bits.rs
index defa629..f3e18d1 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -100,8 +100,10 @@ impl UBig {
     pub fn clear_bit(&mut self, n: usize) {
         match mem::take(self).into_repr() {
             Small(word) => {
-                if n < WORD_BITS_USIZE {
-                    *self = UBig::from_word(word & !(1 << n))
+                *self = if n < WORD_BITS_USIZE {
+                    UBig::from_word(word & !(1 << n))
+                } else {
+                    UBig::from_word(word)
                 }
             }
             Large(buffer) => *self = UBig::without_bit_large(buffer, n),
-- 
2.43.0


From a7462ccf2942d04eb4a5eac17f0f996bb9aadcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 2/6] fix: Signed::abs_sub for IBig is zero when the difference
 is not positive

---
 src/num_traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_traits.rs b/src/num_traits.rs
index cec7076..0c9c808 100644
--- a/src/num_traits.rs
+++ b/src/num_traits.rs
@@ -88,7 +88,11 @@ impl num_traits::Signed for IBig {
 
     #[inline]
     fn abs_sub(&self, other: &Self) -> Self {
-        Abs::abs(self - other)
+        if self <= other {
+            IBig::from(0u8)
+        } else {
+            self - other
+        }
     }
 
     #[inline]
-- 
2.43.0


From f2a2e855fd84fff1de93c508642b42c40c3408eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 3/6] fix: convert numbers near the size limit to ModuloRing
 elements

ModuloLarge::from_ubig shifted the number as a UBig, which panics with
"number too large" when the shifted number is longer than MAX_BIT_LEN,
although the residue always fits.
---
 src/modular/convert.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modular/convert.rs b/src/modular/convert.rs
index d709966..9fed4db 100644
--- a/src/modular/convert.rs
+++ b/src/modular/convert.rs
@@ -10,7 +10,7 @@ use crate::{
         modulo::{Modulo, ModuloLarge, ModuloRepr, ModuloSmall, ModuloSmallRaw},
         modulo_ring::{ModuloRing, ModuloRingLarge, ModuloRingRepr, ModuloRingSmall},
     },
-    primitive::extend_word,
+    primitive::{extend_word, split_double_word},
     shift,
     sign::Sign::*,
     ubig::{Repr, UBig},
@@ -197,13 +197,21 @@ impl<'a> ModuloSmall<'a> {
 }
 
 impl<'a> ModuloLarge<'a> {
-    pub(crate) fn from_ubig(mut x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
-        x <<= ring.shift() as usize;
+    pub(crate) fn from_ubig(x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
         let modulus = ring.normalized_modulus();
         let mut vec = Vec::with_capacity(modulus.len());
         match x.into_repr() {
-            Repr::Small(word) => vec.push(word),
+            Repr::Small(word) => {
+                let (lo, hi) = split_double_word(extend_word(word) << ring.shift());
+                vec.push(lo);
+                vec.push(hi);
+            }
             Repr::Large(mut words) => {
+                // `x << shift` may be longer than `UBig::MAX_LEN`, so shift in the buffer.
+                let carry = shift::shl_in_place(&mut words, ring.shift());
+                if carry != 0 {
+                    words.push_may_reallocate(carry);
+                }
                 if words.len() < modulus.len() {
                     vec.extend(&*words);
                 } else {
-- 
2.43.0


From e4b90c09a76a4392cc4d2d2014debcf88285b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 4/6] fix: extended_gcd of numbers near the size limit

The intermediate sums ax + v and ay + u could exceed MAX_BIT_LEN although
the coefficients themselves never exceed u and v, so extended_gcd (and the
modular inverse) panicked with "number too large".
---
 src/gcd.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/gcd.rs b/src/gcd.rs
index 7b097d0..f216177 100644
--- a/src/gcd.rs
+++ b/src/gcd.rs
@@ -132,20 +132,28 @@ impl UBig {
             mem::swap(&mut ay, &mut by);
         }
 
+        let u_half = &u >> 1usize;
+        let v_half = &v >> 1usize;
+
         // Binary algorithm.
+        // Intermediate values never exceed u, v, so that they fit even if u, v have maximum length.
         while a != UBig::from_word(0) {
             // b is odd
             while &a & 1u8 == 0u8 {
                 // a is even
-                if &ax & 1u8 != 0u8 || &ay & 1u8 != 0u8 {
-                    ax += &v;
-                    ay += &u;
-                }
-                // Now ax, ay are even.
+                let ax_odd = &ax & 1u8;
+                let ay_odd = &ay & 1u8;
                 a >>= 1usize;
                 ax >>= 1usize;
                 ay >>= 1usize;
-                // Again ax <= v, bx <= u.
+                if ax_odd != 0u8 || ay_odd != 0u8 {
+                    // (ax + v) / 2 and (ay + u) / 2: both sums are even.
+                    ax += &v_half;
+                    ax += ax_odd;
+                    ay += &u_half;
+                    ay += ay_odd;
+                }
+                // Again ax <= v, ay <= u.
             }
             // Both a and b are odd.
             if a < b {
@@ -155,11 +163,12 @@ impl UBig {
             }
             a -= &b;
             if ax < bx {
-                ax += &v;
-                ay += &u;
+                ax += &v - &bx;
+                ay += &u - &by;
+            } else {
+                ax -= &bx;
+                ay -= &by;
             }
-            ax -= &bx;
-            ay -= &by;
             // ax >= 0 in both cases
             // ax <= v in both cases
             // ax * u - ay * v = a
-- 
2.43.0


From c4abc093dae3dfe0c39301d9f1d90f3c6f255628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:27 +0000
Subject: [PATCH 5/6] fix: shifts and set_bit just past the size limit panic
 instead of aborting for lack of memory

---
 src/bits.rs      |  8 ++++++++
 src/shift_ops.rs | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/bits.rs b/src/bits.rs
index f3e18d1..57e9706 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -66,6 +66,10 @@ impl UBig {
 
     fn with_bit_word_slow(word: Word, n: usize) -> UBig {
         debug_assert!(n >= WORD_BITS_USIZE);
+        // Check before allocating: an allocation just over the limit aborts instead of panicking.
+        if n >= UBig::MAX_BIT_LEN {
+            UBig::panic_number_too_large();
+        }
         let idx = n / WORD_BITS_USIZE;
         let mut buffer = Buffer::allocate(idx + 1);
         buffer.push(word);
@@ -79,6 +83,10 @@ impl UBig {
         if idx < buffer.len() {
             buffer[idx] |= 1 << (n % WORD_BITS_USIZE);
         } else {
+            // Check before allocating: an allocation just over the limit aborts instead of panicking.
+            if n >= UBig::MAX_BIT_LEN {
+                UBig::panic_number_too_large();
+            }
             buffer.ensure_capacity(idx + 1);
             buffer.push_zeros(idx - buffer.len());
             buffer.push(1 << (n % WORD_BITS_USIZE));
diff --git a/src/shift_ops.rs b/src/shift_ops.rs
index cc90cd5..0b00acd 100644
--- a/src/shift_ops.rs
+++ b/src/shift_ops.rs
@@ -202,6 +202,11 @@ impl UBig {
 
     /// Shift left one non-zero `Word` by `rhs` bits.
     fn shl_word_slow(word: Word, rhs: usize) -> UBig {
+        // Check before allocating: an allocation just over the limit aborts instead of panicking.
+        let bit_len = WORD_BITS_USIZE - word.leading_zeros() as usize;
+        if rhs > UBig::MAX_BIT_LEN - bit_len {
+            UBig::panic_number_too_large();
+        }
         let shift_words = rhs / WORD_BITS_USIZE;
         let shift_bits = (rhs % WORD_BITS_USIZE) as u32;
         let (lo, hi) = split_double_word(extend_word(word) << shift_bits);
@@ -229,6 +234,12 @@ impl UBig {
 
     /// Shift left large number of words by `rhs` bits.
     fn shl_ref_large(words: &[Word], rhs: usize) -> UBig {
+        // Check before allocating: an allocation just over the limit aborts instead of panicking.
+        let bit_len =
+            words.len() * WORD_BITS_USIZE - words.last().unwrap().leading_zeros() as usize;
+        if rhs > UBig::MAX_BIT_LEN - bit_len {
+            UBig::panic_number_too_large();
+        }
         let shift_words = rhs / WORD_BITS_USIZE;
         let shift_bits = (rhs % WORD_BITS_USIZE) as u32;
 
-- 
2.43.0


From c83de9ce1cafc0635bbc6aa808d784ecce7cd620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:22 +0000
Subject: [PATCH 6/6] fix: do not trust the claimed length when deserializing

A sequence length field of serialized data (e.g. the 8 bytes of bincode) was
used to allocate the buffer before any word was read, so a few bytes could make
the process panic or abort. Longer claims are now collected word by word.
---
 src/serde.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 5c65e0a..6f829c7 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -10,6 +10,10 @@ use static_assertions::const_assert;
 const_assert!(64 % WORD_BITS_USIZE == 0);
 const WORDS_PER_U64: usize = 64 / WORD_BITS_USIZE;
 
+/// Maximum number of 64-bit words to allocate before seeing the data. The claimed length comes from
+/// the data itself, so it cannot be trusted.
+const MAX_PREALLOCATED_LEN_64: usize = 1024;
+
 impl Serialize for UBig {
     #[allow(clippy::useless_conversion)]
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
@@ -52,7 +56,7 @@ impl<'de> Visitor<'de> for UBigVisitor {
                 assert!(seq.next_element::<u64>()?.is_none());
                 Ok(UBig::from(word_64))
             }
-            Some(num_words_64) => {
+            Some(num_words_64) if num_words_64 <= MAX_PREALLOCATED_LEN_64 => {
                 let mut buffer = Buffer::allocate(len_64_to_max_len(num_words_64));
                 for _ in 0..num_words_64 {
                     let word_64: u64 = seq.next_element()?.unwrap();
@@ -61,7 +65,7 @@ impl<'de> Visitor<'de> for UBigVisitor {
                 assert!(seq.next_element::<u64>()?.is_none());
                 Ok(buffer.into())
             }
-            None => {
+            _ => {
                 let mut words_64 = Vec::new();
                 while let Some(word_64) = seq.next_element()? {
                     words_64.push(word_64);
-- 
2.43.0

