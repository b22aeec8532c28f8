From 20a7299930dfd14b5f3698093080d9fe582b02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:54 +0000
Subject: [PATCH 01/20] fix: is_greater_or_equal compares equal multi-word
 values correctly

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 8063b3e..edcfa0d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -244,7 +244,7 @@ pub trait BitVecOps {
             // specialized for 1-word case
             crate::bv::arithmetic::cmp_greater_equal(&self.words()[0..1], &rhs.words()[0..1])
         } else {
-            crate::bv::arithmetic::cmp_greater(self.words(), rhs.words())
+            crate::bv::arithmetic::cmp_greater_equal(self.words(), rhs.words())
         }
     }
 
-- 
2.43.0


From 00d10b6f9cc1850946ef29d1d97dad115642d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/20] fix: shift_left by a multiple of the word size keeps
 the unused bits zero

---
 src/bv/arithmetic.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ceebf69..7a703ea 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -319,9 +319,7 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
             prev = *s >> shift_right;
         }
     }
-    if shift_left > 0 {
-        mask_msb(dst, width);
-    }
+    mask_msb(dst, width);
 }
 
 #[inline]
-- 
2.43.0


From ec302d3227cef10024549a97ef657c45a88b7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:58 +0000
Subject: [PATCH 03/20] fix: multiply bit-vectors that are wider than a word

---
 src/bv/arithmetic.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index 7a703ea..050613c 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -228,10 +228,17 @@ pub(crate) fn mul(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthInt) {
         let (res, _) = a[0].overflowing_mul(b[0]);
         dst[0] = res & mask(width);
     } else {
-        todo!(
-            "implement multiplication for bit vectors larger {}",
-            Word::BITS
-        );
+        // schoolbook multiplication, words beyond the width of the result are ignored
+        clear(dst);
+        for (ii, aa) in a.iter().enumerate() {
+            let mut carry: DoubleWord = 0;
+            for (dd, bb) in dst[ii..].iter_mut().zip(b.iter()) {
+                let sum = *dd as DoubleWord + (*aa as DoubleWord) * (*bb as DoubleWord) + carry;
+                *dd = sum as Word;
+                carry = sum >> Word::BITS;
+            }
+        }
+        mask_msb(dst, width);
     }
 }
 
-- 
2.43.0


From 329104f622d6ef3ff002d78036722a83475641b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:59 +0000
Subject: [PATCH 04/20] fix: to_i64 accepts negative values that are wider than
 64 bits

---
 src/bv/ops.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index edcfa0d..cee48da 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -166,7 +166,17 @@ pub trait BitVecOps {
         } else {
             let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);
             let word_0 = self.words()[0];
-            let all_max_msbs = self.words().iter().skip(1).all(|w| *w == Word::MAX);
+            // for a negative number, all used bits above the first word need to be set
+            let msb_max = crate::bv::arithmetic::mask(self.width() % Word::BITS);
+            let all_max_msbs = self
+                .words()
+                .iter()
+                .rev()
+                .skip(1)
+                .rev()
+                .skip(1)
+                .all(|w| *w == Word::MAX)
+                && *self.words().last().unwrap() == msb_max;
             match (
                 all_zero_msbs,
                 all_max_msbs,
-- 
2.43.0


From a99d34cd8795a747455b49ab91e9cdfa32678b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:59 +0000
Subject: [PATCH 05/20] fix: to_unsigned_fixed_point reports fractions that do
 not fit instead of overflowing

---
 src/bv/ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index cee48da..36f3d03 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -120,7 +120,8 @@ pub trait BitVecOps {
     #[cfg(feature = "fraction1")]
     fn to_unsigned_fixed_point(&self, fraction_width: WidthInt) -> Option<fraction::Fraction> {
         debug_assert!(fraction_width <= self.width());
-        let denom = 1u64 << fraction_width;
+        // the denominator needs to fit into 64 bits
+        let denom = 1u64.checked_shl(fraction_width)?;
         self.to_u64().map(|v| fraction::Fraction::new(v, denom))
     }
 
-- 
2.43.0


From 690c52be889dee9db305549b9d35019a86c37c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:54 +0000
Subject: [PATCH 06/20] fix: allow zero as the value of a zero-width bit-vector

---
 src/bv/arithmetic.rs | 5 ++++-
 src/bv/ops.rs        | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index 050613c..80d2adf 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -79,7 +79,10 @@ pub(crate) fn sign_extend(
 pub(crate) fn mask_msb(dst: &mut [Word], width: WidthInt) {
     debug_assert_eq!(width.div_ceil(Word::BITS) as usize, dst.len());
     let m = mask(width % Word::BITS);
-    *dst.last_mut().unwrap() &= m;
+    // a zero-width value has no words
+    if let Some(msb) = dst.last_mut() {
+        *msb &= m;
+    }
 }
 
 #[inline]
diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 36f3d03..25b1671 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -431,6 +431,10 @@ pub trait BitVecMutOps: BitVecOps {
 
     fn assign_from_u64(&mut self, value: u64) {
         debug_assert_eq!(Word::BITS, u64::BITS, "basic assumption of this function");
+        if self.width() == 0 {
+            debug_assert_eq!(value, 0, "value {value} does not fit into 0 bits");
+            return;
+        }
         // clear all words
         self.clear();
         // assign lsb
-- 
2.43.0


From 81bfc0997f45185d74d69ab9c26b6096c8a26634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:55 +0000
Subject: [PATCH 07/20] fix: count all byte values when turning a dense byte
 array sparse

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 0ae51bc..2440e9b 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -490,7 +490,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
             }
             DenseArrayImpl::U8(data) => {
                 // find default value
-                let mut count = [0usize; u8::BITS as usize];
+                let mut count = [0usize; u8::MAX as usize + 1];
                 for bit in 0..value.num_elements() {
                     count[data[bit] as usize] += 1;
                 }
-- 
2.43.0


From 054a2b479c0f301f8b95f9e02253f4f0279b3386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:55 +0000
Subject: [PATCH 08/20] fix: use the index width for indices when turning a
 sparse array dense

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2440e9b..7302716 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -449,7 +449,7 @@ impl From<&SparseArrayValue> for DenseArrayValue {
                 }
             }
             SparseArrayImpl::U64Big(_, m) => {
-                let mut index_bv = BitVecValue::zero(value.data_width);
+                let mut index_bv = BitVecValue::zero(value.index_width);
                 for (k, v) in m.iter() {
                     index_bv.assign_from_u64(*k);
                     dense.store(&index_bv, v);
-- 
2.43.0


From e21783c8055af7424c7afb543021ac161f43dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:56 +0000
Subject: [PATCH 09/20] fix: look up sparse array entries with an index wider
 than 64 bits

---
 src/array/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 7302716..bd0f04f 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -785,6 +785,7 @@ impl ArrayOps for SparseArrayValue {
                 value
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 let value = map.get(&index).cloned().unwrap_or_else(|| default.clone());
                 value
             }
@@ -823,11 +824,12 @@ impl ArrayMutOps for SparseArrayValue {
                 }
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 if data.is_equal(default) {
                     // ensures that the default value is used for the given index
                     map.remove(&index);
                 } else {
-                    map.insert(index.into(), data.into());
+                    map.insert(index, data.into());
                 }
             }
         }
-- 
2.43.0


From 78de08207b7c6e595ab1d9bad54ef89a7c637d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:56 +0000
Subject: [PATCH 10/20] fix: sparse arrays with different defaults are equal if
 all elements are

---
 src/array/owned.rs | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index bd0f04f..7c3a590 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -9,6 +9,7 @@ use crate::{
 };
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
+use std::hash::Hash;
 
 /// Owned Array Container.
 #[derive(Clone)]
@@ -592,6 +593,24 @@ enum SparseArrayImpl {
     BigBig(BitVecValue, HashMap<BitVecValue, BitVecValue>),
 }
 
+/// Compares two sparse arrays that have different default values.
+fn is_equal_different_defaults<K: Eq + Hash, V: PartialEq>(
+    index_width: WidthInt,
+    (default_a, map_a): (&V, &HashMap<K, V>),
+    (default_b, map_b): (&V, &HashMap<K, V>),
+) -> bool {
+    // an index that is in neither of the maps evaluates to different values
+    let only_in_b = map_b.keys().filter(|k| !map_a.contains_key(k)).count();
+    let num_elements = 1usize.checked_shl(index_width);
+    num_elements == Some(map_a.len() + only_in_b)
+        && map_a
+            .iter()
+            .all(|(k, v)| v == map_b.get(k).unwrap_or(default_b))
+        && map_b
+            .iter()
+            .all(|(k, v)| v == map_a.get(k).unwrap_or(default_a))
+}
+
 impl SparseArrayValue {
     pub fn new<'a>(index_width: WidthInt, default: impl Into<BitVecValueRef<'a>>) -> Self {
         let default = default.into();
@@ -625,8 +644,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_different_defaults(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             (
                 SparseArrayImpl::U64Big(default_a, map_a),
@@ -637,8 +661,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_different_defaults(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             (
                 SparseArrayImpl::BigBig(default_a, map_a),
@@ -649,8 +678,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_different_defaults(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             _ => unreachable!(
                 "the representation for two arrays of the same type should always be the same!"
-- 
2.43.0


From 162301e9127a7dbc8f3392585f33bd6cda5bcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:57 +0000
Subject: [PATCH 11/20] fix: print decimal numbers that are wider than 128 bits

---
 src/bv/io/strings.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 830b575..3856ae3 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -154,8 +154,27 @@ fn to_dec_str_internal(values: &[Word], mut out: String) -> String {
     out
 }
 
-fn to_dec_str_wide(_words: &[Word], _out: &mut str) {
-    todo!()
+fn to_dec_str_wide(words: &[Word], out: &mut String) {
+    // we split off the largest number of decimal digits that fit into a word
+    const DIGITS: usize = 19;
+    let base = 10u128.pow(DIGITS as u32);
+    let mut words = Vec::from(words);
+    let mut digits: Vec<Word> = vec![];
+    while !words.is_empty() {
+        let mut rem = 0u128;
+        for word in words.iter_mut().rev() {
+            let value = (rem << Word::BITS) | *word as u128;
+            *word = (value / base) as Word;
+            rem = value % base;
+        }
+        digits.push(rem as Word);
+        words.truncate(words_used(&words));
+    }
+    // the most significant digits come without leading zeros
+    write!(out, "{}", digits.pop().unwrap_or(0)).unwrap();
+    for d in digits.iter().rev() {
+        write!(out, "{d:0DIGITS$}").unwrap();
+    }
 }
 
 pub(crate) fn determine_width_from_str_radix(value: &str, radix: u32) -> WidthInt {
-- 
2.43.0


From 00978b030c03b5b7dbea01d27955cdee3564fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:57 +0000
Subject: [PATCH 12/20] fix: parse decimal numbers into bit-vectors wider than
 128 bits

---
 src/bv/io/strings.rs | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 3856ae3..dc49897 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{is_neg, negate_in_place};
+use crate::bv::arithmetic::{clear, is_neg, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -299,9 +299,13 @@ pub(crate) fn from_str_radix(
             };
 
             match radix {
-                2 => parse_base_2(digits, out, width)?,
-                10 => parse_base_10(digits, out, width)?,
-                16 => parse_base_16(digits, out)?,
+                2 => {
+                    parse_base_2(digits, out, width)?;
+                }
+                10 => parse_base_10(digits, out)?,
+                16 => {
+                    parse_base_16(digits, out)?;
+                }
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
         }
@@ -345,13 +349,30 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
     Ok(num_digits as u32 * BITS_PER_HEX_DIGIT)
 }
 
-fn parse_base_10(
-    _digits: &[u8],
-    _out: &mut [Word],
-    _max_width: WidthInt,
-) -> Result<WidthInt, ParseIntError> {
-    // let other = BitVecValue::
-    todo!()
+fn parse_base_10(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
+    clear(out);
+    for cc in digits.iter() {
+        // multiply what we have so far by ten and add the new digit
+        let mut carry = match cc {
+            b'0'..=b'9' => (cc - b'0') as u128,
+            _ => {
+                return Err(ParseIntError {
+                    kind: IntErrorKind::InvalidDigit,
+                })
+            }
+        };
+        for word in out.iter_mut() {
+            let value = (*word as u128) * 10 + carry;
+            *word = value as Word;
+            carry = value >> Word::BITS;
+        }
+        if carry != 0 {
+            return Err(ParseIntError {
+                kind: IntErrorKind::ExceedsWidth,
+            });
+        }
+    }
+    Ok(())
 }
 
 fn parse_base_2(
-- 
2.43.0


From 43232506fc3f01215d7071f47dfa18907d065ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:58 +0000
Subject: [PATCH 13/20] fix: signed binary strings of values one bit wider than
 a word

---
 src/bv/io/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index dc49897..1f3708d 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,9 +26,9 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(&copy, width - 1, out)
+        to_bit_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
     } else {
-        to_bit_str(values, width - 1)
+        to_bit_str(select_words_for_width(values, width - 1), width - 1)
     }
 }
 
-- 
2.43.0


From c582a1abc27129c9c27c12c61a19459dec4d9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:58 +0000
Subject: [PATCH 14/20] fix: signed strings of the smallest number include its
 magnitude

---
 src/bv/io/strings.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 1f3708d..8499c15 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,12 +26,23 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_bit_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
         to_bit_str(select_words_for_width(values, width - 1), width - 1)
     }
 }
 
+/// Number of bits needed to print the magnitude of a negative number of the given width.
+fn magnitude_width(magnitude: &[Word], width: WidthInt) -> WidthInt {
+    // only the magnitude of the smallest number needs all bits
+    if is_neg(magnitude, width) {
+        width
+    } else {
+        width - 1
+    }
+}
+
 pub(crate) fn to_bit_str(values: &[Word], width: WidthInt) -> String {
     let out = String::with_capacity(width as usize);
     to_bit_str_internal(values, width, out)
@@ -76,7 +87,8 @@ pub(crate) fn to_hex_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_hex_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_hex_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
         to_hex_str(select_words_for_width(values, width - 1), width - 1)
     }
-- 
2.43.0


From 14765c9e5e2899f6432537c431a1a79c1c08b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 15/20] fix: parsing rejects numbers that do not fit and
 ignores old content and leading zeros

---
 src/bv/io/strings.rs | 52 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 8499c15..dcbbd93 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,8 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{clear, is_neg, negate_in_place};
+use crate::bv::arithmetic::{assign, clear, is_neg, mask, negate_in_place};
+use crate::bv::owned::value_vec_zeros;
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -231,6 +232,20 @@ pub(crate) fn from_str_radix(
     radix: u32,
     out: &mut [Word],
     width: WidthInt,
+) -> Result<(), ParseIntError> {
+    // `out` is only changed if we succeed
+    let mut parsed = value_vec_zeros(width);
+    parse_str_radix(value, radix, &mut parsed, width)?;
+    assign(out, &parsed);
+    Ok(())
+}
+
+/// Expects `out` to be all zeros.
+fn parse_str_radix(
+    value: &str,
+    radix: u32,
+    out: &mut [Word],
+    width: WidthInt,
 ) -> Result<(), ParseIntError> {
     // The empty string becomes a 0-bit vector.
     if value.is_empty() {
@@ -310,6 +325,13 @@ pub(crate) fn from_str_radix(
                 _ => digits,
             };
 
+            // ignore leading zeros
+            let num_zeros = digits.iter().take_while(|d| **d == b'0').count();
+            let digits = &digits[num_zeros..];
+            if digits.is_empty() {
+                return Ok(());
+            }
+
             match radix {
                 2 => {
                     parse_base_2(digits, out, width)?;
@@ -323,18 +345,20 @@ pub(crate) fn from_str_radix(
         }
     }
 
-    // TODO: check width
-    // let m = super::super::arithmetic::mask(width);
-    // if *out != *out & m {
-    //     Err(ParseIntError {
-    //         kind: IntErrorKind::ExceedsWidth,
-    //     })
-    // } else {
-    //     Ok(())
-    // }
+    // check that the magnitude fits
+    let exceeds_width = Err(ParseIntError {
+        kind: IntErrorKind::ExceedsWidth,
+    });
+    if *out.last().unwrap() > mask(width % Word::BITS) {
+        return exceeds_width;
+    }
 
     if is_negative {
-        negate_in_place(out, width)
+        negate_in_place(out, width);
+        // the negation of a number that is not zero needs to be negative
+        if !is_neg(out, width) && out.iter().any(|w| *w != 0) {
+            return exceeds_width;
+        }
     }
     Ok(())
 }
@@ -342,6 +366,11 @@ pub(crate) fn from_str_radix(
 fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
     let num_digits = digits.len();
     let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
+    if words as usize > out.len() {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
     let mut word = 0 as Word;
     let mut out_ii = (words - 1) as usize;
 
@@ -393,7 +422,6 @@ fn parse_base_2(
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
     let width = digits.len() as WidthInt;
-    // TODO: ignore zeros
     if width > max_width {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
-- 
2.43.0


From 860bf74709d18d14e35415e221f1ab1da9fa1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 16/20] fix: decimal strings of values wider than 1431655765
 bits overflowed the capacity estimate

---
 src/bv/io/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index dcbbd93..e8316c9 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -130,7 +130,7 @@ fn to_hex_str_internal(values: &[Word], width: WidthInt, mut out: String) -> Str
 }
 
 pub(crate) fn to_dec_str(values: &[Word], width: WidthInt) -> String {
-    let out = String::with_capacity((width * 3 / 10) as usize);
+    let out = String::with_capacity((width as u64 * 3 / 10) as usize);
     to_dec_str_internal(values, out)
 }
 
-- 
2.43.0


From a8deab1d7a4cb9131f36c48886306445758fb830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:21 +0000
Subject: [PATCH 17/20] fix: parsing of text with 2^30 hexadecimal or 2^32
 binary digits and more

The number of bits was computed with 32 bits. Text that does not fit was
let through and ran into an index out of bounds, and hexadecimal text for
the widest values was never accepted.
---
 src/bv/io/strings.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index e8316c9..2705ab5 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -363,16 +363,17 @@ fn parse_str_radix(
     Ok(())
 }
 
-fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
+fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
     let num_digits = digits.len();
-    let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
-    if words as usize > out.len() {
+    // the number of bits might not fit into 32 bits
+    let words = num_digits.div_ceil(WORD_HEX_DIGITS as usize);
+    if words > out.len() {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
         });
     }
     let mut word = 0 as Word;
-    let mut out_ii = (words - 1) as usize;
+    let mut out_ii = words - 1;
 
     // read from right to left
     for (ii, cc) in digits.iter().enumerate() {
@@ -387,7 +388,7 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
     }
     debug_assert_eq!(out_ii, 0);
     out[0] = word;
-    Ok(num_digits as u32 * BITS_PER_HEX_DIGIT)
+    Ok(())
 }
 
 fn parse_base_10(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
@@ -421,13 +422,14 @@ fn parse_base_2(
     out: &mut [Word],
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
-    let width = digits.len() as WidthInt;
-    if width > max_width {
+    // the number of digits might not fit into 32 bits
+    if digits.len() > max_width as usize {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
         });
     }
 
+    let width = digits.len() as WidthInt;
     let words = width.div_ceil(Word::BITS);
     let mut word = 0 as Word;
     let mut out_ii = (words - 1) as usize;
-- 
2.43.0


From 109f484826d900bc89bb3e81f0c1c161d8320fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:48 +0000
Subject: [PATCH 18/20] fix: text with more digits than a width can count is
 refused when the width is inferred

The width wrapped around and a value of a much smaller width was returned.
---
 src/bv/io/strings.rs | 16 ++++++++++++++++
 src/bv/owned.rs      |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 2705ab5..c2911fc 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -211,6 +211,22 @@ pub(crate) fn determine_width_from_str_radix(value: &str, radix: u32) -> WidthIn
     base_width + starts_with_minus as WidthInt
 }
 
+/// Determines the width, refuses text with more digits than a width can count.
+pub(crate) fn checked_width_from_str_radix(
+    value: &str,
+    radix: u32,
+) -> Result<WidthInt, ParseIntError> {
+    let num_digits = value.strip_prefix(['+', '-']).unwrap_or(value).len() as u64;
+    let bits_per_digit = if radix == 2 { 1 } else { BITS_PER_HEX_DIGIT };
+    let width = num_digits * bits_per_digit as u64 + value.starts_with('-') as u64;
+    if width > WidthInt::MAX as u64 {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
+    Ok(determine_width_from_str_radix(value, radix))
+}
+
 #[inline]
 fn hex_digit_value(digit: u8) -> Result<u8, ParseIntError> {
     let value = match digit {
diff --git a/src/bv/owned.rs b/src/bv/owned.rs
index 072151e..fd545de 100644
--- a/src/bv/owned.rs
+++ b/src/bv/owned.rs
@@ -21,13 +21,13 @@ pub struct BitVecValue {
 impl BitVecValue {
     /// Parse a string of 1s and 0s. The width of the resulting value is the number of digits.
     pub fn from_bit_str(value: &str) -> Result<Self, ParseIntError> {
-        let width = crate::bv::io::strings::determine_width_from_str_radix(value, 2);
+        let width = crate::bv::io::strings::checked_width_from_str_radix(value, 2)?;
         Self::from_str_radix(value, 2, width)
     }
 
     /// Parse a string of hex digits. The width of the resulting value is the number of digits times 4.
     pub fn from_hex_str(value: &str) -> Result<Self, ParseIntError> {
-        let width = crate::bv::io::strings::determine_width_from_str_radix(value, 16);
+        let width = crate::bv::io::strings::checked_width_from_str_radix(value, 16)?;
         Self::from_str_radix(value, 16, width)
     }
 
-- 
2.43.0


From 3e10362431229655dd4cc149526e341575768b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:10 +0000
Subject: [PATCH 19/20] fix: width of the largest big integers

The number of bits was computed with 32 bits: with overflow checks, numbers
close to 2^32 bits panicked although they fit, and larger ones were cut off
silently.
---
 src/bv/io/bigint.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/bv/io/bigint.rs b/src/bv/io/bigint.rs
index 82ff091..1a69cf0 100644
--- a/src/bv/io/bigint.rs
+++ b/src/bv/io/bigint.rs
@@ -92,24 +92,17 @@ fn iter_to_word(iter: impl Iterator<Item = Word>, width: WidthInt, out: &mut [Wo
 }
 
 pub(crate) fn count_big_uint_bits(value: &num_bigint::BigUint) -> WidthInt {
-    let words = value.iter_u64_digits().count() as u32;
-    if words == 0 {
-        0
-    } else {
-        let msb = value.iter_u64_digits().last().unwrap();
-        words * Word::BITS - msb.leading_zeros()
-    }
+    bits_to_width(value.bits())
 }
 
 pub(crate) fn count_big_int_bits(value: &num_bigint::BigInt) -> WidthInt {
-    let words = value.iter_u64_digits().count() as u32;
     // +1 for the sign bit
-    if words == 0 {
-        1
-    } else {
-        let msb = value.iter_u64_digits().last().unwrap();
-        words * Word::BITS - msb.leading_zeros() + 1
-    }
+    bits_to_width(value.bits() + 1)
+}
+
+#[inline]
+fn bits_to_width(bits: u64) -> WidthInt {
+    WidthInt::try_from(bits).expect("number is too large for a bit vector")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1ff3f880b4e0447376cba9647ff5e9cce7a8d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:41 +0000
Subject: [PATCH 20/20] fix: extending or concatenating beyond the largest
 width is refused

The width wrapped around in builds without overflow checks, the result was
a value of a small width with bits set above it.
---
 src/bv/ops.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 25b1671..ad2b0b9 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -56,6 +56,12 @@ macro_rules! declare_bit_arith_bin_fn {
     };
 }
 
+/// Width of a result that is as wide as both inputs together.
+#[inline]
+fn sum_of_widths(a: WidthInt, b: WidthInt) -> WidthInt {
+    a.checked_add(b).expect("result would be too wide")
+}
+
 /// Operations over immutable bit-vector values.
 pub trait BitVecOps {
     fn width(&self) -> WidthInt;
@@ -328,7 +334,7 @@ pub trait BitVecOps {
     }
 
     fn sign_extend(&self, by: WidthInt) -> BitVecValue {
-        let out_width = self.width() + by;
+        let out_width = sum_of_widths(self.width(), by);
         let mut out = value_vec_zeros(out_width);
         if out_width <= Word::BITS {
             // specialized for 1-word case
@@ -345,7 +351,7 @@ pub trait BitVecOps {
     }
 
     fn zero_extend(&self, by: WidthInt) -> BitVecValue {
-        let out_width = self.width() + by;
+        let out_width = sum_of_widths(self.width(), by);
         let mut out = value_vec_zeros(out_width);
         if out_width <= Word::BITS {
             // specialized for 1-word case
@@ -379,7 +385,7 @@ pub trait BitVecOps {
     }
 
     fn concat<R: BitVecOps + ?Sized>(&self, rhs: &R) -> BitVecValue {
-        let out_width = self.width() + rhs.width();
+        let out_width = sum_of_widths(self.width(), rhs.width());
         let mut out = value_vec_zeros(out_width);
         if out_width <= Word::BITS {
             // specialized for 1-word case
-- 
2.43.0

