From 68438e397f75de62e7dbba0afd656b021970abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:22 +0000
Subject: [PATCH 1/8] fix: is_one must look at the least significant digit of
 wide integers

Digits are stored least significant first, so for widths above 64 bits
`is_one` answered `true` for 2^(64*(n-1)) and `false` for 1.
---
 src/apint/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apint/utils.rs b/src/apint/utils.rs
index 7b9cf95..cdc66e8 100644
--- a/src/apint/utils.rs
+++ b/src/apint/utils.rs
@@ -403,9 +403,9 @@ impl ApInt {
         match self.access_data() {
             DataAccess::Inl(digit) => digit == Digit::ONE,
             DataAccess::Ext(digits) => {
-                let (last, rest) =
-                    digits.split_last().unwrap_or_else(|| unreachable!());
-                (*last == Digit::ONE)
+                let (first, rest) =
+                    digits.split_first().unwrap_or_else(|| unreachable!());
+                (*first == Digit::ONE)
                     && rest.iter().all(|digit| digit.is_zero())
             }
         }
-- 
2.43.0


From 4f62bba97280e1e2aaf7ba3aae10b15211d3d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:23 +0000
Subject: [PATCH 2/8] fix: is_all_set must check the top digit when the width
 is a multiple of 64

Without excess bits the most significant digit was never inspected, so
e.g. a 64-bit zero was reported as having all bits set.
---
 src/apint/bitwise.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/apint/bitwise.rs b/src/apint/bitwise.rs
index 8a8fe3c..9332d73 100644
--- a/src/apint/bitwise.rs
+++ b/src/apint/bitwise.rs
@@ -186,6 +186,8 @@ impl ApInt {
             if msb.repr().count_ones() as usize != excess_bits {
                 return false
             }
+        } else if msb != Digit::ONES {
+            return false
         }
         rest.iter().all(|d| *d == Digit::ONES)
     }
-- 
2.43.0


From 791ba31a6bc4161a8297ea8e8b9fcbe32e3bcbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:41 +0000
Subject: [PATCH 3/8] fix: signed division must report unequal bit widths
 instead of panicking

The signed division family unwrapped the result of the unsigned division
after having negated its operands, so a width mismatch panicked and left
the operands modified although the documentation promises an error.
---
 src/apint/arithmetic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/apint/arithmetic.rs b/src/apint/arithmetic.rs
index a86df73..66eb44c 100644
--- a/src/apint/arithmetic.rs
+++ b/src/apint/arithmetic.rs
@@ -1674,6 +1674,9 @@ impl ApInt {
                 lhs.clone(),
             ))
         }
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         let (negate_lhs, negate_rhs) = match ((*lhs).msb(), (*rhs).msb()) {
             (false, false) => (false, false),
             (true, false) => {
@@ -1719,6 +1722,9 @@ impl ApInt {
                 lhs.clone(),
             ))
         }
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         let (negate_lhs, negate_rhs) = match ((*lhs).msb(), (*rhs).msb()) {
             (false, false) => (false, false),
             (true, false) => {
@@ -1757,6 +1763,9 @@ impl ApInt {
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedDiv, self.clone()))
         }
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         let mut rhs_clone = (*rhs).clone();
         let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
             (false, false) => false,
@@ -1804,6 +1813,9 @@ impl ApInt {
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedRem, self.clone()))
         }
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         let mut rhs_clone = (*rhs).clone();
         let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
             (false, false) => false,
-- 
2.43.0


From 1a6c1d8b26e0b7763ddbe3f94dee5086b4c9c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 4/8] fix: parse long inputs correctly for radices that are not
 a power of two

The multiply-and-add step of the conversion was commented out, so every
input longer than one chunk (e.g. 20 decimal digits) silently parsed to a
wrong value.
---
 src/apint/serialization.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index 53e3cea..fc14475 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -273,9 +273,6 @@ impl ApInt {
     // Read little-endian radix digits.
     //
     // Forked from: https://github.com/rust-num/num/blob/master/bigint/src/biguint.rs#L177
-    //
-    // TODO: This does not work, yet. Some parts of the algorithm are
-    //       commented-out since the required functionality does not exist, yet.
     fn from_radix_digits(v: &[u8], radix: Radix) -> ApInt {
         use crate::digit::DigitRepr;
 
@@ -291,7 +288,7 @@ impl ApInt {
         let big_digits = (bits / Digit::BITS) + 1;
         let mut data = Vec::with_capacity(big_digits as usize);
 
-        let (_base, power) = radix.get_radix_base();
+        let (base, power) = radix.get_radix_base();
         let radix = DigitRepr::from(radix.to_u8());
 
         let r = v.len() % power;
@@ -309,24 +306,18 @@ impl ApInt {
                 data.push(0);
             }
 
-            let carry = 0;
-            for _d in &mut data {
-                // *d = mac_with_carry(0, *d, base, &mut carry); // TODO! This
-                // was commented out.
-
-                // // fn carry_mul_add(a: Digit, b: Digit, c: Digit, carry:
-                // Digit) -> DigitAndCarry // Returns the result
-                // of `(a + (b * c)) + carry` and its implied carry value.
-
-                // let DigitAndCarry(d, carry) = carry_mul_add(digit::ZERO, *d,
-                // base, carry); // TODO! This was commented out.
-            }
-            debug_assert!(carry == 0);
-
-            let _n = chunk
+            // Compute `data = data * base + n`, with `n` being the value of
+            // the current chunk.
+            let n = chunk
                 .iter()
                 .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
-            // add2(&mut data, &[n]); // TODO: This was commented out.
+            let mut carry = Digit(n);
+            for d in &mut data {
+                let (lo, hi) = Digit(*d).carrying_mul_add(base, carry);
+                *d = lo.repr();
+                carry = hi;
+            }
+            debug_assert!(carry.is_zero());
         }
 
         ApInt::from_iter(data.into_iter().map(Digit)).unwrap()
-- 
2.43.0


From d1f1204b953fc841c0f7f51883532c4a50d46f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 5/8] fix: report position and character of an invalid
 character in a string

The documented `pos_char` of `InvalidStringRepr` was always `None`.
---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 8399b4e..8c968db 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -215,7 +215,7 @@ impl Error {
             kind: ErrorKind::InvalidStringRepr {
                 input,
                 radix,
-                pos_char: None,
+                pos_char: Some((pos, ch)),
             },
             message: format!(
                 "Encountered an invalid character (= '{:?}') at position {:?} within \
-- 
2.43.0


From f17c29868eb83d3b6c2d98e2d9ad10b6f7c6daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 6/8] fix: deserializing an empty compact sequence must be an
 error, not a panic

---
 src/apint/serde_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/apint/serde_impl.rs b/src/apint/serde_impl.rs
index 1d3c1b8..b4ad7df 100644
--- a/src/apint/serde_impl.rs
+++ b/src/apint/serde_impl.rs
@@ -262,7 +262,9 @@ impl<'de> Deserialize<'de> for ApInt {
             where
                 V: SeqAccess<'de>,
             {
-                let width: BitWidth = seq.next_element()?.unwrap();
+                let width: BitWidth = seq
+                    .next_element()?
+                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                 let digits: Vec<Digit> = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-- 
2.43.0


From 648c0ff5ca3c216ce99aed30cc063e9b9ed80cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 7/8] fix: Int::try_to_iN must decide by the signed value

The conversions forwarded to the unsigned ApInt check: e.g. a 16-bit Int of
value 200 converted to Ok(-56) as i8 while a 16-bit Int of value -1 was
refused, contradicting the documented limits of the target type.
---
 src/int.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 2f6fb4b..ba2c3c0 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -2,10 +2,12 @@
 //! `std_ops.rs`
 
 use crate::{
+    apint::PrimitiveTy,
     utils::{forward_bin_mut_impl, forward_mut_impl, try_forward_bin_mut_impl},
     ApInt,
     BitPos,
     BitWidth,
+    Error,
     Result,
     ShiftAmount,
     UInt,
@@ -445,6 +447,21 @@ impl Int {
 
 /// # To Primitive (Try-Cast)
 impl Int {
+    /// Returns `prim`, the value of this `Int` resized to the primitive type
+    /// `prim_ty`, if it represents the same value as this `Int`.
+    fn try_exact<T>(&self, prim: T, prim_ty: PrimitiveTy) -> Result<T>
+    where
+        T: Copy + Into<Int>,
+    {
+        if prim.into().into_resize(self.width()) != *self {
+            return Err(Error::encountered_unrepresentable_value(
+                self.value.clone(),
+                prim_ty,
+            ))
+        }
+        Ok(prim)
+    }
+
     /// Tries to represent the value of this `Int` as a `bool`.
     ///
     /// # Note
@@ -473,7 +490,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `u8`.
     pub fn try_to_i8(&self) -> Result<i8> {
-        self.value.try_to_i8()
+        self.try_exact(self.resize_to_i8(), PrimitiveTy::I8)
     }
 
     /// Tries to represent the value of this `Int` as a `i16`.
@@ -488,7 +505,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i16`.
     pub fn try_to_i16(&self) -> Result<i16> {
-        self.value.try_to_i16()
+        self.try_exact(self.resize_to_i16(), PrimitiveTy::I16)
     }
 
     /// Tries to represent the value of this `Int` as a `i32`.
@@ -503,7 +520,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i32`.
     pub fn try_to_i32(&self) -> Result<i32> {
-        self.value.try_to_i32()
+        self.try_exact(self.resize_to_i32(), PrimitiveTy::I32)
     }
 
     /// Tries to represent the value of this `Int` as a `i64`.
@@ -518,7 +535,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i64`.
     pub fn try_to_i64(&self) -> Result<i64> {
-        self.value.try_to_i64()
+        self.try_exact(self.resize_to_i64(), PrimitiveTy::I64)
     }
 
     /// Tries to represent the value of this `Int` as a `i128`.
@@ -537,7 +554,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i128`.
     pub fn try_to_i128(&self) -> Result<i128> {
-        self.value.try_to_i128()
+        self.try_exact(self.resize_to_i128(), PrimitiveTy::I128)
     }
 }
 
-- 
2.43.0


From d22a45b7192c43d0a0da34825e97e40ab996dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:08 +0000
Subject: [PATCH 8/8] fix: report a non-ASCII invalid character itself, not its
 first byte
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Parsing looked at bytes, so for input such as "1é" the error named a
character that does not occur in the input.
---
 src/apint/serialization.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index fc14475..6480ce3 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -167,21 +167,16 @@ impl ApInt {
 
         // First normalize all characters to plain digit values.
         let mut v = Vec::with_capacity(input.len());
-        for (i, b) in input.bytes().enumerate() {
-            let d = match b {
-                b'0'..=b'9' => b - b'0',
-                b'a'..=b'z' => b - b'a' + 10,
-                b'A'..=b'Z' => b - b'A' + 10,
-                b'_' => continue,
+        for (i, ch) in input.char_indices() {
+            let d = match ch {
+                '0'..='9' => ch as u8 - b'0',
+                'a'..='z' => ch as u8 - b'a' + 10,
+                'A'..='Z' => ch as u8 - b'A' + 10,
+                '_' => continue,
                 _ => ::core::u8::MAX,
             };
             if !radix.is_valid_byte(d) {
-                return Err(Error::invalid_char_in_string_repr(
-                    input,
-                    radix,
-                    i,
-                    char::from(b),
-                ))
+                return Err(Error::invalid_char_in_string_repr(input, radix, i, ch))
             }
             v.push(d);
         }
-- 
2.43.0

