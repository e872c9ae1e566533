From 9a7a662bc1719a238af670157da5e7d1b492d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 01/36] fix: drop the last reference to a bigint instead of
 panicking

---
 nanvm-lib/src/js/any_internal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index dfc1ace..44b553d 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -13,6 +13,7 @@ use crate::{
 use super::{
     bitset::{ref_type, REF, REF_SUBSET_SUPERPOSITION},
     js_array::JsArray,
+    js_bigint::JsBigint,
     js_object::JsObject,
     js_string::JsString,
 };
@@ -71,6 +72,7 @@ impl<D: Dealloc> OptionalBlock for AnyInternal<D> {
             bitset::REF_TYPE_STRING => p.block::<JsString, D>().delete(),
             bitset::REF_TYPE_OBJECT => p.block::<JsObject<D>, D>().delete(),
             bitset::REF_TYPE_ARRAY => p.block::<JsArray<D>, D>().delete(),
+            bitset::REF_TYPE_BIGINT => p.block::<JsBigint, D>().delete(),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From c05ed41e428180dc93c8f9b939f1363335d2d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 02/36] fix: store every NaN as the canonical NaN in Any

---
 nanvm-lib/src/js/number.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nanvm-lib/src/js/number.rs b/nanvm-lib/src/js/number.rs
index 114a2c9..5a1fa61 100644
--- a/nanvm-lib/src/js/number.rs
+++ b/nanvm-lib/src/js/number.rs
@@ -2,6 +2,8 @@ use crate::mem::manager::Dealloc;
 
 use super::{any_cast::AnyCast, bitset::EXTENSION};
 
+const NAN_BITS: u64 = 0x7FF8_0000_0000_0000;
+
 impl<D: Dealloc> AnyCast<D> for f64 {
     #[inline(always)]
     unsafe fn has_same_type(u: u64) -> bool {
@@ -9,6 +11,10 @@ impl<D: Dealloc> AnyCast<D> for f64 {
     }
     #[inline(always)]
     unsafe fn move_to_any_internal(self) -> u64 {
+        // a NaN with another payload can look like a tagged value.
+        if self.is_nan() {
+            return NAN_BITS;
+        }
         self.to_bits()
     }
     #[inline(always)]
-- 
2.43.0


From ceb3c131fe034e12c57bff976b4babbaf85bf511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 03/36] fix: order negative bigints of the same length

---
 nanvm-lib/src/js/js_bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 8d86358..9c5972c 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -129,7 +129,10 @@ pub fn is_zero(value: &JsBigint) -> bool {
 impl JsBigint {
     pub fn compare(&self, other: &Self) -> Ordering {
         match self.header_len().cmp(&other.header_len()) {
-            Ordering::Equal => cmp_vec(self.items(), other.items()),
+            Ordering::Equal => match self.sign() {
+                Sign::Positive => cmp_vec(self.items(), other.items()),
+                Sign::Negative => cmp_vec(other.items(), self.items()),
+            },
             Ordering::Less => Ordering::Less,
             Ordering::Greater => Ordering::Greater,
         }
-- 
2.43.0


From 6f66dd80a4a29183d2967adb11555b2281aa1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 04/36] fix: order negative BigInts

---
 nanvm-lib/src/big_numbers/big_int.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 78ee4be..f78b4be 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -164,7 +164,10 @@ impl Ord for BigInt {
             return self.sign.cmp(&other.sign);
         }
 
-        self.value.cmp(&other.value)
+        match self.sign {
+            Sign::Positive => self.value.cmp(&other.value),
+            Sign::Negative => other.value.cmp(&self.value),
+        }
     }
 }
 
-- 
2.43.0


From ed04d0dc321a057463a81966012e9f0a242c2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 05/36] fix: keep the sign of an odd power of -1n

---
 nanvm-lib/src/js/js_bigint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 9c5972c..62e13e5 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -270,7 +270,11 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
     }
 
     if lhs.items().len() == 1 && lhs.items()[0] == 1 {
-        return from_u64(m, Sign::Positive, 1);
+        let sign = match rhs.get_last_bit() {
+            0 => Sign::Positive,
+            _ => lhs.sign(),
+        };
+        return from_u64(m, sign, 1);
     }
 
     if is_zero(lhs) {
-- 
2.43.0


From d13f3c68479cab3b3dbb8eee6cae48f00a7d39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 06/36] fix: carry all bits between words in a bigint right
 shift

---
 nanvm-lib/src/js/js_bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 62e13e5..672c779 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -590,7 +590,7 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     let shift_mod = rhs & ((1 << 6) - 1);
     if shift_mod > 0 {
         let len = vec.len();
-        let mask = 1 << (shift_mod - 1);
+        let mask = (1 << shift_mod) - 1;
         let mut i = 0;
         loop {
             vec[i] >>= shift_mod;
-- 
2.43.0


From cc4c81ccf43f003b309c5349e83eb518e8ec66cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 07/36] fix: round a right shift of a negative bigint toward
 negative infinity

---
 nanvm-lib/src/js/js_bigint.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 672c779..3b5a287 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -586,8 +586,12 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     let mut vec = lhs.items().to_vec();
-    vec = vec.split_off(number_to_remove);
+    let high = vec.split_off(number_to_remove);
     let shift_mod = rhs & ((1 << 6) - 1);
+    // a negative value is rounded toward negative infinity.
+    let round_up = lhs.sign() == Sign::Negative
+        && (vec.iter().any(|d| *d != 0) || high[0] & ((1 << shift_mod) - 1) != 0);
+    vec = high;
     if shift_mod > 0 {
         let len = vec.len();
         let mask = (1 << shift_mod) - 1;
@@ -603,8 +607,8 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     vec = normalize_vec(vec);
-    if vec.is_empty() && lhs.sign() == Sign::Negative {
-        return from_u64(m, Sign::Negative, 1);
+    if round_up {
+        vec = add_vec(&vec, &[1]);
     }
     new_bigint(m, lhs.sign(), vec)
 }
-- 
2.43.0


From 1e7fe143571474cf3d2d9f895008f15a1528c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 08/36] fix: keep the zero words of negative results of bigint
 bitwise operators

---
 nanvm-lib/src/js/js_bigint.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 3b5a287..b1f934a 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -407,18 +407,14 @@ fn to_twos_complement(value: &JsBigint) -> TwosComplement {
 
 fn from_twos_complement<M: Manager>(m: M, value: TwosComplement) -> JsBigintMutRef<M::Dealloc> {
     match value.sign {
-        Sign::Positive => new_bigint(m, Sign::Positive, value.vec),
+        Sign::Positive => new_bigint(m, Sign::Positive, normalize_vec(value.vec)),
         Sign::Negative => {
-            let sub = sub_vec(&value.vec, &[1]);
+            // zero words of a negative value are significant, so the magnitude is `!value + 1`.
             let mut res: Vec<u64> = default();
-            for d in sub {
+            for d in value.vec {
                 res.push(!d);
             }
-            res = normalize_vec(res);
-            if res.is_empty() {
-                return from_u64(m, Sign::Negative, 1);
-            }
-            new_bigint(m, Sign::Negative, res)
+            new_bigint(m, Sign::Negative, add_vec(&normalize_vec(res), &[1]))
         }
     }
 }
@@ -432,7 +428,6 @@ fn and_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a & b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -445,7 +440,6 @@ fn or_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosComplemen
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a | b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -458,7 +452,6 @@ fn xor_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a ^ b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
-- 
2.43.0


From 69243c04686da218cdc9b21793e6a4684c89f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 09/36] fix: bigint division with an overestimated quotient
 digit

---
 nanvm-lib/src/js/js_bigint.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index b1f934a..7ec86c7 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -226,34 +226,39 @@ pub fn div_mod<M: Manager>(
         Ordering::Less => (zero(m), new_bigint(m, sign, rhs.items().to_vec())),
         Ordering::Equal => (from_u64(m, sign, 1), zero(m)),
         Ordering::Greater => {
-            let mut a = lhs.items().to_vec();
-            let b = rhs.items();
+            // The divisor is scaled so that its high bit is set. Then an estimated quotient digit
+            // is too big by two at most.
+            let shift = rhs.items()[rhs.items().len() - 1].leading_zeros() as u64;
+            let mut a = shl_on_u64(m, lhs, shift).items().to_vec();
+            let scaled_rhs = shl_on_u64(m, rhs, shift);
+            let b = scaled_rhs.items();
             let mut result: Vec<u64> = default();
             loop {
                 if cmp_vec(&a, b) == Ordering::Less {
-                    return (new_bigint(m, sign, result), new_bigint(m, sign, a));
+                    let r = new_bigint(m, Sign::Positive, a);
+                    let r = shr_on_u64(m, &r, shift).items().to_vec();
+                    return (new_bigint(m, sign, result), new_bigint(m, sign, r));
                 }
                 let a_high_digit = a.len() - 1;
                 let b_high_digit = b.len() - 1;
                 let a_high = a[a_high_digit];
                 let b_high = b[b_high_digit];
-                let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                    Ordering::Less | Ordering::Equal => {
-                        (a_high_digit - b_high_digit, a_high / b_high)
-                    }
-                    Ordering::Greater => {
+                let (q_index, q_digit) = match cmp_vec(&a[a_high_digit - b_high_digit..], b) {
+                    Ordering::Greater | Ordering::Equal => (a_high_digit - b_high_digit, 1),
+                    Ordering::Less => {
                         let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
+                        let q_digit = a_high_2 / b_high as u128;
                         (
                             a_high_digit - b_high_digit - 1,
-                            (a_high_2 / b_high as u128) as u64,
+                            q_digit.min(u64::MAX as u128) as u64,
                         )
                     }
                 };
                 let mut q = new_resize(q_index + 1);
                 q[q_index] = q_digit;
                 let mut m = mul_vec(b, &q);
-                if a.cmp(&m) == Ordering::Less {
-                    q[q_index] = q_digit - 1;
+                while cmp_vec(&a, &m) == Ordering::Less {
+                    q[q_index] -= 1;
                     m = mul_vec(b, &q);
                 }
                 a = sub_vec(&a, &m);
-- 
2.43.0


From fe5f3e3b61ec0a396eac837d4b8e8dfaac5bdf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 10/36] fix: BigUint right shift by more than one bit or by
 more than u64::MAX

---
 nanvm-lib/src/big_numbers/big_uint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index a474620..f0ad77d 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -324,7 +324,7 @@ impl Shr for &BigUint {
         }
 
         let number_to_remove = (rhs.value[0] / 64) as usize;
-        if number_to_remove >= self.len() {
+        if rhs.len() != 1 || number_to_remove >= self.len() {
             return BigUint::ZERO;
         }
 
@@ -333,7 +333,7 @@ impl Shr for &BigUint {
         let shift_mod = rhs.value[0] & ((1 << 6) - 1);
         if shift_mod > 0 {
             let len = value.len();
-            let mask = 1 << (shift_mod - 1);
+            let mask = (1 << shift_mod) - 1;
             let mut i = 0;
             loop {
                 value[i] >>= shift_mod;
-- 
2.43.0


From ba5dda58d2103f4b0118b0081d33ab7a969f0581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 11/36] fix: canonical zero, i64::MIN and remainder sign of
 BigInt

---
 nanvm-lib/src/big_numbers/big_int.rs  | 23 +++++++----------------
 nanvm-lib/src/big_numbers/big_uint.rs |  4 +++-
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index f78b4be..970e0a4 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -3,8 +3,6 @@ use std::{
     ops::{Add, Div, Mul, Neg, Sub},
 };
 
-use crate::common::cast::Cast;
-
 use super::big_uint::BigUint;
 
 #[derive(Debug, PartialEq, Clone, Eq, Default)]
@@ -43,14 +41,13 @@ impl BigInt {
     }
 
     pub fn new(sign: Sign, value: BigUint) -> BigInt {
-        BigInt { sign, value }
+        let mut result = BigInt { sign, value };
+        result.normalize();
+        result
     }
 
     pub fn from_u64(n: u64) -> Self {
-        BigInt {
-            sign: Sign::Positive,
-            value: BigUint { value: [n].cast() },
-        }
+        BigInt::new(Sign::Positive, BigUint::from_u64(n))
     }
 
     pub fn abs(self) -> BigInt {
@@ -69,12 +66,7 @@ impl BigInt {
         } else {
             Sign::Positive
         };
-        BigInt {
-            sign,
-            value: BigUint {
-                value: [(n * sign as i64) as u64].cast(),
-            },
-        }
+        BigInt::new(sign, BigUint::from_u64(n.unsigned_abs()))
     }
 
     pub fn div_mod(&self, d: &Self) -> (BigInt, BigInt) {
@@ -88,7 +80,7 @@ impl BigInt {
         };
 
         let (q, r) = self.value.div_mod(&d.value);
-        (BigInt { sign, value: q }, BigInt { sign, value: r })
+        (BigInt::new(sign, q), BigInt::new(self.sign, r))
     }
 }
 
@@ -202,8 +194,7 @@ impl Div for &BigInt {
             false => Sign::Negative,
         };
 
-        let value = &self.value / &d.value;
-        BigInt { sign, value }
+        BigInt::new(sign, &self.value / &d.value)
     }
 }
 
diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index f0ad77d..796dbd4 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -45,7 +45,9 @@ impl BigUint {
     }
 
     pub fn from_u64(n: u64) -> Self {
-        BigUint { value: [n].cast() }
+        let mut result = BigUint { value: [n].cast() };
+        result.normalize();
+        result
     }
 
     pub fn pow(&self, exp: &BigUint) -> BigUint {
-- 
2.43.0


From 20b87b5858e7988f7da1cc458ac581adf12eb5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 12/36] fix: BigUint division with an overestimated quotient
 digit

---
 nanvm-lib/src/big_numbers/big_uint.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 796dbd4..c32e4ea 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -110,26 +110,32 @@ impl BigUint {
             Ordering::Less => (default(), self.clone()),
             Ordering::Equal => (BigUint { value: [1].cast() }, default()),
             Ordering::Greater => {
-                let mut a = self.clone();
+                // The divisor is scaled so that its high bit is set. Then an estimated quotient
+                // digit is too big by two at most.
+                let shift = BigUint::from_u64(b.value[b.len() - 1].leading_zeros() as u64);
+                let mut a = self << &shift;
+                let b = &(b << &shift);
                 let mut result = BigUint::ZERO;
                 loop {
                     if a.cmp(b) == Ordering::Less {
-                        return (result, a);
+                        return (result, &a >> &shift);
                     }
                     let a_high_digit = a.len() - 1;
                     let b_high_digit = b.len() - 1;
                     let a_high = a.value[a_high_digit];
                     let b_high = b.value[b_high_digit];
-                    let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                        Ordering::Less | Ordering::Equal => {
-                            (a_high_digit - b_high_digit, a_high / b_high)
-                        }
-                        Ordering::Greater => {
+                    let a_window = BigUint {
+                        value: a.value[a_high_digit - b_high_digit..].to_vec(),
+                    };
+                    let (q_index, q_digit) = match a_window.cmp(b) {
+                        Ordering::Greater | Ordering::Equal => (a_high_digit - b_high_digit, 1),
+                        Ordering::Less => {
                             let a_high_2 =
                                 ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
+                            let q_digit = a_high_2 / b_high as u128;
                             (
                                 a_high_digit - b_high_digit - 1,
-                                (a_high_2 / b_high as u128) as u64,
+                                q_digit.min(u64::MAX as u128) as u64,
                             )
                         }
                     };
@@ -138,8 +144,8 @@ impl BigUint {
                     };
                     q.value[q_index] = q_digit;
                     let mut m = b * &q;
-                    if a.cmp(&m) == Ordering::Less {
-                        q.value[q_index] = q_digit - 1;
+                    while a.cmp(&m) == Ordering::Less {
+                        q.value[q_index] -= 1;
                         m = b * &q;
                     }
                     a = &a - &m;
-- 
2.43.0


From 729fba4a9a546ff4fced79c280cd7c754c5b2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 13/36] fix: round values between half and all of the least
 subnormal up to it

---
 nanvm-lib/src/big_numbers/big_float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 77e01ad..b6c965f 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -210,7 +210,7 @@ impl<M: Manager> BigFloat<2, M> {
                 bits |= frac_bits;
                 bits
             }
-            -1074..=-1023 => {
+            -1075..=-1023 => {
                 let subnormal_precision = (f64_exp + 1076) as u64;
                 value.decrease_significand(subnormal_precision);
                 let frac = value.get_frac_round();
-- 
2.43.0


From a3d1802713e9f2e2c22096c4fca24421e0e5a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 14/36] fix: keep the sign of a zero number literal

---
 nanvm-lib/src/big_numbers/big_float.rs |  5 ++++-
 nanvm-lib/src/tokenizer/mod.rs         | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index b6c965f..e37fdae 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -83,7 +83,10 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
 impl<M: Manager> BigFloat<10, M> {
     pub fn to_bin(self, precision: u8) -> BigFloat<2, M> {
         if is_zero(self.significand.deref()) {
-            return float_zero(self.manager);
+            return BigFloat {
+                sign: self.sign,
+                ..float_zero(self.manager)
+            };
         }
 
         if self.exp == 0 {
diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 97ade5c..206ecf0 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -158,7 +158,7 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             | TokenizerState::ParseMultilineCommentAsterix => {
                 [JsonToken::ErrorToken(ErrorType::CommentClosingExpected)].cast()
             }
-            TokenizerState::ParseZero(_) => [JsonToken::Number(default())].cast(),
+            TokenizerState::ParseZero(s) => [zero_token(s)].cast(),
             TokenizerState::ParseInt(s) => [int_state_into_number_token(manager, s)].cast(),
             TokenizerState::ParseFrac(s) => [float_state_into_token(manager, s)].cast(),
             TokenizerState::ParseExp(s) => [exp_state_into_token(manager, s)].cast(),
@@ -258,6 +258,13 @@ impl<D: Dealloc> IntState<D> {
     }
 }
 
+fn zero_token<D: Dealloc>(s: Sign) -> JsonToken<D> {
+    JsonToken::Number(match s {
+        Sign::Positive => 0.0,
+        Sign::Negative => -0.0,
+    })
+}
+
 fn int_state_into_number_token<M: Manager>(
     manager: M,
     state: IntState<M::Dealloc>,
@@ -694,10 +701,10 @@ fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
                         )
                     }) as Func<M>,
                 ),
-                create_range_map(terminal_for_number(), |manager, _, c, maps| {
+                create_range_map(terminal_for_number(), |manager, s, c, maps| {
                     transfer_state(
                         manager,
-                        [JsonToken::Number(default())].cast(),
+                        [zero_token(s)].cast(),
                         TokenizerState::Initial,
                         c,
                         maps,
-- 
2.43.0


From e6e5f796a1d2e57db6d2b6337c67c96a20a68d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 15/36] fix: number literals with a huge exponent

---
 nanvm-lib/src/tokenizer/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 206ecf0..9675a14 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -208,7 +208,13 @@ impl ParseUnicodeCharState {
 }
 
 pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
-    let bf_2 = bf_10.to_bin(54);
+    // Decimal exponents which are certainly out of the range of `f64` are replaced by the nearest
+    // ones that still are: `10^400` is infinity, `10^-400` is zero.
+    const MAX_EXP: i64 = 400;
+    // a word has 20 decimal digits at most.
+    let digits = 20 * bf_10.significand.items().len() as i64;
+    let exp = bf_10.exp.clamp(-MAX_EXP - digits, MAX_EXP);
+    let bf_2 = BigFloat { exp, ..bf_10 }.to_bin(54);
     bf_2.to_f64()
 }
 
@@ -325,7 +331,10 @@ pub struct ExpState<D: Dealloc> {
 
 impl<D: Dealloc> ExpState<D> {
     const fn add_digit(mut self, c: char) -> ExpState<D> {
-        self.e = self.e * 10 + digit_to_number(c) as i64;
+        self.e = self
+            .e
+            .saturating_mul(10)
+            .saturating_add(digit_to_number(c) as i64);
         self
     }
 }
@@ -334,11 +343,10 @@ fn exp_state_into_token<M: Manager>(
     manager: M,
     state: ExpState<M::Dealloc>,
 ) -> JsonToken<M::Dealloc> {
-    let exp = state.fe
-        + match state.es {
-            Sign::Positive => state.e,
-            Sign::Negative => -state.e,
-        };
+    let exp = state.fe.saturating_add(match state.es {
+        Sign::Positive => state.e,
+        Sign::Negative => -state.e,
+    });
     JsonToken::Number(bigfloat_to_f64(BigFloat {
         manager,
         significand: state.b,
-- 
2.43.0


From aa351113da7907965fea2069b52443ceb09a525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 16/36] fix: reject an exponent without digits before a
 terminal character

---
 nanvm-lib/src/tokenizer/mod.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 9675a14..6708878 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -108,9 +108,8 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseExpBegin(s) => {
                 get_next_state(manager, s, c, &maps.exp_begin, maps)
             }
-            TokenizerState::ParseExpSign(s) | TokenizerState::ParseExp(s) => {
-                get_next_state(manager, s, c, &maps.exp, maps)
-            }
+            TokenizerState::ParseExpSign(s) => get_next_state(manager, s, c, &maps.exp_sign, maps),
+            TokenizerState::ParseExp(s) => get_next_state(manager, s, c, &maps.exp, maps),
             TokenizerState::ParseBigInt(s) => get_next_state(manager, s, c, &maps.big_int, maps),
             TokenizerState::ParseNewLine => get_next_state(manager, (), c, &maps.new_line, maps),
             TokenizerState::ParseCommentStart => {
@@ -453,6 +452,7 @@ pub struct TransitionMaps<M: Manager> {
     frac_begin: TransitionMap<IntState<M::Dealloc>, M>,
     frac: TransitionMap<FloatState<M::Dealloc>, M>,
     exp_begin: TransitionMap<ExpState<M::Dealloc>, M>,
+    exp_sign: TransitionMap<ExpState<M::Dealloc>, M>,
     exp: TransitionMap<ExpState<M::Dealloc>, M>,
     big_int: TransitionMap<JsBigintMutRef<M::Dealloc>, M>,
     new_line: TransitionMap<(), M>,
@@ -476,6 +476,7 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         frac_begin: create_frac_begin_transactions(),
         frac: create_frac_transactions(),
         exp_begin: create_exp_begin_transactions(),
+        exp_sign: create_exp_sign_transactions(),
         exp: create_exp_transactions(),
         big_int: create_big_int_transactions(),
         new_line: create_new_line_transactions(),
@@ -857,21 +858,23 @@ fn create_exp_begin_transactions<M: Manager + 'static>() -> TransitionMap<ExpSta
                         TokenizerState::ParseExpSign(s)
                     })
                 }),
-                create_range_map(terminal_for_number(), |manager, s, c, maps| {
-                    transfer_state(
-                        manager,
-                        [exp_state_into_token(manager, s)].cast(),
-                        TokenizerState::Initial,
-                        c,
-                        maps,
-                    )
-                }),
             ]
             .cast(),
         ),
     }
 }
 
+fn create_exp_sign_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
+    type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_number(manager, c, maps)) as Func<M>,
+        rm: from_range(
+            '0'..='9',
+            (|_, s, c, _| (default(), TokenizerState::ParseExp(s.add_digit(c)))) as Func<M>,
+        ),
+    }
+}
+
 fn create_exp_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
     type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
     TransitionMap {
-- 
2.43.0


From 479bbad40959ab806da840cc217f5d66c8175432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 17/36] fix: a raw line terminator does not continue a string
 literal

---
 nanvm-lib/src/tokenizer/mod.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 6708878..7e1e3c4 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -563,19 +563,34 @@ fn create_id_transitions<M: Manager + 'static>() -> TransitionMap<String, M> {
     }
 }
 
-fn create_string_transactions<M: Manager>() -> TransitionMap<String, M> {
+fn create_string_transactions<M: Manager + 'static>() -> TransitionMap<String, M> {
+    type Func<M> = TransitionFunc<M, String>;
     TransitionMap {
         def: |_, mut s, c, _| {
             s.push(c);
             (default(), TokenizerState::ParseString(s))
         },
-        rm: merge(
-            from_one('"', |_, s, _, _| {
-                ([JsonToken::String(s)].cast(), TokenizerState::Initial)
-            }),
-            from_one('\\', |_, s, _, _| {
-                (default(), TokenizerState::ParseEscapeChar(s))
-            }),
+        rm: merge_list(
+            [
+                from_one(
+                    '"',
+                    (|_, s, _, _| ([JsonToken::String(s)].cast(), TokenizerState::Initial))
+                        as Func<M>,
+                ),
+                from_one('\\', |_, s, _, _| {
+                    (default(), TokenizerState::ParseEscapeChar(s))
+                }),
+                create_range_map(set(NEW_LINE_CHARS), |manager, _, c, maps| {
+                    transfer_state(
+                        manager,
+                        [JsonToken::ErrorToken(ErrorType::MissingQuotes)].cast(),
+                        TokenizerState::Initial,
+                        c,
+                        maps,
+                    )
+                }),
+            ]
+            .cast(),
         ),
     }
 }
-- 
2.43.0


From 8b4798ed8da1d77f43d7981fe042199372d7ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 18/36] fix: decode escaped surrogate pairs in string literals

---
 nanvm-lib/src/tokenizer/mod.rs | 60 +++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 7e1e3c4..50e2538 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -64,6 +64,8 @@ pub enum TokenizerState<D: Dealloc> {
     ParseString(String),
     ParseEscapeChar(String),
     ParseUnicodeChar(ParseUnicodeCharState),
+    ParseLowSurrogate(ParseUnicodeCharState),
+    ParseLowSurrogateU(ParseUnicodeCharState),
     ParseMinus,
     ParseZero(Sign),
     ParseInt(IntState<D>),
@@ -98,6 +100,12 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseUnicodeChar(s) => {
                 get_next_state(manager, s, c, &maps.unicode_char, maps)
             }
+            TokenizerState::ParseLowSurrogate(s) => {
+                get_next_state(manager, s, c, &maps.low_surrogate, maps)
+            }
+            TokenizerState::ParseLowSurrogateU(s) => {
+                get_next_state(manager, s, c, &maps.low_surrogate_u, maps)
+            }
             TokenizerState::ParseZero(s) => get_next_state(manager, s, c, &maps.zero, maps),
             TokenizerState::ParseInt(s) => get_next_state(manager, s, c, &maps.int, maps),
             TokenizerState::ParseMinus => get_next_state(manager, (), c, &maps.minus, maps),
@@ -147,7 +155,9 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseId(s) => [JsonToken::Id(s)].cast(),
             TokenizerState::ParseString(_)
             | TokenizerState::ParseEscapeChar(_)
-            | TokenizerState::ParseUnicodeChar(_) => {
+            | TokenizerState::ParseUnicodeChar(_)
+            | TokenizerState::ParseLowSurrogate(_)
+            | TokenizerState::ParseLowSurrogateU(_) => {
                 [JsonToken::ErrorToken(ErrorType::MissingQuotes)].cast()
             }
             TokenizerState::ParseCommentStart => {
@@ -175,6 +185,8 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
 
 pub struct ParseUnicodeCharState {
     s: String,
+    /// the high surrogate of a surrogate pair, if it is already parsed.
+    high: Option<u16>,
     unicode: u32,
     index: u8,
 }
@@ -187,10 +199,20 @@ impl ParseUnicodeCharState {
         let new_unicode = self.unicode | (i << ((3 - self.index) * 4));
         match self.index {
             3 => {
-                let c = char::from_u32(new_unicode);
-                match c {
-                    Some(c) => continue_string_state::<M>(self.s, c),
-                    None => (
+                let unit = new_unicode as u16;
+                if self.high.is_none() && matches!(unit, 0xD800..=0xDBFF) {
+                    let state = ParseUnicodeCharState {
+                        s: self.s,
+                        high: Some(unit),
+                        unicode: 0,
+                        index: 0,
+                    };
+                    return (default(), TokenizerState::ParseLowSurrogate(state));
+                }
+                let mut c = char::decode_utf16(self.high.into_iter().chain([unit]));
+                match c.next() {
+                    Some(Ok(c)) => continue_string_state::<M>(self.s, c),
+                    _ => (
                         [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
                         TokenizerState::Initial,
                     ),
@@ -446,6 +468,8 @@ pub struct TransitionMaps<M: Manager> {
     string: TransitionMap<String, M>,
     escape_char: TransitionMap<String, M>,
     unicode_char: TransitionMap<ParseUnicodeCharState, M>,
+    low_surrogate: TransitionMap<ParseUnicodeCharState, M>,
+    low_surrogate_u: TransitionMap<ParseUnicodeCharState, M>,
     zero: TransitionMap<Sign, M>,
     int: TransitionMap<IntState<M::Dealloc>, M>,
     minus: TransitionMap<(), M>,
@@ -470,6 +494,12 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         string: create_string_transactions(),
         escape_char: create_escape_char_transactions(),
         unicode_char: create_unicode_char_transactions(),
+        low_surrogate: create_low_surrogate_transactions('\\', |_, state, _, _| {
+            (default(), TokenizerState::ParseLowSurrogateU(state))
+        }),
+        low_surrogate_u: create_low_surrogate_transactions('u', |_, state, _, _| {
+            (default(), TokenizerState::ParseUnicodeChar(state))
+        }),
         zero: create_zero_transactions(),
         int: create_int_transactions(),
         minus: create_minus_transactions(),
@@ -642,6 +672,7 @@ fn create_escape_char_transactions<M: Manager + 'static>() -> TransitionMap<Stri
                         default(),
                         TokenizerState::ParseUnicodeChar(ParseUnicodeCharState {
                             s,
+                            high: None,
                             unicode: 0,
                             index: 0,
                         }),
@@ -686,6 +717,25 @@ fn create_unicode_char_transactions<M: Manager + 'static>(
     }
 }
 
+/// After an escaped high surrogate only an escaped low surrogate is valid.
+fn create_low_surrogate_transactions<M: Manager + 'static>(
+    expected: char,
+    f: TransitionFunc<M, ParseUnicodeCharState>,
+) -> TransitionMap<ParseUnicodeCharState, M> {
+    TransitionMap {
+        def: |manager, _, c, maps| {
+            transfer_state(
+                manager,
+                [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+                TokenizerState::Initial,
+                c,
+                maps,
+            )
+        },
+        rm: from_one(expected, f),
+    }
+}
+
 fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
     type Func<M> = TransitionFunc<M, Sign>;
     TransitionMap {
-- 
2.43.0


From 5a3807fe089b16fc1389f16c5b2d204ee72e59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 19/36] fix: range maps of characters at '\0' and next to the
 surrogate gap

---
 nanvm-lib/src/range_map.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/nanvm-lib/src/range_map.rs b/nanvm-lib/src/range_map.rs
index 7732c09..28bb7c0 100644
--- a/nanvm-lib/src/range_map.rs
+++ b/nanvm-lib/src/range_map.rs
@@ -164,23 +164,30 @@ where
 
 pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
     RangeMap {
-        list: [
-            Entry {
-                key: char::from_u32(*range.start() as u32 - 1).unwrap_or(*range.start()),
-                value: State { value: None },
-            },
-            Entry {
+        list: match ('\0'..*range.start()).next_back() {
+            Some(p) => [
+                Entry {
+                    key: p,
+                    value: State { value: None },
+                },
+                Entry {
+                    key: *range.end(),
+                    value: State { value: Some(value) },
+                },
+            ]
+            .cast(),
+            None => [Entry {
                 key: *range.end(),
                 value: State { value: Some(value) },
-            },
-        ]
-        .cast(),
+            }]
+            .cast(),
+        },
     }
 }
 
 pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
     RangeMap {
-        list: match char::from_u32(c as u32 - 1) {
+        list: match ('\0'..c).next_back() {
             Some(p) => [
                 Entry {
                     key: p,
-- 
2.43.0


From 884b746979595c21a083ea8c89b1bc3dc306a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 20/36] fix: a semicolon inside a const value is an error, not
 a panic

---
 nanvm-lib/src/parser/const_state.rs | 3 ++-
 nanvm-lib/src/parser/parser.rs      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/const_state.rs b/nanvm-lib/src/parser/const_state.rs
index 9f9b057..ff44c2f 100644
--- a/nanvm-lib/src/parser/const_state.rs
+++ b/nanvm-lib/src/parser/const_state.rs
@@ -2,6 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     json_state::JsonState,
     root_state::{RootState, RootStatus},
+    shared::ParseError,
 };
 use crate::{mem::manager::Manager, tokenizer::JsonToken};
 
@@ -13,7 +14,7 @@ pub struct ConstState<M: Manager> {
 impl<M: Manager> ConstState<M> {
     pub fn parse(self, manager: M, token: JsonToken<M::Dealloc>) -> JsonState<M> {
         match token {
-            JsonToken::Semicolon => todo!(),
+            JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
             _ => {
                 // TODO: use import_path in place of _ below to track possible errors -
                 // or provide an explanation on why it's not necessary.
diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index ef2584d..198f993 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -42,7 +42,7 @@ fn const_state_parse<M: Manager + 'static, I: Io>(
     token: JsonToken<M::Dealloc>,
 ) -> JsonState<M> {
     match token {
-        JsonToken::Semicolon => todo!(),
+        JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
         _ => {
             let result = any_state_parse(const_state.state, context, token);
             match result {
-- 
2.43.0


From 35bbef35f0f488aaec4201b001eca7ac3e1c2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 21/36] fix: a semicolon ends a const or import statement

---
 nanvm-lib/src/parser/root_state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 1b6c122..fbe45ed 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -41,6 +41,13 @@ impl<M: Manager> RootState<M> {
                     }),
                     None,
                 ),
+                JsonToken::Semicolon if !self.new_line => (
+                    JsonState::ParseRoot(RootState {
+                        new_line: true,
+                        ..self
+                    }),
+                    None,
+                ),
                 JsonToken::Id(s) => match self.new_line {
                     true => match s.as_ref() {
                         "const" => (
-- 
2.43.0


From f65817f6e3081e140030765b7ee983c1389b6ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 22/36] fix: accept require as any item of an array

---
 nanvm-lib/src/parser/any_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 59716bb..a48c7b1 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -262,7 +262,7 @@ impl<M: Manager> AnyState<M> {
         match token {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ObjectBegin => self.begin_object(),
-            JsonToken::Id(s) if self.data_type == DataType::Cjs && s == "require" => {
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
                 self.begin_import()
             }
             JsonToken::ArrayEnd => self.end_array(manager),
@@ -281,6 +281,9 @@ impl<M: Manager> AnyState<M> {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ArrayEnd => self.end_array(manager),
             JsonToken::ObjectBegin => self.begin_object(),
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
+                self.begin_import()
+            }
             _ => {
                 let option_any = token.try_to_any(manager, &self.consts);
                 match option_any {
-- 
2.43.0


From d4c24ec6c7848cd69913e9a39d567a7e5057d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 23/36] fix: accept an identifier as any key of an object in a
 module

---
 nanvm-lib/src/parser/any_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index a48c7b1..6863ec2 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -355,6 +355,7 @@ impl<M: Manager> AnyState<M> {
     pub fn parse_object_comma(self, manager: M, token: JsonToken<M::Dealloc>) -> AnyResult<M> {
         match token {
             JsonToken::String(s) => self.push_key(s),
+            JsonToken::Id(s) if self.data_type.is_djs() => self.push_key(s),
             JsonToken::ObjectEnd => self.end_object(manager),
             _ => AnyResult::Error(ParseError::UnexpectedToken),
         }
-- 
2.43.0


From e6dccdd0eecc9d9ada63d94e818ddccac139970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 24/36] fix: require without a context that can import is an
 error, not a panic

---
 nanvm-lib/src/parser/any_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 6863ec2..2f4dc4a 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -185,7 +185,7 @@ impl<M: Manager> AnyState<M> {
                 };
                 new_state.push_value(any)
             }
-            _ => unreachable!(),
+            _ => AnyResult::Error(ParseError::WrongRequireStatement),
         }
     }
 
-- 
2.43.0


From cbb08d73c51cb4bb8c5fd7b2e614a776cb6d2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 25/36] fix: a single dot in a path is the folder itself

---
 nanvm-lib/src/parser/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 79f97e7..19f40e3 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -5,7 +5,7 @@ pub fn normalize(path: &str) -> String {
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
         match dir {
-            "" => {}
+            "" | "." => {}
             ".." => {
                 let last = result_split.last();
                 match last {
-- 
2.43.0


From ebf2f2c7a83b79144537d005d1795563dcc1f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 26/36] fix: keep the root of an absolute path

---
 nanvm-lib/src/parser/path.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 19f40e3..65ad795 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -12,6 +12,8 @@ pub fn normalize(path: &str) -> String {
                     Some(x) if x != &".." => {
                         result_split.pop();
                     }
+                    // there is nothing above the root.
+                    None if path.starts_with('/') => {}
                     _ => {
                         result_split.push(dir);
                     }
@@ -22,12 +24,18 @@ pub fn normalize(path: &str) -> String {
             }
         }
     }
-    result_split.join("/")
+    let result = result_split.join("/");
+    match path.starts_with('/') {
+        true => format!("/{result}"),
+        false => result,
+    }
 }
 
 pub fn concat(a: &str, b: &str) -> String {
     let mut concat = a.to_string();
-    concat.push('/');
+    if !a.is_empty() {
+        concat.push('/');
+    }
     concat.push_str(b);
     normalize(&concat)
 }
@@ -35,6 +43,7 @@ pub fn concat(a: &str, b: &str) -> String {
 pub fn split(path: &str) -> (&str, &str) {
     match path.rsplit_once('/') {
         None => (default(), path),
+        Some(("", file)) => ("/", file),
         Some(t) => t,
     }
 }
-- 
2.43.0


From e501445261ff432a2a272414f9e63879738db8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 27/36] fix: resolve the imports of an imported module relative
 to that module

---
 nanvm-lib/src/parser/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 198f993..781b9ad 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -34,6 +34,11 @@ impl<'a, M: Manager, I: Io> Context<'a, M, I> {
             module_cache,
         }
     }
+
+    /// The context of an imported module.
+    fn module(&mut self, path: String) -> Context<M, I> {
+        Context::new(self.manager, self.io, path, self.module_cache)
+    }
 }
 
 fn const_state_parse<M: Manager + 'static, I: Io>(
@@ -103,7 +108,8 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             match read_result {
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
-                    let res = parse_with_tokens(context, tokens.into_iter());
+                    let mut module_context = context.module(current_path.clone());
+                    let res = parse_with_tokens(&mut module_context, tokens.into_iter());
                     match res {
                         Ok(r) => {
                             context.module_cache.progress.remove(&current_path);
@@ -176,7 +182,8 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 match read_result {
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
-                        let res = parse_with_tokens(context, tokens.into_iter());
+                        let mut module_context = context.module(current_path.clone());
+                        let res = parse_with_tokens(&mut module_context, tokens.into_iter());
                         match res {
                             Ok(r) => {
                                 context.module_cache.progress.remove(&current_path);
-- 
2.43.0


From 6d55100c54a8feaccbf8ae799970320d8167747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 28/36] fix: normalize the path of the root module to detect
 its cycles

---
 nanvm-lib/src/parser/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 781b9ad..6a91188 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -2,7 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     const_state::ConstState,
     json_state::JsonState,
-    path::{concat, split},
+    path::{concat, normalize, split},
     root_state::{RootState, RootStatus},
     shared::{JsonElement, ModuleCache, ParseError, ParseResult, ParsingStatus},
 };
@@ -232,7 +232,10 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    context.module_cache.progress.insert(context.path.clone());
+    context
+        .module_cache
+        .progress
+        .insert(normalize(&context.path));
     let read_result = context.io.read_to_string(context.path.as_str());
     match read_result {
         Ok(s) => {
-- 
2.43.0


From a119ab21fc4d7ffe55936b186bc42141080bdfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 29/36] fix: a name can be declared only once in a module

---
 nanvm-lib/src/parser/any_state.rs  | 5 +++++
 nanvm-lib/src/parser/root_state.rs | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 2f4dc4a..b4cd17b 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -67,6 +67,11 @@ impl<M: Manager> AnyState<M> {
         }
     }
 
+    /// Whether a const or an import of the name can be added to the module.
+    pub fn is_declarable(&self, name: &str) -> bool {
+        !matches!(name, "null" | "true" | "false") && !self.consts.contains_key(name)
+    }
+
     pub fn parse(
         self,
         manager: M,
diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index fbe45ed..36948b3 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -138,7 +138,7 @@ impl<M: Manager> RootState<M> {
                 _ => (JsonState::Error(ParseError::WrongExportStatement), None),
             },
             RootStatus::Const => match token {
-                JsonToken::Id(s) => (
+                JsonToken::Id(s) if self.state.is_declarable(&s) => (
                     JsonState::ParseRoot(RootState {
                         status: RootStatus::ConstId(s),
                         state: self.state,
@@ -159,7 +159,7 @@ impl<M: Manager> RootState<M> {
                 _ => (JsonState::Error(ParseError::WrongConstStatement), None),
             },
             RootStatus::Import => match token {
-                JsonToken::Id(s) => (
+                JsonToken::Id(s) if self.state.is_declarable(&s) => (
                     JsonState::ParseRoot(RootState {
                         status: RootStatus::ImportId(s),
                         state: self.state,
-- 
2.43.0


From f5302ccd3a915f08ec261550ded34d27f91ad23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 30/36] fix: values without a JSON form are an error of the
 serializer

---
 nanvm-lib/src/serializer/to_json.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index cf18014..53ccdfe 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -75,6 +75,8 @@ pub trait WriteJson: Write {
     fn write_json(&mut self, any: Any<impl Dealloc>) -> fmt::Result {
         match to_visitor(any) {
             // TODO: replace with proper JSON number serializer.
+            // There are no such numbers in JSON.
+            Visitor::Number(n) if !n.is_finite() => Err(fmt::Error),
             Visitor::Number(n) => self.write_str(n.to_string().as_str()),
             Visitor::Null => self.write_str("null"),
             Visitor::Bool(b) => self.write_str(if b { "true" } else { "false" }),
@@ -85,7 +87,8 @@ pub trait WriteJson: Write {
                 w.write_json(v.clone())
             }),
             Visitor::Array(a) => self.write_list('[', ']', a, |w, i| w.write_json(i.clone())),
-            Visitor::Bigint(_) => todo!(),
+            // There are no bigints in JSON.
+            Visitor::Bigint(_) => Err(fmt::Error),
         }
     }
 }
-- 
2.43.0


From febac4f4634e0f20eb496d8680977aadc6d73c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 31/36] fix: write the consts of a module in the order of the
 value

---
 nanvm-lib/src/serializer/to_djs.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 4df0d51..7b1924f 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -70,6 +70,9 @@ fn write_compound_const<D: Dealloc>(
     to_be_consts: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
+    if const_refs.contains_key(any) {
+        return Ok(());
+    }
     any.for_each(|_k, v| write_consts_and_any(write_json, v, to_be_consts, const_refs))?;
     if to_be_consts.remove(any).is_some() {
         let id = const_refs.len();
@@ -102,24 +105,6 @@ fn write_consts_and_any<D: Dealloc>(
     fmt::Result::Ok(())
 }
 
-/// Peeks one value from a hash map. This helper resolves a borrowing issue in write_consts - that
-/// function needs to iterate through a hash map while mutating that hash map.
-fn peek<D: Dealloc>(hash_map: &HashMap<Any<D>, Seen>) -> Option<Any<D>> {
-    Some(hash_map.iter().next()?.0.clone())
-}
-
-/// Writes const definitions for objects, arrays in the right order (with no forward references).
-fn write_consts<D: Dealloc>(
-    write_json: &mut (impl WriteJson + ?Sized),
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
-    const_refs: &mut HashMap<Any<D>, usize>,
-) -> fmt::Result {
-    while let Some(any) = peek(to_be_consts) {
-        write_consts_and_any(write_json, &any, to_be_consts, const_refs)?;
-    }
-    fmt::Result::Ok(())
-}
-
 /// Writes `any` using const references.
 fn write_with_const_refs<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
@@ -173,7 +158,8 @@ pub trait WriteDjs: WriteJson {
         const_tracker
             .visited
             .retain(|_, seen| *seen == Seen::Repeatedly);
-        write_consts(self, &mut const_tracker.visited, &mut const_refs)?;
+        // Const definitions for objects, arrays in the right order (with no forward references).
+        write_consts_and_any(self, &any, &mut const_tracker.visited, &mut const_refs)?;
         if common_js {
             self.write_str("module.exports=")?;
         } else {
-- 
2.43.0


From 2e4b3ad18180c389439d620883a62e8e002580d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 32/36] fix: write bigints in modules

---
 nanvm-lib/src/serializer/to_djs.rs | 33 +++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 7b1924f..de11aa1 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -1,5 +1,7 @@
 use crate::{
-    js::{any::Any, js_array::JsArrayRef, js_object::JsObjectRef, type_::Type},
+    js::{
+        any::Any, js_array::JsArrayRef, js_bigint::JsBigintRef, js_object::JsObjectRef, type_::Type,
+    },
     mem::manager::Dealloc,
 };
 
@@ -105,6 +107,34 @@ fn write_consts_and_any<D: Dealloc>(
     fmt::Result::Ok(())
 }
 
+/// Writes a bigint literal.
+fn write_bigint<D: Dealloc>(
+    write_json: &mut (impl WriteJson + ?Sized),
+    value: JsBigintRef<D>,
+) -> fmt::Result {
+    let mut words = value.items().to_vec();
+    let mut digits = Vec::default();
+    loop {
+        let mut rem = 0;
+        for word in words.iter_mut().rev() {
+            let dividend = (rem << u64::BITS) | *word as u128;
+            *word = (dividend / 10) as u64;
+            rem = dividend % 10;
+        }
+        digits.push(b'0' + rem as u8);
+        if words.iter().all(|&word| word == 0) {
+            break;
+        }
+    }
+    if value.header_len() < 0 {
+        write_json.write_char('-')?;
+    }
+    for &digit in digits.iter().rev() {
+        write_json.write_char(digit as char)?;
+    }
+    write_json.write_char('n')
+}
+
 /// Writes `any` using const references.
 fn write_with_const_refs<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
@@ -142,6 +172,7 @@ fn write_with_const_refs<D: Dealloc>(
                 )
             }
         }
+        Type::Bigint => write_bigint(write_json, any.try_move().unwrap()),
         _ => write_json.write_json(any),
     }
 }
-- 
2.43.0


From 5899edc3e2282e8e51694a445c160f889dd43190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 33/36] fix: missing arguments are an error, not a panic

---
 nanvm-lib/src/app/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/app/mod.rs b/nanvm-lib/src/app/mod.rs
index b574a57..a516ed6 100644
--- a/nanvm-lib/src/app/mod.rs
+++ b/nanvm-lib/src/app/mod.rs
@@ -13,9 +13,13 @@ use crate::{
 
 pub fn run(io: &impl Io) -> io::Result<()> {
     let mut a = io.args();
-    a.next().unwrap();
-    let input = a.next().unwrap();
-    let output = a.next().unwrap();
+    let mut arg = || {
+        a.next()
+            .ok_or_else(|| Error::other("usage: nanvm INPUT OUTPUT"))
+    };
+    arg()?;
+    let input = arg()?;
+    let output = arg()?;
 
     let mc = &mut default();
     let mut context = Context::new(GLOBAL, io, input, mc);
-- 
2.43.0


From 8cbeb2f985b64615f2b39f8076afa6e8b2efa963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 34/36] fix: report an error of the conversion

---
 nanvm/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm/src/main.rs b/nanvm/src/main.rs
index 3662f75..e9573ad 100644
--- a/nanvm/src/main.rs
+++ b/nanvm/src/main.rs
@@ -1,6 +1,6 @@
 use io_impl::RealIo;
 use nanvm_lib::app::run;
 
-fn main() {
-    let _ = run(&RealIo::default());
+fn main() -> std::io::Result<()> {
+    run(&RealIo::default())
 }
-- 
2.43.0


From a7ba2da494318ff474c481144519727570cb8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 35/36] hook: reach the private arena from the verification
 harness (cfg nanvm_verif)

---
 nanvm-lib/src/mem/arena.rs | 9 +++++++++
 nanvm-lib/src/mem/mod.rs   | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/nanvm-lib/src/mem/arena.rs b/nanvm-lib/src/mem/arena.rs
index f2554e4..371eaa1 100644
--- a/nanvm-lib/src/mem/arena.rs
+++ b/nanvm-lib/src/mem/arena.rs
@@ -58,6 +58,15 @@ impl Manager for &Arena<'_> {
     }
 }
 
+/// Access to the arena for the verification harness.
+#[cfg(nanvm_verif)]
+pub fn verif_alloc(buffer: &mut [u8], layouts: &[Layout], mut f: impl FnMut(*mut u8)) {
+    let arena = Arena::new(buffer);
+    for &layout in layouts {
+        f(unsafe { arena.alloc(layout) });
+    }
+}
+
 #[cfg(test)]
 mod test {
     use wasm_bindgen_test::wasm_bindgen_test;
diff --git a/nanvm-lib/src/mem/mod.rs b/nanvm-lib/src/mem/mod.rs
index 43636f2..7aee334 100644
--- a/nanvm-lib/src/mem/mod.rs
+++ b/nanvm-lib/src/mem/mod.rs
@@ -1,4 +1,8 @@
+#![allow(unexpected_cfgs)]
+#[cfg(not(nanvm_verif))]
 mod arena;
+#[cfg(nanvm_verif)]
+pub mod arena;
 pub mod block;
 pub mod block_header;
 mod constructor;
-- 
2.43.0


From 7b02950bee3dd770a2cc255cc9d69802870ac025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 36/36] fix: name the lifetime of the context of an imported
 module

---
 nanvm-lib/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 6a91188..28268d8 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -36,7 +36,7 @@ impl<'a, M: Manager, I: Io> Context<'a, M, I> {
     }
 
     /// The context of an imported module.
-    fn module(&mut self, path: String) -> Context<M, I> {
+    fn module(&mut self, path: String) -> Context<'_, M, I> {
         Context::new(self.manager, self.io, path, self.module_cache)
     }
 }
-- 
2.43.0

