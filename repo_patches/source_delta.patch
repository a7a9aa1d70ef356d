From 6be92fb12c49e5308518a83e22d891ad7e471ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:54 +0000
Subject: [PATCH 1/3] fix: ml-kem: reduce field elements without branching on
 them

---
 ml-kem/src/algebra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ml-kem/src/algebra.rs b/ml-kem/src/algebra.rs
index dad1de0..c641e6b 100644
--- a/ml-kem/src/algebra.rs
+++ b/ml-kem/src/algebra.rs
@@ -33,12 +33,13 @@ impl FieldElement {
     const BARRETT_MULTIPLIER: u64 = (1 << Self::BARRETT_SHIFT) / Self::Q64;
 
     // A fast modular reduction for small numbers `x < 2*q`
+    //
+    // `x` is often derived from a secret, so there must be no branch on it: the borrow of `x - q`
+    // is turned into a mask that selects whether `q` is added back.
     fn small_reduce(x: u16) -> u16 {
-        if x < Self::Q {
-            x
-        } else {
-            x - Self::Q
-        }
+        let diff = x.wrapping_sub(Self::Q);
+        let borrow = 0u16.wrapping_sub(diff >> 15);
+        diff.wrapping_add(Self::Q & borrow)
     }
 
     fn barrett_reduce(x: u32) -> u16 {
-- 
2.43.0


From 8f20da07e9df352294a80ec10e831166868fae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 2/3] fix: ml-kem: decode 12-bit values without dividing
 secrets

---
 ml-kem/src/algebra.rs | 2 +-
 ml-kem/src/encode.rs  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml-kem/src/algebra.rs b/ml-kem/src/algebra.rs
index c641e6b..5cd0666 100644
--- a/ml-kem/src/algebra.rs
+++ b/ml-kem/src/algebra.rs
@@ -36,7 +36,7 @@ impl FieldElement {
     //
     // `x` is often derived from a secret, so there must be no branch on it: the borrow of `x - q`
     // is turned into a mask that selects whether `q` is added back.
-    fn small_reduce(x: u16) -> u16 {
+    pub fn small_reduce(x: u16) -> u16 {
         let diff = x.wrapping_sub(Self::Q);
         let borrow = 0u16.wrapping_sub(diff >> 15);
         diff.wrapping_add(Self::Q & borrow)
diff --git a/ml-kem/src/encode.rs b/ml-kem/src/encode.rs
index f6c641f..a02847d 100644
--- a/ml-kem/src/encode.rs
+++ b/ml-kem/src/encode.rs
@@ -57,7 +57,8 @@ fn byte_decode<D: EncodingSize>(bytes: &EncodedPolynomial<D>) -> DecodedValue {
             vj.0 = val & mask;
 
             if D::USIZE == 12 {
-                vj.0 %= FieldElement::Q;
+                // A 12-bit value is less than 2*q, and may be secret: no division here
+                vj.0 = FieldElement::small_reduce(vj.0);
             }
         }
     }
-- 
2.43.0


From 502ddf5b15541cab3c8908ff6adbd435caeadef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 3/3] fix: ml-kem: sample the centered binomial distribution
 without a secret-indexed table

---
 ml-kem/src/algebra.rs | 14 +++++++++++++-
 ml-kem/src/param.rs   | 43 ++-----------------------------------------
 2 files changed, 15 insertions(+), 42 deletions(-)

diff --git a/ml-kem/src/algebra.rs b/ml-kem/src/algebra.rs
index 5cd0666..c5baa19 100644
--- a/ml-kem/src/algebra.rs
+++ b/ml-kem/src/algebra.rs
@@ -146,7 +146,19 @@ impl Polynomial {
         Eta: CbdSamplingSize,
     {
         let vals: Polynomial = Encode::<Eta::SampleSize>::decode(B);
-        Self(vals.0.iter().map(|val| Eta::ONES[val.0 as usize]).collect())
+
+        // The values are secret, so the sums are computed rather than looked up in a table
+        let mask = (1 << Eta::USIZE) - 1;
+        Self(
+            vals.0
+                .iter()
+                .map(|val| {
+                    let x = FieldElement((val.0 & mask).count_ones().truncate());
+                    let y = FieldElement((val.0 >> Eta::USIZE).count_ones().truncate());
+                    x - y
+                })
+                .collect(),
+        )
     }
 }
 
diff --git a/ml-kem/src/param.rs b/ml-kem/src/param.rs
index 2a9497c..7fa57ff 100644
--- a/ml-kem/src/param.rs
+++ b/ml-kem/src/param.rs
@@ -17,12 +17,12 @@ use hybrid_array::{
     typenum::{
         operator_aliases::{Gcf, Prod, Quot, Sum},
         type_operators::Gcd,
-        Const, ToUInt, U0, U12, U16, U2, U3, U32, U384, U4, U6, U64, U8,
+        U0, U12, U2, U3, U32, U384, U4, U6, U8,
     },
     Array,
 };
 
-use crate::algebra::{FieldElement, NttVector};
+use crate::algebra::NttVector;
 use crate::encode::Encode;
 use crate::util::{Flatten, Unflatten, B32};
 
@@ -94,53 +94,14 @@ where
 /// An integer that describes a bit length to be used in CBD sampling
 pub trait CbdSamplingSize: ArraySize {
     type SampleSize: EncodingSize;
-    type OnesSize: ArraySize;
-    const ONES: Array<FieldElement, Self::OnesSize>;
-}
-
-// To speed up CBD sampling, we pre-compute all the bit-manipulations:
-//
-// * Splitting a sampled integer into two parts
-// * Counting the ones in each part
-// * Taking the difference between the two counts mod q
-//
-// We have to allow the use of `as` here because we can't use our nice Truncate trait, because
-// const functions don't support traits.
-#[allow(clippy::cast_possible_truncation)]
-const fn ones_array<const B: usize, const N: usize, U>() -> Array<FieldElement, U>
-where
-    U: ArraySize<ArrayType<FieldElement> = [FieldElement; N]>,
-    Const<N>: ToUInt<Output = U>,
-{
-    let max = 1 << B;
-    let mut out = [FieldElement(0); N];
-    let mut x = 0usize;
-    while x < max {
-        let mut y = 0usize;
-        #[allow(clippy::integer_division_remainder_used)]
-        while y < max {
-            let x_ones = x.count_ones() as u16;
-            let y_ones = y.count_ones() as u16;
-            let i = x + (y << B);
-            out[i] = FieldElement((x_ones + FieldElement::Q - y_ones) % FieldElement::Q);
-
-            y += 1;
-        }
-        x += 1;
-    }
-    Array(out)
 }
 
 impl CbdSamplingSize for U2 {
     type SampleSize = U4;
-    type OnesSize = U16;
-    const ONES: Array<FieldElement, U16> = ones_array::<2, 16, U16>();
 }
 
 impl CbdSamplingSize for U3 {
     type SampleSize = U6;
-    type OnesSize = U64;
-    const ONES: Array<FieldElement, U64> = ones_array::<3, 64, U64>();
 }
 
 /// A `ParameterSet` captures the parameters that describe a particular instance of ML-KEM.  There
-- 
2.43.0

