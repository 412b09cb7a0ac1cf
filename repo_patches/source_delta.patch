From 6597fd7e776a0952247c14abd6954cce047910c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:16 +0000
Subject: [PATCH 1/6] sim: scheduling points in field and scalar primitives,
 behind cfg(goldilocks_sim)

---
 src/field/fiat_u64/prime_field.rs | 10 ++++++++++
 src/field/scalar.rs               |  4 ++++
 src/field/u32/prime_field.rs      | 12 ++++++++++++
 src/lib.rs                        |  7 +++++++
 src/sim.rs                        | 20 ++++++++++++++++++++
 5 files changed, 53 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/field/fiat_u64/prime_field.rs b/src/field/fiat_u64/prime_field.rs
index b07389d..db60ac6 100644
--- a/src/field/fiat_u64/prime_field.rs
+++ b/src/field/fiat_u64/prime_field.rs
@@ -38,6 +38,8 @@ impl IndexMut<usize> for FieldElement56 {
 impl Mul<&FieldElement56> for &FieldElement56 {
     type Output = FieldElement56;
     fn mul(self, rhs: &FieldElement56) -> Self::Output {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(1);
         let mut result = FieldElement56::zero();
         let mut self_loose = fiat_p448_loose_field_element([0; 8]);
         fiat_p448_relax(&mut self_loose, &self.0);
@@ -94,6 +96,8 @@ impl ConditionallySelectable for FieldElement56 {
         b: &FieldElement56,
         choice: Choice,
     ) -> FieldElement56 {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(5);
         let mut result = FieldElement56::zero();
         fiat_p448_selectznz(&mut (result.0).0, choice.unwrap_u8(), &(a.0).0, &(b.0).0);
         result
@@ -154,6 +158,8 @@ impl FieldElement56 {
     /// We parse in chunks of 56 bytes, the first 28 bytes will contain the i'th limb
     /// and the second 28 bytes will contain the (2i+1)'th limb
     pub(crate) fn from_bytes(bytes: &[u8; 56]) -> FieldElement56 {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(3);
         let mut res = FieldElement56::zero();
         fiat_p448_from_bytes(&mut res.0, bytes);
         res
@@ -161,6 +167,8 @@ impl FieldElement56 {
 
     // We encode the Field element by storing each consecutive into a u64
     pub(crate) fn to_bytes(&self) -> [u8; 56] {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(4);
         let mut res = [0u8; 56];
         fiat_p448_to_bytes(&mut res, &self.0);
         res
@@ -170,6 +178,8 @@ impl FieldElement56 {
 impl FieldElement56 {
     /// Squares a field element
     pub(crate) fn square(&self) -> FieldElement56 {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(2);
         let mut self_loose = fiat_p448_loose_field_element([0; 8]);
         fiat_p448_relax(&mut self_loose, &self.0);
         let mut result = FieldElement56::zero();
diff --git a/src/field/scalar.rs b/src/field/scalar.rs
index 35b1602..3b4fde2 100644
--- a/src/field/scalar.rs
+++ b/src/field/scalar.rs
@@ -366,6 +366,8 @@ pub fn add(a: &Scalar, b: &Scalar) -> Scalar {
 /// Compute a - b mod p
 /// Computes a - b and conditionally computes the modulus if the result was negative
 fn sub_extra(a: &Scalar, b: &Scalar, carry: u32) -> Scalar {
+    #[cfg(goldilocks_sim)]
+    crate::sim::point(7);
     let mut result = Scalar::zero();
 
     // a - b
@@ -398,6 +400,8 @@ fn sub_extra(a: &Scalar, b: &Scalar, carry: u32) -> Scalar {
 }
 
 fn montgomery_multiply(x: &Scalar, y: &Scalar) -> Scalar {
+    #[cfg(goldilocks_sim)]
+    crate::sim::point(6);
     const MONTGOMERY_FACTOR: u32 = 0xae918bc5;
 
     let mut result = Scalar::zero();
diff --git a/src/field/u32/prime_field.rs b/src/field/u32/prime_field.rs
index c72ab46..877d2aa 100644
--- a/src/field/u32/prime_field.rs
+++ b/src/field/u32/prime_field.rs
@@ -29,12 +29,16 @@ impl IndexMut<usize> for FieldElement28 {
 impl Mul<FieldElement28> for FieldElement28 {
     type Output = FieldElement28;
     fn mul(self, rhs: FieldElement28) -> Self::Output {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(1);
         karatsuba::mul(&self, &rhs)
     }
 }
 impl Mul<&FieldElement28> for FieldElement28 {
     type Output = FieldElement28;
     fn mul(self, rhs: &FieldElement28) -> Self::Output {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(1);
         karatsuba::mul(&self, rhs)
     }
 }
@@ -70,6 +74,8 @@ impl ConditionallySelectable for FieldElement28 {
         b: &FieldElement28,
         choice: Choice,
     ) -> FieldElement28 {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(5);
         FieldElement28([
             u32::conditional_select(&a.0[0], &b.0[0], choice),
             u32::conditional_select(&a.0[1], &b.0[1], choice),
@@ -139,6 +145,8 @@ impl FieldElement28 {
     /// We parse in chunks of 56 bytes, the first 28 bytes will contain the i'th limb
     /// and the second 28 bytes will contain the (2i+1)'th limb
     pub(crate) fn from_bytes(bytes: &[u8; 56]) -> FieldElement28 {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(3);
         let load7 = |input: &[u8]| -> u64 {
             (input[0] as u64)
                 | ((input[1] as u64) << 8)
@@ -164,6 +172,8 @@ impl FieldElement28 {
 
     // We encode the Field element by storing each consecutive into a u64
     pub(crate) fn to_bytes(&self) -> [u8; 56] {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(4);
         // Reduce element to a canonical representation.
         let mut limbs = self.clone();
         limbs.strong_reduce();
@@ -185,6 +195,8 @@ impl FieldElement28 {
 impl FieldElement28 {
     /// Sqaures a field element
     pub(crate) fn square(&self) -> FieldElement28 {
+        #[cfg(goldilocks_sim)]
+        crate::sim::point(2);
         karatsuba::square(self)
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 9abe061..69fb9fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,8 @@
 // XXX: Change this to deny later on
 #![warn(unused_attributes, unused_imports, unused_mut, unused_must_use)]
 #![allow(non_snake_case)]
+// `goldilocks_sim` is only ever set by a simulator's own RUSTFLAGS
+#![allow(unexpected_cfgs)]
 
 // Internal macros. Must come first!
 #[macro_use]
@@ -14,4 +16,9 @@ pub mod decaf;
 mod field;
 pub mod ristretto;
 
+// Scheduling points for deterministic simulation. Not part of the crate unless it is built
+// with `--cfg goldilocks_sim`.
+#[cfg(goldilocks_sim)]
+pub mod sim;
+
 pub use field::Scalar;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..aa72be8
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,20 @@
+//! Scheduling points for deterministic simulation (`--cfg goldilocks_sim` only).
+//!
+//! A simulator installs one callback; the arithmetic below calls it at the start of every
+//! field and scalar primitive, which is where the simulator may suspend the calling thread
+//! and run another one. The callback cannot change any value.
+use std::sync::OnceLock;
+
+static HOOK: OnceLock<fn(u32)> = OnceLock::new();
+
+/// Installs the callback. Only the first call has an effect.
+pub fn install(hook: fn(u32)) {
+    let _ = HOOK.set(hook);
+}
+
+#[inline]
+pub(crate) fn point(site: u32) {
+    if let Some(hook) = HOOK.get() {
+        hook(site)
+    }
+}
-- 
2.43.0


From 29579e6a9d52ba050e280c11419b65ded5a9ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:08 +0000
Subject: [PATCH 2/6] fix: Montgomery ladder drops the final conditional swap

For every odd scalar the ladder returned [k+1]P instead of [k]P, because the
swap left pending by the least significant bit was never undone.
---
 src/curve/montgomery/montgomery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index d431e5f..80e61b6 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -91,6 +91,8 @@ impl Mul<&Scalar> for &MontgomeryPoint {
 
             swap = bit;
         }
+        // Undo the swap left pending by the last (least significant) bit
+        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
 
         x0.to_affine()
     }
-- 
2.43.0


From 2b5a12350abf095f03798231c548f195ffc89ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:08 +0000
Subject: [PATCH 3/6] fix: CompressedEdwardsY::decompress accepts non-canonical
 encodings

Encodings with y >= p, with stray bits next to the sign bit, and of x = 0 with
the sign bit set were all decoded, so several strings named the same point.
---
 src/curve/edwards/extended.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/curve/edwards/extended.rs b/src/curve/edwards/extended.rs
index 13eeee2..b37bd78 100644
--- a/src/curve/edwards/extended.rs
+++ b/src/curve/edwards/extended.rs
@@ -47,6 +47,13 @@ impl CompressedEdwardsY {
 
         // Recover x using y
         let y = FieldElement::from_bytes(&y_bytes);
+
+        // Only one encoding per point is valid: y must be reduced modulo p and
+        // the last byte may hold nothing but the sign bit (RFC 8032, 5.2.3)
+        if sign & 0x7f != 0 || y.to_bytes() != y_bytes {
+            return None;
+        }
+
         let yy = y.square();
         let dyy = EDWARDS_D * yy;
         let numerator = FieldElement::one() - yy;
@@ -59,6 +66,10 @@ impl CompressedEdwardsY {
 
         // Compute correct sign of x
         let compressed_sign_bit = Choice::from(sign >> 7);
+        // Zero has no negative, so x = 0 with the sign bit set is not an encoding
+        if bool::from(x.ct_eq(&FieldElement::zero()) & compressed_sign_bit) {
+            return None;
+        }
         let is_negative = x.is_negative();
         x.conditional_negate(compressed_sign_bit ^ is_negative);
 
-- 
2.43.0


From b6ba412b6bc2c1d5b7a4f9123a3b9d77d64be35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:08 +0000
Subject: [PATCH 4/6] fix: MontgomeryPoint::is_low_order misses non-canonical
 encodings

The ladder reduces u modulo p, so p and p + 1 act as 0 and 1, yet they were
reported as not being of low order.
---
 src/curve/montgomery/montgomery.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index 80e61b6..8f2771f 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -114,7 +114,9 @@ impl MontgomeryPoint {
 
     /// Returns true if the point is one of the low order points
     pub fn is_low_order(&self) -> bool {
-        (*self == LOW_A) || (*self == LOW_B) || (*self == LOW_C)
+        // The u co-ordinate need not be reduced modulo p, so compare its canonical form
+        let canonical = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
+        (canonical == LOW_A) || (canonical == LOW_B) || (canonical == LOW_C)
     }
     /// View the point as a byte slice
     pub fn as_bytes(&self) -> &[u8; 56] {
-- 
2.43.0


From 87041d4a1a61cee90774cd004a7a225e3c65bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:08 +0000
Subject: [PATCH 5/6] fix: scalar addition and subtraction are wrong for
 unreduced operands

Scalar::from_bytes accepts any 448-bit integer, but add and sub_extra correct
the result by at most one modulus, so sums and differences of such scalars came
out in the wrong residue class or unreduced.
---
 src/field/scalar.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/field/scalar.rs b/src/field/scalar.rs
index 3b4fde2..3856b75 100644
--- a/src/field/scalar.rs
+++ b/src/field/scalar.rs
@@ -60,7 +60,7 @@ impl IndexMut<usize> for Scalar {
 impl Add<Scalar> for Scalar {
     type Output = Scalar;
     fn add(self, rhs: Scalar) -> Self::Output {
-        add(&self, &rhs)
+        add(&self.reduce(), &rhs.reduce())
     }
 }
 impl Mul<Scalar> for Scalar {
@@ -73,7 +73,7 @@ impl Mul<Scalar> for Scalar {
 impl Sub<Scalar> for Scalar {
     type Output = Scalar;
     fn sub(self, rhs: Scalar) -> Self::Output {
-        sub_extra(&self, &rhs, 0)
+        sub_extra(&self.reduce(), &rhs.reduce(), 0)
     }
 }
 impl Default for Scalar {
@@ -89,6 +89,11 @@ impl Scalar {
     pub const fn zero() -> Scalar {
         Scalar([0; 14])
     }
+    /// Reduces a scalar modulo the group order. `from_bytes` accepts any 448-bit
+    /// integer, whereas addition and subtraction need reduced operands.
+    fn reduce(&self) -> Scalar {
+        montgomery_multiply(self, &R)
+    }
     /// Divides a scalar by four without reducing mod p
     /// This is used in the 2-isogeny when mapping points from Ed448-Goldilocks
     /// to Twisted-Goldilocks
-- 
2.43.0


From b194e6a283373f8ff6351566e547c1c690b7f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:00 +0000
Subject: [PATCH 6/6] fix: Scalar::halve branches on the lowest bit of the
 scalar

In an optimised build the mask derived from the lowest bit is turned into
a conditional jump (loop unswitching), so the time halving takes depends
on the secret. Derive the mask through subtle, as everywhere else.
---
 src/field/scalar.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/field/scalar.rs b/src/field/scalar.rs
index 3856b75..8a48499 100644
--- a/src/field/scalar.rs
+++ b/src/field/scalar.rs
@@ -2,7 +2,7 @@ use std::ops::{Add, Index, IndexMut, Mul, Sub};
 
 #[cfg(feature = "rand")]
 use rand_core::{CryptoRng, RngCore};
-use subtle::{Choice, ConstantTimeEq};
+use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
 
 use crate::constants;
 
@@ -255,7 +255,10 @@ impl Scalar {
     pub fn halve(&self) -> Self {
         let mut result = Scalar::zero();
 
-        let mask = 0u32.wrapping_sub(self[0] & 1);
+        // Through `subtle`, so that the mask is not compiled into a branch on the
+        // lowest bit of the scalar.
+        let is_odd = Choice::from((self[0] & 1) as u8);
+        let mask = u32::conditional_select(&0, &u32::MAX, is_odd);
         let mut chain = 0u64;
 
         for i in 0..14 {
-- 
2.43.0

