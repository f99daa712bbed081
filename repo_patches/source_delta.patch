From 0f9ac48dc778cdfc38f98485d391810caf9a24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 01/16] verif: tiny instantiations and entry points behind
 cfg(halo2curves_verif)

---
 derive/src/field/mod.rs |    7 +
 src/hash_to_curve.rs    |    5 +
 src/lib.rs              |    3 +
 src/verif.rs            | 1052 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 1067 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/derive/src/field/mod.rs b/derive/src/field/mod.rs
index 566fb9e..9c71db5 100644
--- a/derive/src/field/mod.rs
+++ b/derive/src/field/mod.rs
@@ -104,6 +104,10 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
     let num_bits = modulus.bits() as u32;
     let limb_size = 64;
     let num_limbs = ((num_bits - 1) / limb_size + 1) as usize;
+    // Verification builds also instantiate tiny primes, which get at least two limbs
+    // (the backends need that) or four limbs (the shape the assembly backend serves).
+    #[cfg(halo2curves_verif)]
+    let num_limbs = num_limbs.max(if identifier.starts_with("verif4") { 4 } else { 2 });
     let size = num_limbs * 8;
     let modulus_limbs = crate::utils::big_to_limbs(&modulus, num_limbs);
     let modulus_str = format!("0x{}", modulus.to_str_radix(16));
@@ -156,6 +160,9 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
         jacobi_constant += 1;
     }
 
+    #[cfg(halo2curves_verif)]
+    let jacobi_constant = jacobi_constant.max(num_limbs);
+
     let mut s: u32 = 0;
     let mut t = &modulus - BigUint::one();
     while t.is_even() {
diff --git a/src/hash_to_curve.rs b/src/hash_to_curve.rs
index e4c287c..a4d46cc 100644
--- a/src/hash_to_curve.rs
+++ b/src/hash_to_curve.rs
@@ -36,6 +36,11 @@ pub(crate) fn expand_message<D: Digest + BlockSizeUser>(
         "long dst is not supported yet"
     );
 
+    #[cfg(halo2curves_verif)]
+    if let Some(out) = crate::verif::expand_message_override(out_len) {
+        return out;
+    }
+
     let mut h = D::new();
     h.update(vec![0; D::block_size()]);
     h.update(message);
diff --git a/src/lib.rs b/src/lib.rs
index f5caae2..e9ab15d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,5 +23,8 @@ pub use group;
 pub use pairing;
 pub use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
 
+#[cfg(halo2curves_verif)]
+pub mod verif;
+
 #[cfg(test)]
 pub mod tests;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..dde3a03
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,1052 @@
+//! Verification hooks, compiled only with `--cfg halo2curves_verif`.
+//!
+//! Nothing here is part of the library: the module instantiates the library's own
+//! field, tower and curve macros over tiny primes, so that a checker can enumerate
+//! their whole state spaces, and gives it access to a few crate-private entry points.
+#![allow(missing_debug_implementations, clippy::all, dead_code)]
+
+pub use crate::arithmetic::CurveEndo;
+pub use crate::hash_to_curve::Suite;
+
+use std::cell::RefCell;
+
+thread_local! {
+    static EXPAND: RefCell<Option<Vec<u8>>> = RefCell::new(None);
+}
+
+/// Makes `expand_message` on this thread return `out` (when the requested length matches),
+/// so that chosen field elements can be driven through the production suites.
+pub fn set_expand_message(out: Option<Vec<u8>>) {
+    EXPAND.with(|e| *e.borrow_mut() = out);
+}
+
+pub(crate) fn expand_message_override(out_len: usize) -> Option<Vec<u8>> {
+    EXPAND.with(|e| e.borrow().clone().filter(|v| v.len() == out_len))
+}
+
+/// The uniform bytes the library derives for a message.
+pub fn expand_message<D: digest::Digest + digest::core_api::BlockSizeUser>(
+    domain_prefix: &[u8],
+    domain: &[u8],
+    message: &[u8],
+    out_len: usize,
+) -> Vec<u8> {
+    crate::hash_to_curve::expand_message::<D>(domain_prefix, domain, message, out_len)
+}
+
+pub mod f7 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        verif4_f7,
+        F7,
+        modulus = "7",
+        mul_gen = "3",
+        zeta = "2",
+        from_uniform = [64, 32, 48],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F7);
+    crate::impl_binops_calls!(F7);
+    crate::impl_binops_additive!(F7, F7);
+    crate::impl_binops_multiplicative!(F7, F7);
+    crate::field_bits!(F7);
+    crate::serialize_deserialize_primefield!(F7);
+    crate::impl_from_u64!(F7);
+    crate::impl_from_bool!(F7);
+}
+pub use f7::F7;
+
+pub mod f17 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        verif4_f17,
+        F17,
+        modulus = "11",
+        mul_gen = "3",
+        zeta = "1",
+        from_uniform = [64, 32, 48],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F17);
+    crate::impl_binops_calls!(F17);
+    crate::impl_binops_additive!(F17, F17);
+    crate::impl_binops_multiplicative!(F17, F17);
+    crate::field_bits!(F17);
+    crate::serialize_deserialize_primefield!(F17);
+    crate::impl_from_u64!(F17);
+    crate::impl_from_bool!(F17);
+}
+pub use f17::F17;
+
+pub mod f31 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        verif4_f31,
+        F31,
+        modulus = "1f",
+        mul_gen = "3",
+        zeta = "19",
+        from_uniform = [64, 32, 48],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F31);
+    crate::impl_binops_calls!(F31);
+    crate::impl_binops_additive!(F31, F31);
+    crate::impl_binops_multiplicative!(F31, F31);
+    crate::field_bits!(F31);
+    crate::serialize_deserialize_primefield!(F31);
+    crate::impl_from_u64!(F31);
+    crate::impl_from_bool!(F31);
+}
+pub use f31::F31;
+
+pub mod f43 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        verif4_f43,
+        F43,
+        modulus = "2b",
+        mul_gen = "3",
+        zeta = "24",
+        from_uniform = [64, 32, 48],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F43);
+    crate::impl_binops_calls!(F43);
+    crate::impl_binops_additive!(F43, F43);
+    crate::impl_binops_multiplicative!(F43, F43);
+    crate::field_bits!(F43);
+    crate::serialize_deserialize_primefield!(F43);
+    crate::impl_from_u64!(F43);
+    crate::impl_from_bool!(F43);
+}
+pub use f43::F43;
+
+pub mod f59 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        f59,
+        F59,
+        modulus = "3b",
+        mul_gen = "2",
+        zeta = "1",
+        from_uniform = [32],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F59);
+    crate::impl_binops_calls!(F59);
+    crate::impl_binops_additive!(F59, F59);
+    crate::impl_binops_multiplicative!(F59, F59);
+    crate::field_bits!(F59);
+    crate::serialize_deserialize_primefield!(F59);
+    crate::impl_from_u64!(F59);
+    crate::impl_from_bool!(F59);
+}
+pub use f59::F59;
+
+pub mod f71 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        f71,
+        F71,
+        modulus = "47",
+        mul_gen = "7",
+        zeta = "1",
+        from_uniform = [32],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F71);
+    crate::impl_binops_calls!(F71);
+    crate::impl_binops_additive!(F71, F71);
+    crate::impl_binops_multiplicative!(F71, F71);
+    crate::field_bits!(F71);
+    crate::serialize_deserialize_primefield!(F71);
+    crate::impl_from_u64!(F71);
+    crate::impl_from_bool!(F71);
+}
+pub use f71::F71;
+
+pub mod f97 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        verif4_f97,
+        F97,
+        modulus = "61",
+        mul_gen = "5",
+        zeta = "23",
+        from_uniform = [64, 32, 48],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F97);
+    crate::impl_binops_calls!(F97);
+    crate::impl_binops_additive!(F97, F97);
+    crate::impl_binops_multiplicative!(F97, F97);
+    crate::field_bits!(F97);
+    crate::serialize_deserialize_primefield!(F97);
+    crate::impl_from_u64!(F97);
+    crate::impl_from_bool!(F97);
+}
+pub use f97::F97;
+
+pub mod f103 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        verif4_f103,
+        F103,
+        modulus = "67",
+        mul_gen = "5",
+        zeta = "38",
+        from_uniform = [64, 32, 48],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F103);
+    crate::impl_binops_calls!(F103);
+    crate::impl_binops_additive!(F103, F103);
+    crate::impl_binops_multiplicative!(F103, F103);
+    crate::field_bits!(F103);
+    crate::serialize_deserialize_primefield!(F103);
+    crate::impl_from_u64!(F103);
+    crate::impl_from_bool!(F103);
+}
+pub use f103::F103;
+
+pub mod f127 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        f127,
+        F127,
+        modulus = "7f",
+        mul_gen = "3",
+        zeta = "6b",
+        from_uniform = [32],
+        endian = "big",
+    );
+    crate::extend_field_legendre!(F127);
+    crate::impl_binops_calls!(F127);
+    crate::impl_binops_additive!(F127, F127);
+    crate::impl_binops_multiplicative!(F127, F127);
+    crate::field_bits!(F127);
+    crate::serialize_deserialize_primefield!(F127);
+    crate::impl_from_u64!(F127);
+    crate::impl_from_bool!(F127);
+}
+pub use f127::F127;
+
+pub mod f193 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        f193,
+        F193,
+        modulus = "c1",
+        mul_gen = "5",
+        zeta = "54",
+        from_uniform = [32],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F193);
+    crate::impl_binops_calls!(F193);
+    crate::impl_binops_additive!(F193, F193);
+    crate::impl_binops_multiplicative!(F193, F193);
+    crate::field_bits!(F193);
+    crate::serialize_deserialize_primefield!(F193);
+    crate::impl_from_u64!(F193);
+    crate::impl_from_bool!(F193);
+}
+pub use f193::F193;
+
+pub mod f257 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        f257,
+        F257,
+        modulus = "101",
+        mul_gen = "3",
+        zeta = "1",
+        from_uniform = [32],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F257);
+    crate::impl_binops_calls!(F257);
+    crate::impl_binops_additive!(F257, F257);
+    crate::impl_binops_multiplicative!(F257, F257);
+    crate::field_bits!(F257);
+    crate::serialize_deserialize_primefield!(F257);
+    crate::impl_from_u64!(F257);
+    crate::impl_from_bool!(F257);
+}
+pub use f257::F257;
+
+pub mod f65537 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        f65537,
+        F65537,
+        modulus = "10001",
+        mul_gen = "3",
+        zeta = "1",
+        from_uniform = [32],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(F65537);
+    crate::impl_binops_calls!(F65537);
+    crate::impl_binops_additive!(F65537, F65537);
+    crate::impl_binops_multiplicative!(F65537, F65537);
+    crate::field_bits!(F65537);
+    crate::serialize_deserialize_primefield!(F65537);
+    crate::impl_from_u64!(F65537);
+    crate::impl_from_bool!(F65537);
+}
+pub use f65537::F65537;
+
+pub mod fm {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        fm,
+        Fm,
+        modulus = "7ffffebb",
+        mul_gen = "11",
+        zeta = "5fd09e",
+        from_uniform = [32],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(Fm);
+    crate::impl_binops_calls!(Fm);
+    crate::impl_binops_additive!(Fm, Fm);
+    crate::impl_binops_multiplicative!(Fm, Fm);
+    crate::field_bits!(Fm);
+    crate::serialize_deserialize_primefield!(Fm);
+    crate::impl_from_u64!(Fm);
+    crate::impl_from_bool!(Fm);
+}
+pub use fm::Fm;
+
+pub mod fo {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        fo,
+        Fo,
+        modulus = "8000b1bf",
+        mul_gen = "b",
+        zeta = "1204999d",
+        from_uniform = [32],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(Fo);
+    crate::impl_binops_calls!(Fo);
+    crate::impl_binops_additive!(Fo, Fo);
+    crate::impl_binops_multiplicative!(Fo, Fo);
+    crate::field_bits!(Fo);
+    crate::serialize_deserialize_primefield!(Fo);
+    crate::impl_from_u64!(Fo);
+    crate::impl_from_bool!(Fo);
+}
+pub use fo::Fo;
+
+pub mod fw1 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        fw1,
+        Fw1,
+        modulus = "ffffffffffffff43",
+        mul_gen = "2",
+        zeta = "6463cc9f447aaaca",
+        from_uniform = [32],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(Fw1);
+    crate::impl_binops_calls!(Fw1);
+    crate::impl_binops_additive!(Fw1, Fw1);
+    crate::impl_binops_multiplicative!(Fw1, Fw1);
+    crate::field_bits!(Fw1);
+    crate::serialize_deserialize_primefield!(Fw1);
+    crate::impl_from_u64!(Fw1);
+    crate::impl_from_bool!(Fw1);
+}
+pub use fw1::Fw1;
+
+pub mod fgold {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        fgold,
+        FGold,
+        modulus = "ffffffff00000001",
+        mul_gen = "7",
+        zeta = "fffffffe00000001",
+        from_uniform = [32],
+        endian = "big",
+    );
+    crate::extend_field_legendre!(FGold);
+    crate::impl_binops_calls!(FGold);
+    crate::impl_binops_additive!(FGold, FGold);
+    crate::impl_binops_multiplicative!(FGold, FGold);
+    crate::field_bits!(FGold);
+    crate::serialize_deserialize_primefield!(FGold);
+    crate::impl_from_u64!(FGold);
+    crate::impl_from_bool!(FGold);
+}
+pub use fgold::FGold;
+
+pub mod fs2 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        fs2,
+        Fs2,
+        modulus = "7fffffffffffffffffffffffffffffff",
+        mul_gen = "2b",
+        zeta = "2267b7d0e8364760d58999f9529797f5",
+        from_uniform = [32, 24],
+        endian = "little",
+    );
+    crate::extend_field_legendre!(Fs2);
+    crate::impl_binops_calls!(Fs2);
+    crate::impl_binops_additive!(Fs2, Fs2);
+    crate::impl_binops_multiplicative!(Fs2, Fs2);
+    crate::field_bits!(Fs2);
+    crate::serialize_deserialize_primefield!(Fs2);
+    crate::impl_from_u64!(Fs2);
+    crate::impl_from_bool!(Fs2);
+}
+pub use fs2::Fs2;
+
+pub mod fw2 {
+    use core::convert::TryInto;
+    use halo2derive::impl_field;
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+    impl_field!(
+        fw2,
+        Fw2,
+        modulus = "ffffffffffffffffffffffffffffff53",
+        mul_gen = "5",
+        zeta = "1",
+        from_uniform = [32, 17],
+        endian = "big",
+    );
+    crate::extend_field_legendre!(Fw2);
+    crate::impl_binops_calls!(Fw2);
+    crate::impl_binops_additive!(Fw2, Fw2);
+    crate::impl_binops_multiplicative!(Fw2, Fw2);
+    crate::field_bits!(Fw2);
+    crate::serialize_deserialize_primefield!(Fw2);
+    crate::impl_from_u64!(Fw2);
+    crate::impl_from_bool!(Fw2);
+}
+pub use fw2::Fw2;
+
+impl crate::ff_ext::ExtField for F7 {
+    const NON_RESIDUE: Self = F7::zero().sub_const(&F7::one());
+    fn mul_by_nonresidue(&self) -> Self {
+        -self
+    }
+    fn frobenius_map(&mut self, _: usize) {}
+}
+
+impl crate::ff_ext::ExtField for F31 {
+    const NON_RESIDUE: Self = F31::zero().sub_const(&F31::one());
+    fn mul_by_nonresidue(&self) -> Self {
+        -self
+    }
+    fn frobenius_map(&mut self, _: usize) {}
+}
+
+impl crate::ff_ext::ExtField for F97 {
+    const NON_RESIDUE: Self = F97::from_raw([5, 0, 0, 0]);
+    fn frobenius_map(&mut self, _: usize) {}
+}
+
+pub mod f7_2 {
+    use super::F7;
+    use crate::ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
+    use crate::ff_ext::quadratic::{QuadExtField, QuadExtFieldArith, SQRT};
+    use crate::ff_ext::{ExtField, Legendre};
+    use core::convert::TryInto;
+    use std::cmp::Ordering;
+    use subtle::{Choice, CtOption};
+
+    crate::impl_binops_additive!(F7x2, F7x2);
+    crate::impl_binops_multiplicative!(F7x2, F7x2);
+    crate::impl_binops_calls!(F7x2);
+    crate::impl_sum_prod!(F7x2);
+    crate::impl_tower2!(F7, F7x2);
+    crate::impl_tower2_from_uniform_bytes!(F7, F7x2, 96);
+
+    pub type F7x2 = QuadExtField<F7>;
+    impl QuadExtFieldArith for F7x2 {
+        type Base = F7;
+        const SQRT: SQRT<F7> = SQRT::Algorithm9 {
+            q_minus_3_over_4: &[1],
+            q_minus_1_over_2: &[3],
+        };
+    }
+    impl ExtField for F7x2 {
+        const NON_RESIDUE: Self = F7x2::new(F7::from_raw([1, 0, 0, 0]), F7::from_raw([2, 0, 0, 0]));
+        fn frobenius_map(&mut self, power: usize) {
+            if power % 2 != 0 {
+                self.conjugate();
+            }
+        }
+    }
+    impl crate::serde::endian::EndianRepr for F7x2 {
+        const ENDIAN: crate::serde::endian::Endian = F7::ENDIAN;
+
+        fn to_bytes(&self) -> Vec<u8> {
+            self.to_bytes().to_vec()
+        }
+
+        fn from_bytes(bytes: &[u8]) -> CtOption<Self> {
+            F7x2::from_bytes(bytes[..F7x2::SIZE].try_into().unwrap())
+        }
+    }
+}
+pub use f7_2::F7x2;
+
+pub mod f31_2 {
+    use super::F31;
+    use crate::ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
+    use crate::ff_ext::quadratic::{QuadExtField, QuadExtFieldArith, SQRT};
+    use crate::ff_ext::{ExtField, Legendre};
+    use core::convert::TryInto;
+    use std::cmp::Ordering;
+    use subtle::{Choice, CtOption};
+
+    crate::impl_binops_additive!(F31x2, F31x2);
+    crate::impl_binops_multiplicative!(F31x2, F31x2);
+    crate::impl_binops_calls!(F31x2);
+    crate::impl_sum_prod!(F31x2);
+    crate::impl_tower2!(F31, F31x2);
+    crate::impl_tower2_from_uniform_bytes!(F31, F31x2, 96);
+
+    pub type F31x2 = QuadExtField<F31>;
+    impl QuadExtFieldArith for F31x2 {
+        type Base = F31;
+        const SQRT: SQRT<F31> = SQRT::Algorithm9 {
+            q_minus_3_over_4: &[7],
+            q_minus_1_over_2: &[15],
+        };
+    }
+    impl ExtField for F31x2 {
+        const NON_RESIDUE: Self =
+            F31x2::new(F31::from_raw([1, 0, 0, 0]), F31::from_raw([1, 0, 0, 0]));
+        fn frobenius_map(&mut self, power: usize) {
+            if power % 2 != 0 {
+                self.conjugate();
+            }
+        }
+    }
+    impl crate::serde::endian::EndianRepr for F31x2 {
+        const ENDIAN: crate::serde::endian::Endian = F31::ENDIAN;
+
+        fn to_bytes(&self) -> Vec<u8> {
+            self.to_bytes().to_vec()
+        }
+
+        fn from_bytes(bytes: &[u8]) -> CtOption<Self> {
+            F31x2::from_bytes(bytes[..F31x2::SIZE].try_into().unwrap())
+        }
+    }
+}
+pub use f31_2::F31x2;
+
+pub mod f97_2 {
+    use super::F97;
+    use crate::ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
+    use crate::ff_ext::quadratic::{QuadExtField, QuadExtFieldArith, SQRT};
+    use crate::ff_ext::{ExtField, Legendre};
+    use core::convert::TryInto;
+    use std::cmp::Ordering;
+    use subtle::{Choice, CtOption};
+
+    crate::impl_binops_additive!(F97x2, F97x2);
+    crate::impl_binops_multiplicative!(F97x2, F97x2);
+    crate::impl_binops_calls!(F97x2);
+    crate::impl_sum_prod!(F97x2);
+    crate::impl_tower2!(F97, F97x2);
+    crate::impl_tower2_from_uniform_bytes!(F97, F97x2, 96);
+
+    pub type F97x2 = QuadExtField<F97>;
+    impl QuadExtFieldArith for F97x2 {
+        type Base = F97;
+        const SQRT: SQRT<F97> = SQRT::Algorithm10 {
+            precompute_e: F97x2::new(F97::zero(), F97::from_raw([15, 0, 0, 0])),
+            precompute_f: F97x2::new(F97::from_raw([92, 0, 0, 0]), F97::zero()),
+            q_minus_1_over_4: &[24],
+        };
+    }
+    impl ExtField for F97x2 {
+        const NON_RESIDUE: Self =
+            F97x2::new(F97::from_raw([1, 0, 0, 0]), F97::from_raw([1, 0, 0, 0]));
+        fn frobenius_map(&mut self, power: usize) {
+            if power % 2 != 0 {
+                self.conjugate();
+            }
+        }
+    }
+    impl crate::serde::endian::EndianRepr for F97x2 {
+        const ENDIAN: crate::serde::endian::Endian = F97::ENDIAN;
+
+        fn to_bytes(&self) -> Vec<u8> {
+            self.to_bytes().to_vec()
+        }
+
+        fn from_bytes(bytes: &[u8]) -> CtOption<Self> {
+            F97x2::from_bytes(bytes[..F97x2::SIZE].try_into().unwrap())
+        }
+    }
+}
+pub use f97_2::F97x2;
+
+pub mod f7_12 {
+    use super::{F7x2, F7};
+    use crate::ff::Field;
+    use crate::ff_ext::{
+        cubic::{CubicExtField, CubicExtFieldArith, CubicSparseMul},
+        quadratic::{QuadExtField, QuadExtFieldArith, QuadSparseMul},
+        ExtField,
+    };
+
+    const fn e(a: u64, b: u64) -> F7x2 {
+        F7x2::new(F7::from_raw([a, 0, 0, 0]), F7::from_raw([b, 0, 0, 0]))
+    }
+    const C1: [F7x2; 6] = [e(1, 0), e(4, 4), e(4, 0), e(2, 2), e(2, 0), e(1, 1)];
+    const C2: [F7x2; 6] = [e(1, 0), e(0, 4), e(2, 0), e(0, 1), e(4, 0), e(0, 2)];
+    const D: [F7x2; 12] = [
+        e(1, 0),
+        e(1, 2),
+        e(5, 0),
+        e(5, 3),
+        e(4, 0),
+        e(4, 1),
+        e(6, 0),
+        e(6, 5),
+        e(2, 0),
+        e(2, 4),
+        e(3, 0),
+        e(3, 6),
+    ];
+
+    pub type F7x6 = CubicExtField<F7x2>;
+    crate::impl_binops_additive!(F7x6, F7x6);
+    crate::impl_binops_multiplicative!(F7x6, F7x6);
+    crate::impl_binops_calls!(F7x6);
+    crate::impl_sum_prod!(F7x6);
+    impl CubicExtFieldArith for F7x6 {
+        type Base = F7x2;
+    }
+    impl CubicSparseMul for F7x6 {
+        type Base = F7x2;
+    }
+    impl ExtField for F7x6 {
+        const NON_RESIDUE: Self = F7x6::new(F7x2::ZERO, F7x2::ONE, F7x2::ZERO);
+        fn frobenius_map(&mut self, power: usize) {
+            self.c0.frobenius_map(power);
+            self.c1.frobenius_map(power);
+            self.c2.frobenius_map(power);
+            self.c1.mul_assign(&C1[power % 6]);
+            self.c2.mul_assign(&C2[power % 6]);
+        }
+        fn mul_by_nonresidue(&self) -> Self {
+            Self::new(self.c2.mul_by_nonresidue(), self.c0, self.c1)
+        }
+    }
+
+    pub type F7x12 = QuadExtField<F7x6>;
+    crate::impl_binops_additive!(F7x12, F7x12);
+    crate::impl_binops_multiplicative!(F7x12, F7x12);
+    crate::impl_binops_calls!(F7x12);
+    crate::impl_sum_prod!(F7x12);
+    crate::impl_cyclotomic_square!(F7x2, F7x12);
+    impl QuadExtFieldArith for F7x12 {
+        type Base = F7x6;
+    }
+    impl QuadSparseMul for F7x12 {
+        type Base = F7x2;
+    }
+    impl ExtField for F7x12 {
+        const NON_RESIDUE: Self = F7x12::zero();
+        fn frobenius_map(&mut self, power: usize) {
+            self.c0.frobenius_map(power);
+            self.c1.frobenius_map(power);
+            self.c1.c0.mul_assign(&D[power % 12]);
+            self.c1.c1.mul_assign(&D[power % 12]);
+            self.c1.c2.mul_assign(&D[power % 12]);
+        }
+    }
+}
+pub use f7_12::{F7x12, F7x6};
+
+pub mod ta {
+    use super::{F103, F97};
+    use crate::ff::{Field, PrimeField, WithSmallOrderMulGroup};
+    use crate::group::Curve;
+    use crate::group::{prime::PrimeCurveAffine, Group, GroupEncoding};
+    use crate::{
+        impl_binops_additive, impl_binops_additive_specify_output, impl_binops_multiplicative,
+        impl_binops_multiplicative_mixed, new_curve_impl,
+    };
+    use crate::{Coordinates, CurveAffine, CurveExt};
+    use core::cmp;
+    use core::fmt::Debug;
+    use core::iter::Sum;
+    use core::ops::{Add, Mul, Neg, Sub};
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+
+    const GX: F97 = F97::from_raw([1, 0, 0, 0]);
+    const GY: F97 = F97::from_raw([37, 0, 0, 0]);
+    const A: F97 = F97::from_raw([0, 0, 0, 0]);
+    const B: F97 = F97::from_raw([10, 0, 0, 0]);
+
+    new_curve_impl!(
+        (pub),
+        TA,
+        TAAffine,
+        F97,
+        F103,
+        (GX, GY),
+        A,
+        B,
+        "ta",
+        |_domain_prefix| unimplemented!(),
+        crate::serde::CompressedFlagConfig::TwoSpare,
+        standard_sign
+    );
+
+    impl group::cofactor::CofactorGroup for TA {
+        type Subgroup = TA;
+        fn clear_cofactor(&self) -> Self {
+            *self
+        }
+        fn into_subgroup(self) -> CtOption<Self::Subgroup> {
+            CtOption::new(self, self.is_torsion_free())
+        }
+        fn is_torsion_free(&self) -> Choice {
+            1.into()
+        }
+    }
+
+    /// A hash-to-curve suite of the library over this curve.
+    pub fn suite<D: digest::Digest + digest::core_api::BlockSizeUser>(
+        domain: &[u8],
+        z: F97,
+    ) -> crate::hash_to_curve::Suite<TA, D, 48> {
+        crate::hash_to_curve::Suite::new(domain, z, crate::hash_to_curve::Method::SVDW)
+    }
+}
+pub use ta::{TAAffine, TA};
+
+pub mod tb {
+    use super::{F59, F71};
+    use crate::ff::{Field, PrimeField, WithSmallOrderMulGroup};
+    use crate::group::Curve;
+    use crate::group::{prime::PrimeCurveAffine, Group, GroupEncoding};
+    use crate::{
+        impl_binops_additive, impl_binops_additive_specify_output, impl_binops_multiplicative,
+        impl_binops_multiplicative_mixed, new_curve_impl,
+    };
+    use crate::{Coordinates, CurveAffine, CurveExt};
+    use core::cmp;
+    use core::fmt::Debug;
+    use core::iter::Sum;
+    use core::ops::{Add, Mul, Neg, Sub};
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+
+    const GX: F59 = F59::from_raw([0, 0]);
+    const GY: F59 = F59::from_raw([1, 0]);
+    const A: F59 = F59::from_raw([56, 0]);
+    const B: F59 = F59::from_raw([1, 0]);
+
+    new_curve_impl!(
+        (pub),
+        TB,
+        TBAffine,
+        F59,
+        F71,
+        (GX, GY),
+        A,
+        B,
+        "tb",
+        |_domain_prefix| unimplemented!(),
+        crate::serde::CompressedFlagConfig::Extra,
+        standard_sign
+    );
+
+    impl group::cofactor::CofactorGroup for TB {
+        type Subgroup = TB;
+        fn clear_cofactor(&self) -> Self {
+            *self
+        }
+        fn into_subgroup(self) -> CtOption<Self::Subgroup> {
+            CtOption::new(self, self.is_torsion_free())
+        }
+        fn is_torsion_free(&self) -> Choice {
+            1.into()
+        }
+    }
+
+    /// A hash-to-curve suite of the library over this curve.
+    pub fn suite<D: digest::Digest + digest::core_api::BlockSizeUser>(
+        domain: &[u8],
+        z: F59,
+    ) -> crate::hash_to_curve::Suite<TB, D, 32> {
+        crate::hash_to_curve::Suite::new(
+            domain,
+            z,
+            crate::hash_to_curve::Method::SSWU(crate::hash_to_curve::Iso {
+                a: A,
+                b: B,
+                map: Box::new(|x, y, z| TB { x, y, z }),
+            }),
+        )
+    }
+}
+pub use tb::{TBAffine, TB};
+
+pub mod tc {
+    use super::{F127, F43};
+    use crate::ff::{Field, PrimeField, WithSmallOrderMulGroup};
+    use crate::group::Curve;
+    use crate::group::{prime::PrimeCurveAffine, Group, GroupEncoding};
+    use crate::{
+        impl_binops_additive, impl_binops_additive_specify_output, impl_binops_multiplicative,
+        impl_binops_multiplicative_mixed, new_curve_impl,
+    };
+    use crate::{Coordinates, CurveAffine, CurveExt};
+    use core::cmp;
+    use core::fmt::Debug;
+    use core::iter::Sum;
+    use core::ops::{Add, Mul, Neg, Sub};
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+
+    const GX: F127 = F127::from_raw([45, 0]);
+    const GY: F127 = F127::from_raw([98, 0]);
+    const A: F127 = F127::from_raw([0, 0]);
+    const B: F127 = F127::from_raw([13, 0]);
+
+    new_curve_impl!(
+        (pub),
+        TC,
+        TCAffine,
+        F127,
+        F43,
+        (GX, GY),
+        A,
+        B,
+        "tc",
+        |_domain_prefix| unimplemented!(),
+        crate::serde::CompressedFlagConfig::ThreeSpare
+    );
+
+    impl crate::serde::Compressed<TCAffine> for TCCompressed {
+        const CONFIG: crate::serde::CompressedFlagConfig =
+            crate::serde::CompressedFlagConfig::ThreeSpare;
+        fn sign(c: &TCAffine) -> Choice {
+            c.y.lexicographically_largest() & !c.is_identity()
+        }
+        fn resolve(x: F127, sign_set: Choice) -> CtOption<TCAffine> {
+            TCAffine::y2(x).sqrt().map(|y| {
+                let y = F127::conditional_select(&y, &-y, sign_set ^ y.lexicographically_largest());
+                TCAffine { x, y }
+            })
+        }
+    }
+
+    impl group::cofactor::CofactorGroup for TC {
+        type Subgroup = TC;
+        fn clear_cofactor(&self) -> Self {
+            self.double() + self
+        }
+        fn into_subgroup(self) -> CtOption<Self::Subgroup> {
+            CtOption::new(self, self.is_torsion_free())
+        }
+        fn is_torsion_free(&self) -> Choice {
+            {
+                let mut acc = Self::identity();
+                (0..43).for_each(|_| acc += self);
+                acc.is_identity()
+            }
+        }
+    }
+
+    /// A hash-to-curve suite of the library over this curve.
+    pub fn suite<D: digest::Digest + digest::core_api::BlockSizeUser>(
+        domain: &[u8],
+        z: F127,
+    ) -> crate::hash_to_curve::Suite<TC, D, 32> {
+        crate::hash_to_curve::Suite::new(domain, z, crate::hash_to_curve::Method::SVDW)
+    }
+}
+pub use tc::{TCAffine, TC};
+
+pub mod td {
+    use super::F31;
+    use super::{F31x2, F43};
+    use crate::ff::{Field, PrimeField, WithSmallOrderMulGroup};
+    use crate::group::Curve;
+    use crate::group::{prime::PrimeCurveAffine, Group, GroupEncoding};
+    use crate::{
+        impl_binops_additive, impl_binops_additive_specify_output, impl_binops_multiplicative,
+        impl_binops_multiplicative_mixed, new_curve_impl,
+    };
+    use crate::{Coordinates, CurveAffine, CurveExt};
+    use core::cmp;
+    use core::fmt::Debug;
+    use core::iter::Sum;
+    use core::ops::{Add, Mul, Neg, Sub};
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+
+    const GX: F31x2 = F31x2::new(F31::from_raw([0, 0, 0, 0]), F31::from_raw([7, 0, 0, 0]));
+    const GY: F31x2 = F31x2::new(F31::from_raw([4, 0, 0, 0]), F31::from_raw([4, 0, 0, 0]));
+    const A: F31x2 = F31x2::new(F31::from_raw([0, 0, 0, 0]), F31::from_raw([0, 0, 0, 0]));
+    const B: F31x2 = F31x2::new(F31::from_raw([0, 0, 0, 0]), F31::from_raw([3, 0, 0, 0]));
+
+    new_curve_impl!(
+        (pub),
+        TD,
+        TDAffine,
+        F31x2,
+        F43,
+        (GX, GY),
+        A,
+        B,
+        "td",
+        |_domain_prefix| unimplemented!(),
+        crate::serde::CompressedFlagConfig::TwoSpare,
+        standard_sign
+    );
+
+    impl group::cofactor::CofactorGroup for TD {
+        type Subgroup = TD;
+        fn clear_cofactor(&self) -> Self {
+            {
+                let mut acc = Self::identity();
+                (0..21).for_each(|_| acc += self);
+                acc
+            }
+        }
+        fn into_subgroup(self) -> CtOption<Self::Subgroup> {
+            CtOption::new(self, self.is_torsion_free())
+        }
+        fn is_torsion_free(&self) -> Choice {
+            {
+                let mut acc = Self::identity();
+                (0..43).for_each(|_| acc += self);
+                acc.is_identity()
+            }
+        }
+    }
+
+    /// A hash-to-curve suite of the library over this curve.
+    pub fn suite<D: digest::Digest + digest::core_api::BlockSizeUser>(
+        domain: &[u8],
+        z: F31x2,
+    ) -> crate::hash_to_curve::Suite<TD, D, 96> {
+        crate::hash_to_curve::Suite::new(domain, z, crate::hash_to_curve::Method::SVDW)
+    }
+}
+pub use td::{TDAffine, TD};
+
+pub mod te {
+    use super::{Fm, Fo};
+    use crate::ff::{Field, PrimeField, WithSmallOrderMulGroup};
+    use crate::group::Curve;
+    use crate::group::{prime::PrimeCurveAffine, Group, GroupEncoding};
+    use crate::{
+        impl_binops_additive, impl_binops_additive_specify_output, impl_binops_multiplicative,
+        impl_binops_multiplicative_mixed, new_curve_impl,
+    };
+    use crate::{Coordinates, CurveAffine, CurveExt};
+    use core::cmp;
+    use core::fmt::Debug;
+    use core::iter::Sum;
+    use core::ops::{Add, Mul, Neg, Sub};
+    use rand::RngCore;
+    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
+
+    const GX: Fm = Fm::from_raw([2, 0]);
+    const GY: Fm = Fm::from_raw([2147483318, 0]);
+    const A: Fm = Fm::from_raw([0, 0]);
+    const B: Fm = Fm::from_raw([17, 0]);
+
+    new_curve_impl!(
+        (pub),
+        TE,
+        TEAffine,
+        Fm,
+        Fo,
+        (GX, GY),
+        A,
+        B,
+        "te",
+        |_domain_prefix| unimplemented!(),
+        crate::serde::CompressedFlagConfig::Extra,
+        standard_sign
+    );
+
+    impl group::cofactor::CofactorGroup for TE {
+        type Subgroup = TE;
+        fn clear_cofactor(&self) -> Self {
+            *self
+        }
+        fn into_subgroup(self) -> CtOption<Self::Subgroup> {
+            CtOption::new(self, self.is_torsion_free())
+        }
+        fn is_torsion_free(&self) -> Choice {
+            1.into()
+        }
+    }
+}
+pub use te::{TEAffine, TE};
-- 
2.43.0


From 16af5d916dfa697bbf82c73f4ea39af53d24028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 02/16] fix: sqrt_algo10 of zero recursed without end

The square root of zero in a quadratic extension with q = 1 mod 4
(pluto_eris Fp2) called itself on zero until the stack overflowed.
---
 src/ff_ext/quadratic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff_ext/quadratic.rs b/src/ff_ext/quadratic.rs
index 59c779c..651f468 100644
--- a/src/ff_ext/quadratic.rs
+++ b/src/ff_ext/quadratic.rs
@@ -102,6 +102,10 @@ pub fn sqrt_algo10<F: ExtField, S: AsRef<[u64]>>(
 where
     QuadExtField<F>: QuadExtFieldArith<Base = F> + ExtField,
 {
+    if el.is_zero().into() {
+        return CtOption::new(QuadExtField::ZERO, Choice::from(1));
+    }
+
     let b = el.pow_vartime(q_minus_1_over_4);
 
     let b_2 = b.square();
-- 
2.43.0


From 07dc79bdc20bfcd36a43c109e159f95a3d702991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 03/16] fix: reject non-canonical components of quadratic
 extension encodings

from_bytes and from_repr unwrapped the decoded components and panicked on
an encoding whose c0 or c1 is not below the modulus; return None instead.
---
 src/derive/field/tower.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index 9f508fb..4ad4582 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -41,13 +41,7 @@ macro_rules! impl_tower2 {
             pub fn from_bytes(bytes: &[u8; $base::SIZE * 2]) -> CtOption<$field> {
                 let c0 = $base::from_bytes(bytes[0..$base::SIZE].try_into().unwrap());
                 let c1 = $base::from_bytes(bytes[$base::SIZE..$base::SIZE * 2].try_into().unwrap());
-                CtOption::new(
-                    $field {
-                        c0: c0.unwrap(),
-                        c1: c1.unwrap(),
-                    },
-                    c0.is_some() & c1.is_some(),
-                )
+                c0.and_then(|c0| c1.map(|c1| $field { c0, c1 }))
             }
 
             /// Converts an element of `$base` into a byte representation in
@@ -132,7 +126,7 @@ macro_rules! impl_tower2 {
                 let c1: <$base as PrimeField>::Repr = c1.into();
                 let c1 = $base::from_repr(c1);
 
-                CtOption::new($field::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+                c0.and_then(|c0| c1.map(|c1| $field { c0, c1 }))
             }
 
             fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 8f5e798da399db063ae9289e354f79239765a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 04/16] fix: lexicographically_largest of (p - 1)/2

An element is larger than its negation from (p + 1)/2 on; the comparison
was made with (p - 1)/2, so that (p - 1)/2 and its negation both counted
as the larger one and a compressed point with such a y lost its sign.
---
 derive/src/field/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/field/mod.rs b/derive/src/field/mod.rs
index 9c71db5..838e562 100644
--- a/derive/src/field/mod.rs
+++ b/derive/src/field/mod.rs
@@ -117,7 +117,8 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
     let modulus_limbs_32_ident = quote! {[#(#modulus_limbs_32,)*]};
 
     let to_token = |e: &BigUint| big_to_token(e, num_limbs);
-    let half_modulus = (&modulus - 1usize) >> 1;
+    // smallest element that is larger than its negation
+    let half_modulus = (&modulus + 1usize) >> 1;
     let half_modulus = to_token(&half_modulus);
 
     // binary modulus
-- 
2.43.0


From b8b43e2a93c05eefca004bd04a2ce51ff55ffd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 05/16] fix: parity of quadratic extension elements with c0 = 0

is_odd looked at c0 only; sgn0 (RFC 9380, 4.1) falls back to c1 when c0
is zero, which is what tells such an element from its negation.
---
 src/derive/field/tower.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index 4ad4582..1d8a7cc 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -139,7 +139,8 @@ macro_rules! impl_tower2 {
             }
 
             fn is_odd(&self) -> Choice {
-                Choice::from(self.to_repr().as_ref()[0] & 1)
+                // sgn0 of RFC 9380 for m = 2
+                self.c0.is_odd() | (self.c0.is_zero() & self.c1.is_odd())
             }
         }
 
-- 
2.43.0


From 674bc67d41f2c33c64ee807ab2e9593c12e020fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 06/16] fix: is_zero of cubic extension elements ignored c2

---
 src/ff_ext/cubic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff_ext/cubic.rs b/src/ff_ext/cubic.rs
index 70af416..27a0a39 100644
--- a/src/ff_ext/cubic.rs
+++ b/src/ff_ext/cubic.rs
@@ -201,7 +201,7 @@ where
     }
 
     fn is_zero(&self) -> subtle::Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From 13707478370256b372c1c1f4ff64e2fa21282c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 07/16] fix: projective is_on_curve accepted every triple with
 Z = 0

---
 src/derive/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 84f4c56..02f1d64 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -430,18 +430,20 @@ macro_rules! new_curve_impl {
                 if $constant_a == $base::ZERO {
                     // Check (Y/Z)^2 = (X/Z)^3 + b
                     // <=>    Z Y^2 - X^3 = Z^3 b
+                    // At infinity (Z = 0) this leaves X = 0, and Y must not be zero too.
 
                     (self.z * self.y.square() - self.x.square() * self.x)
                         .ct_eq(&(self.z.square() * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 } else {
                     // Check (Y/Z)^2 = (X/Z)^3 + a(X/Z) + b
                     // <=>    Z Y^2 - X^3 - a(X Z^2) = Z^3 b
+                    // At infinity (Z = 0) this leaves X = 0, and Y must not be zero too.
 
                     let z2 = self.z.square();
                     (self.z * self.y.square() - (self.x.square() + $constant_a * z2) * self.x)
                         .ct_eq(&(z2 * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 }
             }
 
-- 
2.43.0


From 79798b8cff20d3f5be2db06ed5356e8d930534ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 08/16] fix: compressed decoding rejected the points with x = 0

---
 src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 1377993..ddf731c 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -349,9 +349,9 @@ where
                     // * sign must not be set
 
                     // identity flag not set:
-                    // * x must not be zero
+                    // * any x, zero included, is resolved below
 
-                    let is_valid = (is_identity & is_zero & !sign) ^ (!is_identity & !is_zero);
+                    let is_valid = !is_identity | (is_zero & !sign);
 
                     (is_valid, is_identity)
                 }
-- 
2.43.0


From d795696d4c1ab3ef4bacdb266b49b47c99b0a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 09/16] fix: compressed sign bit of quadratic y ignored the
 second coefficient when the first is zero

---
 src/derive/curve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 02f1d64..7d7a85a 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -69,11 +69,11 @@ macro_rules! new_curve_impl {
             impl $crate::serde::Compressed<$name_affine> for [<$name:upper Compressed >] {
                 const CONFIG: $crate::serde::CompressedFlagConfig = $flag_config;
                 fn sign(c: &$name_affine) -> subtle::Choice {
-                    Choice::from(c.y.to_repr()[0] as u8 & 1) & !c.is_identity()
+                    c.y.is_odd() & !c.is_identity()
                 }
                 fn resolve(x: $base, sign_set: Choice) -> CtOption<$name_affine> {
                     $name_affine::y2(x).sqrt().map(|y| {
-                        let y = $base::conditional_select(&y, &-y, sign_set ^ Choice::from(y.to_repr()[0] as u8 & 1));
+                        let y = $base::conditional_select(&y, &-y, sign_set ^ y.is_odd());
                         $name_affine { x, y }
                     })
                 }
-- 
2.43.0


From 6cf31199549fa7ea3159ac379ebe02e9eb8d347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 10/16] fix: read_raw of points did not check that they are on
 the curve

---
 src/derive/curve.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 7d7a85a..5b5ccb8 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -647,7 +647,14 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "input point is not on the curve",
+                    )
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -747,7 +754,14 @@ macro_rules! new_curve_impl {
             fn read_raw<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "input point is not on the curve",
+                    )
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 1f26a543914b457f775d8527be4ee3fee84c87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 11/16] fix: msm_best doubled equal bases as if the curve's a
 were zero

---
 src/msm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index 615bcb5..7a7c6b5 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -91,7 +91,7 @@ fn batch_add<C: CurveAffine>(
                 // Doubling
                 let x_squared = bases[*base_idx].x.square();
                 *z = buckets[*buck_idx].y() + buckets[*buck_idx].y(); // 2y
-                *t = acc * (x_squared + x_squared + x_squared); // acc * 3x^2
+                *t = acc * (x_squared + x_squared + x_squared + C::a()); // acc * (3x^2 + a)
                 acc *= *z;
                 continue;
             }
-- 
2.43.0


From 8400366c0f5cb940af59349f147d12a6f20a3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 12/16] fix: msm_best gave wrong results or panicked on
 identity bases

---
 src/msm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index 7a7c6b5..efef4f3 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -495,7 +495,8 @@ pub fn msm_best<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
         for (base_idx, coeff) in coeffs.iter().enumerate() {
             let buck_idx = get_booth_index(w, c, coeff.as_ref());
 
-            if buck_idx != 0 {
+            // identity bases contribute nothing, and have no affine coordinates to schedule
+            if buck_idx != 0 && !bool::from(bases[base_idx].is_identity()) {
                 // parse bucket index
                 let sign = buck_idx.is_positive();
                 let buck_idx = buck_idx.unsigned_abs() as usize - 1;
-- 
2.43.0


From e90de6e0466691ef64be97389b3cb06a8753715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 13/16] fix: bls12381 G1 hash-to-curve maps the isogeny kernel
 to the identity

The homogeneous isogeny evaluates to (0 : 0 : 0), which is no point at all,
when the simplified SWU map meets the kernel of the 11-isogeny. Return the
identity, as RFC 9380 section 6.6.3 asks for.
---
 src/bls12381/g1.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 451f1f0..dac01be 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -155,11 +155,14 @@ fn iso_map(x: Fq, y: Fq, z: Fq) -> G1 {
     mapvals[2] *= y;
     mapvals[3] *= z;
 
-    G1 {
+    let p = G1 {
         x: mapvals[0] * mapvals[3], // xnum * yden,
         y: mapvals[2] * mapvals[1], // ynum * xden,
         z: mapvals[1] * mapvals[3], // xden * yden
-    }
+    };
+
+    // The denominators vanish exactly on the kernel of the isogeny, which is mapped to the identity
+    G1::conditional_select(&p, &G1::identity(), p.z.is_zero())
 }
 
 #[allow(clippy::type_complexity)]
-- 
2.43.0


From a88b66021ddd9d12abaeca84359ee8e6c13c22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 14/16] fix: bn256 G2 cofactor clearing does not write to
 stdout

A leftover println! printed 62 lines per call and panicked when stdout
could not be written.
---
 src/bn256/curve.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index dadf31d..2138121 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -165,8 +165,6 @@ fn exp_by_x(g2: &G2) -> G2 {
     let x = super::BN_X;
 
     (0..62).rev().fold(g2.clone(), |mut acc, i| {
-        println!("{}", ((x >> i) & 1) == 1);
-
         acc = acc.double();
         (((x >> i) & 1) == 1).then(|| acc += g2);
         acc
-- 
2.43.0


From 574589f61531351047ba225acb39b498c039ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 15/16] fix: into_subgroup returns a point exactly when it is
 in the subgroup

bls12381 G1 and G2 accepted every point, pluto_eris G2 returned a multiple of
the point, and bn256 G2 panicked.
---
 src/bls12381/g1.rs      | 2 +-
 src/bls12381/g2.rs      | 2 +-
 src/bn256/curve.rs      | 2 +-
 src/pluto_eris/curve.rs | 3 +--
 4 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index dac01be..6093802 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -51,7 +51,7 @@ impl group::cofactor::CofactorGroup for G1 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/bls12381/g2.rs b/src/bls12381/g2.rs
index df77bb5..a5829a2 100644
--- a/src/bls12381/g2.rs
+++ b/src/bls12381/g2.rs
@@ -123,7 +123,7 @@ impl group::cofactor::CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     /// Returns true if this point is free of an $h$-torsion component, and so it
diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index 2138121..4e7aeca 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -224,7 +224,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        unimplemented!();
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/pluto_eris/curve.rs b/src/pluto_eris/curve.rs
index e0452a9..2156099 100644
--- a/src/pluto_eris/curve.rs
+++ b/src/pluto_eris/curve.rs
@@ -202,8 +202,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        // TODO: Handle the case where the point is already in the subgroup.
-        CtOption::new(self.clear_cofactor(), 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
-- 
2.43.0


From ad9bbf3da35732a57f9b2ff0036743131992bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 16/16] fix: random target-group elements for generator streams
 that draw zero

Gt::random panicked when the drawn field element was zero, which has no image
under the final exponentiation. Draw again, as for points.
---
 src/derive/pairing.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/derive/pairing.rs b/src/derive/pairing.rs
index 21cf437..b4da865 100644
--- a/src/derive/pairing.rs
+++ b/src/derive/pairing.rs
@@ -242,9 +242,15 @@ macro_rules! impl_gt {
         impl Group for $target {
             type Scalar = $scalar;
 
-            fn random(rng: impl RngCore) -> Self {
+            fn random(mut rng: impl RngCore) -> Self {
                 use ff::Field;
-                $base::random(rng).final_exponentiation()
+                // zero has no image in the target group
+                loop {
+                    let f = $base::random(&mut rng);
+                    if !bool::from(f.is_zero()) {
+                        return f.final_exponentiation();
+                    }
+                }
             }
 
             fn identity() -> Self {
-- 
2.43.0

