From a6cc4b49a90a21ff99c7ab02504d96694f6dc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 01/40] hooks: cfg-guarded access for external proof harnesses
 (kani / sunscreen_verif)

---
 sunscreen_tfhe/src/lib.rs         |  6 ++++++
 sunscreen_tfhe/src/math/mod.rs    |  4 ++++
 sunscreen_tfhe/src/scratch.rs     | 10 ++++++++++
 sunscreen_tfhe/src/verif_hooks.rs | 32 +++++++++++++++++++++++++++++++
 4 files changed, 52 insertions(+)
 create mode 100644 sunscreen_tfhe/src/verif_hooks.rs

diff --git a/sunscreen_tfhe/src/lib.rs b/sunscreen_tfhe/src/lib.rs
index 4b6b40a..a40437e 100644
--- a/sunscreen_tfhe/src/lib.rs
+++ b/sunscreen_tfhe/src/lib.rs
@@ -2,6 +2,9 @@
 
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
+// `kani` and `sunscreen_verif` are only set by external proof harnesses (see `verif_hooks`).
+#![allow(unexpected_cfgs)]
+#![cfg_attr(any(kani, sunscreen_verif), allow(missing_docs))]
 
 #[macro_use]
 mod dst;
@@ -37,3 +40,6 @@ pub mod high_level;
 /// Container [`Error`] and [`Result`] types for this crate.
 mod error;
 pub use error::*;
+
+#[cfg(any(kani, sunscreen_verif))]
+pub mod verif_hooks;
diff --git a/sunscreen_tfhe/src/math/mod.rs b/sunscreen_tfhe/src/math/mod.rs
index 4d009b8..57bbdba 100644
--- a/sunscreen_tfhe/src/math/mod.rs
+++ b/sunscreen_tfhe/src/math/mod.rs
@@ -6,6 +6,10 @@ pub use sunscreen_math::{One, Zero};
 pub mod fft;
 
 mod goldilocks_field;
+#[cfg(any(kani, sunscreen_verif))]
+pub mod verif_goldilocks {
+    pub use super::goldilocks_field::*;
+}
 
 /// Math operations on polynomials.
 pub mod polynomial;
diff --git a/sunscreen_tfhe/src/scratch.rs b/sunscreen_tfhe/src/scratch.rs
index e280dcf..36632ae 100644
--- a/sunscreen_tfhe/src/scratch.rs
+++ b/sunscreen_tfhe/src/scratch.rs
@@ -172,6 +172,16 @@ impl Scratch {
     }
 }
 
+/// Like [`allocate_scratch`], but from a pool of its own. Used by the proof harnesses, whose
+/// verifier does not support thread-local storage with destructors.
+#[cfg(any(kani, sunscreen_verif))]
+pub fn verif_fresh_scratch<T>(count: usize) -> ScratchBuffer<'static, T>
+where
+    T: Pod,
+{
+    Scratch::new().allocate::<T>(count)
+}
+
 struct Allocation {
     data: AVec<u8, RuntimeAlign>,
 }
diff --git a/sunscreen_tfhe/src/verif_hooks.rs b/sunscreen_tfhe/src/verif_hooks.rs
new file mode 100644
index 0000000..b898dd8
--- /dev/null
+++ b/sunscreen_tfhe/src/verif_hooks.rs
@@ -0,0 +1,32 @@
+//! Access to crate-private items for the external proof harnesses.
+//!
+//! Compiled only under `cfg(kani)` or `--cfg sunscreen_verif`; nothing in the library uses it.
+#![allow(missing_docs)]
+
+use crate::{LweDef, TorusOps, entities::LweCiphertextRef};
+
+pub use crate::iteration::{TriangularPairs, TriangularPairsExt};
+pub use crate::math::verif_goldilocks as goldilocks;
+pub use crate::scratch::{SIMD_ALIGN, ScratchBuffer, allocate_scratch, verif_fresh_scratch};
+
+pub fn sub_lwe_ciphertexts<S: TorusOps>(
+    c: &mut LweCiphertextRef<S>,
+    a: &LweCiphertextRef<S>,
+    b: &LweCiphertextRef<S>,
+    params: &LweDef,
+) {
+    crate::ops::ciphertext::sub_lwe_ciphertexts(c, a, b, params)
+}
+
+pub fn scalar_mul_ciphertext_mad<S: TorusOps>(
+    c: &mut LweCiphertextRef<S>,
+    scalar: &S,
+    a: &LweCiphertextRef<S>,
+    params: &LweDef,
+) {
+    crate::ops::ciphertext::scalar_mul_ciphertext_mad(c, scalar, a, params)
+}
+
+pub fn linear_index(i: usize, j: usize, n: usize) -> usize {
+    crate::entities::get_linear_index(i, j, n)
+}
-- 
2.43.0


From 58ae86fd9442b5fac4adfeae501a32c2948df71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 02/40] hooks: let harness builds force the portable vector
 kernels and reach table generation

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 15 +++++++++++
 sunscreen_tfhe/src/verif_hooks.rs          | 29 +++++++++++++++++++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index bf04674..fc724e1 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -13,6 +13,11 @@ use crate::{
 
 #[inline(always)]
 fn avx_512_available() -> bool {
+    #[cfg(sunscreen_verif)]
+    if crate::verif_hooks::scalar_only() {
+        return false;
+    }
+
     static AVX512_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX512_AVAILABLE.get_or_init(|| {
@@ -26,6 +31,11 @@ fn avx_512_available() -> bool {
 
 #[inline(always)]
 fn avx2_available() -> bool {
+    #[cfg(sunscreen_verif)]
+    if crate::verif_hooks::scalar_only() {
+        return false;
+    }
+
     static AVX2_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX2_AVAILABLE.get_or_init(|| {
@@ -39,6 +49,11 @@ fn avx2_available() -> bool {
 
 #[inline(always)]
 fn fma_available() -> bool {
+    #[cfg(sunscreen_verif)]
+    if crate::verif_hooks::scalar_only() {
+        return false;
+    }
+
     static FMA_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *FMA_AVAILABLE.get_or_init(|| {
diff --git a/sunscreen_tfhe/src/verif_hooks.rs b/sunscreen_tfhe/src/verif_hooks.rs
index b898dd8..623f67b 100644
--- a/sunscreen_tfhe/src/verif_hooks.rs
+++ b/sunscreen_tfhe/src/verif_hooks.rs
@@ -3,9 +3,16 @@
 //! Compiled only under `cfg(kani)` or `--cfg sunscreen_verif`; nothing in the library uses it.
 #![allow(missing_docs)]
 
-use crate::{LweDef, TorusOps, entities::LweCiphertextRef};
+use std::sync::atomic::{AtomicBool, Ordering};
 
+use crate::{
+    GlweDef, LweDef, PlaintextBits, Torus, TorusOps,
+    entities::{LweCiphertextRef, PolynomialRef},
+};
+
+pub use crate::dst::{FromMutSlice, FromSlice};
 pub use crate::iteration::{TriangularPairs, TriangularPairsExt};
+pub use crate::math::simd::VectorOps;
 pub use crate::math::verif_goldilocks as goldilocks;
 pub use crate::scratch::{SIMD_ALIGN, ScratchBuffer, allocate_scratch, verif_fresh_scratch};
 
@@ -30,3 +37,23 @@ pub fn scalar_mul_ciphertext_mad<S: TorusOps>(
 pub fn linear_index(i: usize, j: usize, n: usize) -> usize {
     crate::entities::get_linear_index(i, j, n)
 }
+
+pub fn generate_lut<S: TorusOps, F: Fn(u64) -> u64>(
+    output: &mut PolynomialRef<Torus<S>>,
+    maps: &[F],
+    params: &GlweDef,
+    plaintext_bits: PlaintextBits,
+) {
+    crate::ops::bootstrapping::generate_lut(output, maps, params, plaintext_bits)
+}
+
+static SCALAR_ONLY: AtomicBool = AtomicBool::new(false);
+
+/// Make the CPU feature queries answer "not available" (native harness builds only).
+pub fn set_scalar_only(value: bool) {
+    SCALAR_ONLY.store(value, Ordering::Relaxed);
+}
+
+pub fn scalar_only() -> bool {
+    SCALAR_ONLY.load(Ordering::Relaxed)
+}
-- 
2.43.0


From d3247dec1510143c0febabf07c5002453860685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 03/40] fix: Torus::decode mask overflowed for messages of 32
 bits or more

---
 sunscreen_tfhe/src/math/torus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/torus.rs b/sunscreen_tfhe/src/math/torus.rs
index e03ad0e..19ce18b 100644
--- a/sunscreen_tfhe/src/math/torus.rs
+++ b/sunscreen_tfhe/src/math/torus.rs
@@ -294,7 +294,7 @@ impl<S: TorusOps> Torus<S> {
         assert!(plain_bits.0 < S::BITS);
 
         let round_bit = self.0.wrapping_shr(S::BITS - plain_bits.0 - 1) & S::from(0x1);
-        let mask = S::from((0x1 << plain_bits.0) - 1);
+        let mask = S::from_u64((0x1u64 << plain_bits.0) - 1);
 
         (self.0.wrapping_shr(S::BITS - plain_bits.0) + round_bit) & mask
     }
-- 
2.43.0


From af757cd859d1ed07175915da7655446177cc5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 04/40] fix: radix rounding underflowed when the decomposition
 covers every bit

---
 sunscreen_tfhe/src/math/radix.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index 21e71bd..aea0be3 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -156,6 +156,12 @@ pub fn scale_by_decomposition_factor<S: TorusOps>(
 /// Rounds the given [`Torus`] element and returns the value interpreted as an integer.
 fn round<S: TorusOps>(x: Torus<S>, radix: &RadixDecomposition) -> S {
     let shift = S::BITS as usize - radix.radix_log.0 * radix.count.0;
+
+    // The decomposition covers every bit, so there is nothing to round off.
+    if shift == 0 {
+        return x.inner();
+    }
+
     let round_bit = (x.inner() >> (shift - 1)) & S::from_u64(0x1);
 
     (x.inner() >> shift).wrapping_add(&round_bit)
-- 
2.43.0


From be0147733c41924af5074b3b8c3dcb998da63eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 05/40] fix: u64 vector_sub added on CPUs without AVX2

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index fc724e1..8cc80a0 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -165,7 +165,7 @@ impl VectorOps for u64 {
         if avx2_available() {
             unsafe { avx2::vector_sub_u64(c, a, b) };
         } else {
-            scalar::vector_add(c, a, b);
+            scalar::vector_sub(c, a, b);
         }
     }
 
-- 
2.43.0


From d7e35923c8e4e71ccc0619806d1dcadea7f59231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 06/40] fix: word vector kernels panicked on wrap-around when
 overflow checks are on

---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 12 +++++-------
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs |  4 ++--
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index aa7d863..8772a1e 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -1,8 +1,8 @@
-use std::ops::{Add, BitAnd, Shl, Shr};
+use std::ops::{BitAnd, Shl, Shr};
 
 use num::{
     Complex, Float,
-    traits::{MulAdd, WrappingAdd, WrappingSub},
+    traits::{WrappingAdd, WrappingMul, WrappingSub},
 };
 use sunscreen_math::One;
 
@@ -119,14 +119,12 @@ pub fn vector_mod_pow2_q_f64<T: FromF64>(c: &mut [T], a: &[f64], log2_q: u64) {
 }
 
 #[inline(always)]
-pub fn vector_scalar_mad<S, T, U>(c: &mut [S], a: &[T], s: U)
+pub fn vector_scalar_mad<T>(c: &mut [T], a: &[T], s: T)
 where
-    S: Clone + Copy + Add<S, Output = S>,
-    T: Clone + Copy + MulAdd<U, S, Output = S>,
-    U: Clone + Copy,
+    T: Clone + Copy + WrappingMul<Output = T> + WrappingAdd<Output = T>,
 {
     for (c, a) in c.iter_mut().zip(a.iter()) {
-        *c = a.mul_add(s, *c);
+        *c = c.wrapping_add(&a.wrapping_mul(&s));
     }
 }
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index f4cfcd0..6b9e92f 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -40,7 +40,7 @@ pub fn complex_untwist<T: Float>(output: &mut [T], ifft: &[Complex<T>], twist_in
 #[target_feature(enable = "avx2,fma")]
 pub fn vector_add_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
     for (c, (a, b)) in c.iter_mut().zip(a.iter().cloned().zip(b.iter().cloned())) {
-        *c = a + b;
+        *c = a.wrapping_add(b);
     }
 }
 
@@ -48,7 +48,7 @@ pub fn vector_add_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
 #[target_feature(enable = "avx2,fma")]
 pub fn vector_sub_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
     for (c, (a, b)) in c.iter_mut().zip(a.iter().cloned().zip(b.iter().cloned())) {
-        *c = a - b;
+        *c = a.wrapping_sub(b);
     }
 }
 
-- 
2.43.0


From ec34422cda63e9c15e831e35de501be018fb1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 07/40] fix: AVX-512 scalar multiply-add overran short or
 unaligned vectors

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index 8cc80a0..3cc91af 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -189,7 +189,12 @@ impl VectorOps for u64 {
 
     #[inline(always)]
     fn vector_scalar_mad(c: &mut [Self], a: &[Self], s: Self) {
-        if avx_512_available() {
+        // The AVX512 kernel processes blocks of 16 words with aligned loads and stores.
+        let align = core::mem::align_of::<__m512d>();
+        let blocks = c.len() == a.len() && c.len() % 16 == 0;
+        let aligned = c.as_ptr().align_offset(align) == 0 && a.as_ptr().align_offset(align) == 0;
+
+        if avx_512_available() && blocks && aligned {
             avx512::vector_scalar_mad(c, a, s);
         } else {
             scalar::vector_scalar_mad(c, a, s);
-- 
2.43.0


From 220cc27256455d0be5dce874d2c77a9494d00f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 08/40] fix: rounded division was wrong for odd, unit and
 negative operands

---
 sunscreen_tfhe/src/math/basic.rs | 37 ++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/sunscreen_tfhe/src/math/basic.rs b/sunscreen_tfhe/src/math/basic.rs
index 19cc422..0093b86 100644
--- a/sunscreen_tfhe/src/math/basic.rs
+++ b/sunscreen_tfhe/src/math/basic.rs
@@ -16,7 +16,30 @@ macro_rules! div_rounded {
                 // inputs in half before overflow.
                 let q = self / divisor;
                 let r = self % divisor;
-                if r >= divisor / 2 { q + 1 } else { q }
+                if r >= divisor - r { q + 1 } else { q }
+            }
+        }
+    };
+}
+
+macro_rules! div_rounded_signed {
+    ($t:ty) => {
+        impl RoundedDiv for $t {
+            #[inline(always)]
+            fn div_rounded(&self, divisor: $t) -> $t {
+                // As above, but the remainder takes the sign of the numerator, so
+                // compare magnitudes and step away from zero.
+                let q = self / divisor;
+                let r = (self % divisor).unsigned_abs();
+                if r >= divisor.unsigned_abs() - r {
+                    if (*self < 0) == (divisor < 0) {
+                        q + 1
+                    } else {
+                        q - 1
+                    }
+                } else {
+                    q
+                }
             }
         }
     };
@@ -28,12 +51,12 @@ div_rounded!(u32);
 div_rounded!(u64);
 div_rounded!(u128);
 div_rounded!(usize);
-div_rounded!(i8);
-div_rounded!(i16);
-div_rounded!(i32);
-div_rounded!(i64);
-div_rounded!(i128);
-div_rounded!(isize);
+div_rounded_signed!(i8);
+div_rounded_signed!(i16);
+div_rounded_signed!(i32);
+div_rounded_signed!(i64);
+div_rounded_signed!(i128);
+div_rounded_signed!(isize);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From d9eff977374f34d6262049b5c6007e2d5e5f3ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 09/40] fix: entity iterators miscounted remaining items and
 panicked on empty storage

---
 sunscreen_tfhe/src/dst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index ae6ee10..e54ae9b 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -179,7 +179,7 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::ExactSizeIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 #[inline(always)]
                 fn len(&self) -> usize {
-                    self.data.len() / self.stride
+                    (self.back_idx + self.stride as i64 - self.front_idx as i64) as usize / self.stride
                 }
             }
 
@@ -332,7 +332,7 @@ macro_rules! dst_iter {
                 pub fn new(data: &'a mut [$wrapper_type<T>], stride: usize) -> Self {
                     assert_eq!(data.len() % stride, 0);
 
-                    let len = (data.len() - stride) as isize;
+                    let len = data.len() as isize - stride as isize;
 
                     Self {
                         start: data.as_mut_ptr(),
-- 
2.43.0


From 39a59659e422cdc3c2e23b6bf7901f4c9672269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 10/40] fix: GLWE encryption added onto stale contents of the
 output body

---
 sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index b53e431..38ec73f 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -42,7 +42,7 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
     }
 
     // b = A * S
-    polynomial_add_assign(b, &tmp);
+    b.clone_from_ref(&tmp);
 
     // b = A * S + m
     polynomial_add_assign(b, msg);
-- 
2.43.0


From ae6e74784cdeb0f1ed517beb85f23952347bc52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 11/40] fix: private functional keyswitch accumulated onto
 stale output

---
 .../src/ops/keyswitch/private_functional_keyswitch.rs           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index 5a09a6d..cdb6475 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -122,6 +122,8 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     assert_eq!(lwe_count.0, inputs.len());
 
+    output.clear();
+
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
     for input in inputs.iter() {
-- 
2.43.0


From 45103f84ab8a2f9b9644464655581e063522e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 12/40] fix: public functional keyswitch passed stale scratch
 to the map as its zeroed output

---
 sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 4c30992..9cac4e0 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -126,6 +126,7 @@ pub fn public_functional_keyswitch<S, F>(
 
         row.fft(glev_fft, to_glwe);
 
+        poly.clear();
         f(poly, lwe_vals);
 
         let decomp = PolynomialRadixIterator::new(poly, decomp_scratch, radix);
@@ -138,6 +139,7 @@ pub fn public_functional_keyswitch<S, F>(
         lwe_vals[j] = *b;
     }
 
+    poly.clear();
     f(poly, lwe_vals);
 
     output_fft.ifft(output, to_glwe);
-- 
2.43.0


From 28b6f5e0921c1bbcd7da9c903be04977ad6b985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 13/40] fix: FFT scheme switch accumulated onto stale output

---
 sunscreen_tfhe/src/ops/fft_ops.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index eb47ee8..144177e 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -264,6 +264,9 @@ fn scheme_switch_glwe_operation<S>(
 
     let a_i = x_i.a(params);
 
+    // The sum below accumulates onto y_i_j, of which only one polynomial is set here.
+    y_i_j.clear();
+
     // Generate encrypted secret key component for this specific GLWE
     update_encrypted_secret_key_component_fft(y_i_j, x_i, j, params);
 
-- 
2.43.0


From 103dbbe9e8b2ab313d8490890511c86e0ef6c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 14/40] fix: RLEV encryption printed the message and panicked
 for degrees below 16

---
 sunscreen_tfhe/src/ops/encryption/glev_encryption.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd0e79f..bd91437 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -155,8 +155,6 @@ pub fn encrypt_rlev_ciphertext<S>(
     for (j, glwe) in rlev_ciphertext.glwe_ciphertexts_mut(params).enumerate() {
         scale_msg_by_gadget_factor(scaled_msg, msg, radix.radix_log.0, j);
 
-        dbg!(&scaled_msg.coeffs()[0..16]);
-
         rlwe_encrypt_public(glwe, scaled_msg, rlwe_public_key, params);
     }
 }
-- 
2.43.0


From ab98555064b846c70289d5de392df9f70bb8cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 15/40] fix: LWE keyswitch key generation overflowed for
 non-binary keys

---
 sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs b/sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs
index 1316725..8b6750e 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs
@@ -42,7 +42,7 @@ pub fn generate_keyswitch_key_lwe<S>(
             let decomp_factor =
                 S::from_u64(0x1 << (S::BITS as usize - decomposition_radix_log * (j + 1)));
 
-            let msg = decomp_factor * s_i;
+            let msg = decomp_factor.wrapping_mul(&s_i);
 
             encrypt_lwe_ciphertext(col, new_lwe_secret_key, Torus::from(msg), new_params);
         }
-- 
2.43.0


From f218bb851e6a70f353b16053ecf78299b7aa44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 16/40] fix: Goldilocks constructor and negation produced a
 non-canonical zero

---
 sunscreen_tfhe/src/math/goldilocks_field.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/goldilocks_field.rs b/sunscreen_tfhe/src/math/goldilocks_field.rs
index 915913b..abe2811 100644
--- a/sunscreen_tfhe/src/math/goldilocks_field.rs
+++ b/sunscreen_tfhe/src/math/goldilocks_field.rs
@@ -36,7 +36,7 @@ impl RootOfUnity for Fg {
 impl Fg {
     /// Returns `x % GOLDILOCKS_PRIME`
     pub fn new(x: u64) -> Self {
-        if x > GOLDILOCKS_PRIME {
+        if x >= GOLDILOCKS_PRIME {
             Self(x - GOLDILOCKS_PRIME)
         } else {
             Self(x)
@@ -139,7 +139,11 @@ impl Neg for Fg {
     type Output = Fg;
 
     fn neg(self) -> Self::Output {
-        Self(GOLDILOCKS_PRIME - self.0)
+        if self.0 == 0 {
+            self
+        } else {
+            Self(GOLDILOCKS_PRIME - self.0)
+        }
     }
 }
 
-- 
2.43.0


From f73dc879b04e6594179b40b95fa3dce416086144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 17/40] fix: a refused AtomicRefCell borrow released the
 outstanding mutable borrow

---
 parasol_concurrency/src/lib.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index b3ba051..7bd7793 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -73,15 +73,22 @@ impl<T> AtomicRefCell<T> {
     /// # Panics
     /// If the underlying value is already mutably borrowed.
     pub fn borrow(&self) -> Ref<T> {
-        let old = self.state.fetch_add(1, Ordering::Acquire);
-
-        if old == 0 {
-            panic!("AtomicRefCell already borrowed as mut");
-        }
+        // A refused borrow must leave the count alone: touching it while a mutable borrow is
+        // outstanding would make the cell look free.
+        let res = self
+            .state
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| {
+                if count == 0 || count >= usize::MAX / 2 {
+                    None
+                } else {
+                    Some(count + 1)
+                }
+            });
 
-        if old >= usize::MAX / 2 {
-            self.state.fetch_sub(1, Ordering::Acquire);
-            panic!("AtomicRefCell says I think you have enough references, buddy.");
+        match res {
+            Ok(_) => (),
+            Err(0) => panic!("AtomicRefCell already borrowed as mut"),
+            Err(_) => panic!("AtomicRefCell says I think you have enough references, buddy."),
         }
 
         Ref {
-- 
2.43.0


From 73158ff264a6d9dffd1c5eca383807d957c2e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 18/40] fix: polynomial equality ignored the leading
 coefficient

---
 sunscreen_math/src/poly/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index 57fda40..aaecc73 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -43,7 +43,7 @@ where
             return false;
         }
 
-        for i in 0..lhs_degree {
+        for i in 0..=lhs_degree {
             if self.coeffs[i] != other.coeffs[i] {
                 return false;
             }
-- 
2.43.0


From f6e7a4aee0edb917f2d299f75292d3fc214b58b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 19/40] fix: polynomial division accepted divisors it cannot
 divide by

---
 sunscreen_math/src/poly/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index aaecc73..c999901 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -117,15 +117,20 @@ where
     pub fn vartime_div_rem_restricted_rhs(&self, rhs: &Self) -> (Self, Self) {
         let mut rem = self.clone();
 
+        // Will panic if rhs is `Self::zero()`
+        let rhs_degree = rhs.vartime_degree();
+
+        assert!(
+            rhs.coeffs[rhs_degree] == R::one(),
+            "Divisor's leading coefficient must be one."
+        );
+
         if self.vartime_is_zero() {
             return (Self::zero(), Self::zero());
         }
 
         let lhs_degree = self.vartime_degree();
 
-        // Will panic if rhs is `Self::zero()`
-        let rhs_degree = rhs.vartime_degree();
-
         // If the denominator is higher degree than the numerator, then we're done.
         if lhs_degree < rhs_degree {
             return (Self::zero(), rem);
-- 
2.43.0


From 46548c940dae2993731ce06fe961887173829b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 20/40] fix: exponentiation shifted narrow exponents past their
 width

---
 sunscreen_tfhe/src/math/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/mod.rs b/sunscreen_tfhe/src/math/mod.rs
index 57bbdba..f506635 100644
--- a/sunscreen_tfhe/src/math/mod.rs
+++ b/sunscreen_tfhe/src/math/mod.rs
@@ -69,7 +69,9 @@ where
         let mut result = U::one();
         let mut power = *self;
 
-        for i in 0..64 {
+        let bits = u32::min(64, 8 * std::mem::size_of::<T>() as u32);
+
+        for i in 0..bits {
             if (exp >> i) & T::one() == T::one() {
                 result = result * power
             }
-- 
2.43.0


From c0a4c23dcae27acd39ecd3a7ea7879a34daaea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 21/40] fix: scratch slices were created with a byte count as
 their element count

---
 sunscreen_tfhe/src/scratch.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sunscreen_tfhe/src/scratch.rs b/sunscreen_tfhe/src/scratch.rs
index 36632ae..4dfa67b 100644
--- a/sunscreen_tfhe/src/scratch.rs
+++ b/sunscreen_tfhe/src/scratch.rs
@@ -205,19 +205,20 @@ impl<T> ScratchBuffer<'_, T> {
     #[allow(unused)]
     /// Get a slice to the underlying data.
     pub fn as_slice(&self) -> &[T] {
-        let slice =
-            unsafe { std::mem::transmute::<&[u8], &[T]>((*self.allocation).data.as_slice()) };
+        let data = unsafe { (*self.allocation).data.as_slice() };
 
-        &slice[0..self.requested_len]
+        assert!(self.requested_len <= data.len() / size_of::<T>());
+
+        unsafe { std::slice::from_raw_parts(data.as_ptr().cast(), self.requested_len) }
     }
 
     /// Get a mutable slice to the underlying data.
     pub fn as_mut_slice(&mut self) -> &mut [T] {
-        let slice = unsafe {
-            std::mem::transmute::<&mut [u8], &mut [T]>((*self.allocation).data.as_mut_slice())
-        };
+        let data = unsafe { (*self.allocation).data.as_mut_slice() };
+
+        assert!(self.requested_len <= data.len() / size_of::<T>());
 
-        &mut slice[0..self.requested_len]
+        unsafe { std::slice::from_raw_parts_mut(data.as_mut_ptr().cast(), self.requested_len) }
     }
 }
 
-- 
2.43.0


From 3ebfa17901b0bdcf69805c63865b73bf613c7af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 22/40] hooks: expose the Pod trait to proof harnesses

---
 sunscreen_tfhe/src/verif_hooks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/verif_hooks.rs b/sunscreen_tfhe/src/verif_hooks.rs
index 623f67b..f88ead7 100644
--- a/sunscreen_tfhe/src/verif_hooks.rs
+++ b/sunscreen_tfhe/src/verif_hooks.rs
@@ -14,7 +14,7 @@ pub use crate::dst::{FromMutSlice, FromSlice};
 pub use crate::iteration::{TriangularPairs, TriangularPairsExt};
 pub use crate::math::simd::VectorOps;
 pub use crate::math::verif_goldilocks as goldilocks;
-pub use crate::scratch::{SIMD_ALIGN, ScratchBuffer, allocate_scratch, verif_fresh_scratch};
+pub use crate::scratch::{Pod, SIMD_ALIGN, ScratchBuffer, allocate_scratch, verif_fresh_scratch};
 
 pub fn sub_lwe_ciphertexts<S: TorusOps>(
     c: &mut LweCiphertextRef<S>,
-- 
2.43.0


From 3b459621a95189d222e1265993a13ee7a0317c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 23/40] fix: arbitrary_width_borrowing_sub keeps every bit at
 width 128

---
 mux_circuits/src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mux_circuits/src/util.rs b/mux_circuits/src/util.rs
index 2051b18..19fa746 100644
--- a/mux_circuits/src/util.rs
+++ b/mux_circuits/src/util.rs
@@ -31,7 +31,11 @@ pub fn arbitrary_width_borrowing_sub(
     borrow: u128,
     width: u32,
 ) -> (u128, u128) {
-    let diff_mask = (0x1 << width) - 1;
+    let diff_mask = if width < u128::BITS {
+        (0x1 << width) - 1
+    } else {
+        u128::MAX
+    };
 
     let (diff, borrow) = borrowing_sub(lhs, rhs, borrow != 0);
 
-- 
2.43.0


From 2478b47a1d5439c110df22a3e217973ca0e04fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 24/40] fix: try_to_bits accepts widths of 64 bits and more

---
 mux_circuits/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mux_circuits/src/util.rs b/mux_circuits/src/util.rs
index 19fa746..81831d1 100644
--- a/mux_circuits/src/util.rs
+++ b/mux_circuits/src/util.rs
@@ -51,7 +51,7 @@ pub fn arbitrary_width_borrowing_sub(
 pub fn try_to_bits(val: u64, bits: usize) -> Result<Vec<Bit>, Error> {
     let mut result = vec![Bit(false); bits];
 
-    if val >= 0x1 << bits {
+    if bits < u64::BITS as usize && val >= 0x1 << bits {
         return Err(Error::OutOfRange);
     }
 
-- 
2.43.0


From bd79142a9f648f4c7a7e49c48a801ad5cc4af662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 25/40] fix: check_range_is_mapped looked one page too far and
 wrapped

The range ptr..ptr + len ends at the byte ptr + len - 1. A range that ends at the
end of a mapped page was refused when the next page is not mapped, one that wraps
past the end of the address space was accepted (or aborted in a debug build), and
the address reported was not the one that is not mapped.
---
 parasol_cpu/src/memory/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 586c42b..1faf3db 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -712,14 +712,18 @@ impl Memory {
     /// Returns an error if pointer arithmetic wraps for an address in the given range
     /// has no page mapping.
     pub fn check_range_is_mapped(&self, ptr: Ptr32, len: u32) -> Result<()> {
+        if len == 0 {
+            return Ok(());
+        }
+
         let start_page = ptr.0 / PAGE_SIZE;
-        let end_page = (ptr.0 + len) / PAGE_SIZE;
+        let end_page = ptr.try_offset(len - 1)?.0 / PAGE_SIZE;
 
         let pages = self.pages.lock().unwrap();
 
         for i in start_page..=end_page {
             if pages[i as usize].is_none() {
-                return Err(Error::AccessViolation(ptr.try_offset(i * PAGE_SIZE)?.0));
+                return Err(Error::AccessViolation(ptr.0.max(i * PAGE_SIZE)));
             }
         }
 
-- 
2.43.0


From ad41b8cf1e180e0f2a67eca59fdc2182e589f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 26/40] fix: try_allocate_at mapped a page too many

A region that ends at a page boundary also got the page after it, so accesses just
past the stack or an ELF segment were not reported.
---
 parasol_cpu/src/memory/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 1faf3db..952cbf5 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -509,7 +509,7 @@ impl Memory {
         }
 
         let start_page_id = Page::page_id_from_pointer(virtual_address) as usize;
-        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len)?) as usize;
+        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len - 1)?) as usize;
 
         let mut pages = self.pages.lock().unwrap();
 
-- 
2.43.0


From da13e1ee6b508020bf8fb55a4d55debda7254ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 27/40] fix: try_push_arg_onto_stack misaligned arguments and
 overwrote the last one

The padding was computed for a stack that grows up, before the length of the
argument was subtracted, and was stored from the stack pointer itself down, over
the first byte of what was pushed before. A push that does not fit moved the stack
pointer and wrote part of the argument.
---
 parasol_cpu/src/memory/mod.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 952cbf5..2acd7bc 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -474,23 +474,27 @@ impl Memory {
         }
 
         let alignment = data.alignment as u32;
+        let len = u32::try_from(data.bytes.len()).map_err(|_| Error::PointerOverflow)?;
 
-        let padding_bytes = (alignment - stack_ptr.0 % alignment) % alignment;
+        // The stack grows down, so round the address of the argument down to align it.
+        let unaligned = stack_ptr.0.checked_sub(len).ok_or(Error::PointerOverflow)?;
+        let arg_ptr = Ptr32(unaligned - unaligned % alignment);
 
-        // Push padding to align data
-        for i in 0..padding_bytes {
-            self.try_store(*stack_ptr, Byte::from(0))?;
-            *stack_ptr = stack_ptr.try_signed_offset(-1)?;
-        }
-
-        *stack_ptr = stack_ptr.try_signed_offset(-(data.bytes.len() as i32))?;
+        self.check_range_is_mapped(arg_ptr, stack_ptr.0 - arg_ptr.0)?;
 
         // Write the bytes in the argument
         for (i, b) in data.bytes.iter().enumerate() {
-            self.try_store(stack_ptr.try_offset(i as u32)?, b.clone())?;
+            self.try_store(arg_ptr.try_offset(i as u32)?, b.clone())?;
         }
 
-        Ok(*stack_ptr)
+        // Zero the padding between the argument and what was pushed before it
+        for i in arg_ptr.0 + len..stack_ptr.0 {
+            self.try_store(Ptr32(i), Byte::from(0))?;
+        }
+
+        *stack_ptr = arg_ptr;
+
+        Ok(arg_ptr)
     }
 
     /// Get the current stack pointer
-- 
2.43.0


From faac562b954a51607874d5c5fef2b8e2ceaaae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 28/40] fix: try_allocate handed out unmapped memory for huge
 requests

Rounding len up wraps for requests of more than 2^32 - PAGE_SIZE bytes, which then
succeed without mapping anything; and the last page of the address space was never
considered.
---
 parasol_cpu/src/memory/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 2acd7bc..c4a5089 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -605,7 +605,7 @@ impl Memory {
         }
 
         let mut pages = self.pages.lock().unwrap();
-        let num_pages = len.next_multiple_of(PAGE_SIZE) / PAGE_SIZE;
+        let num_pages = len.div_ceil(PAGE_SIZE);
 
         // Never allocate the zero page for end-user use. We don't want to ever
         // give a valid null virtual address to user applications, as many languages generate
@@ -616,7 +616,7 @@ impl Memory {
         // the address space?
         //
         // See https://www.sobyte.net/post/2022-03/mmap/ for more some ideas on how to do this.
-        while base_id + num_pages < TOTAL_PAGES {
+        while base_id + num_pages <= TOTAL_PAGES {
             if let Some(i) = (base_id..base_id + num_pages).find(|i| pages[*i as usize].is_some()) {
                 base_id = i + 1;
                 continue;
-- 
2.43.0


From 1678395378708e8979f9a069c625f38e015860c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 29/40] fix: Allocation::try_allocate never reused an
 allocation

The offset of the next free byte was set to an address, so every later request made
a new virtual allocation (or wrapped and handed out bytes already in use), and a
request that exactly fills the allocation was refused.
---
 parasol_cpu/src/memory/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index c4a5089..be9bc03 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -832,7 +832,7 @@ impl Allocation {
         let base = memory.try_allocate(len)?;
 
         let allocation = Self {
-            size: len.next_multiple_of(PAGE_SIZE),
+            size: len.checked_next_multiple_of(PAGE_SIZE).unwrap_or(len),
             next_free: len,
             base,
         };
@@ -874,16 +874,18 @@ impl Allocation {
             }
         };
 
-        let padded = existing.next_free.next_multiple_of(alignment);
+        let start = existing.next_free.checked_next_multiple_of(alignment);
+        let end = start.and_then(|s| s.checked_add(len));
 
-        // If we lack space in this allocation, make another.
-        if padded + len >= existing.size {
-            return Self::new(memory, len);
-        }
+        let (padded, end) = match (start, end) {
+            (Some(start), Some(end)) if end <= existing.size => (start, end),
+            // If we lack space in this allocation, make another.
+            _ => return Self::new(memory, len),
+        };
 
         let ptr = existing.base.try_offset(padded)?;
 
-        existing.next_free = ptr.0 + len;
+        existing.next_free = end;
 
         Ok((existing, ptr))
     }
-- 
2.43.0


From 283931342c8b9e55bd7fa4039803de91cf54ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:13 +0000
Subject: [PATCH 30/40] fix: decoding a word with stray bits aborted the
 processor

An arbitrary word with a valid opcode and bits set past the last operand is an
illegal instruction, not a reason to panic.
---
 parasol_cpu/src/proc/assembly.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/assembly.rs b/parasol_cpu/src/proc/assembly.rs
index 39e19db..e9d151f 100644
--- a/parasol_cpu/src/proc/assembly.rs
+++ b/parasol_cpu/src/proc/assembly.rs
@@ -120,7 +120,9 @@ macro_rules! define_op {
                                         let value = value >> $unused_width;
                                     )*
 
-                                    assert_eq!(value, 0);
+                                    if value != 0 {
+                                        return Err(Error::IllegalInstruction(0));
+                                    }
 
                                     $inst_name :: $op_name(
                                         $($dst_name,)*
-- 
2.43.0


From 6612eadf766cfa9143c62ebc130dcc10bdfd5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 31/40] fix: plaintext instructions aborted or gave zero on
 wide registers

The mask (1 << width) - 1 overflows for 128-bit registers, which the instruction set
allows, as did the range check of LoadI for widths above 32, and add with carry lost
the carry out of bit 127.
---
 parasol_cpu/src/proc/mod.rs             |  9 +++++++++
 parasol_cpu/src/proc/ops/add.rs         | 19 +++++++++++--------
 parasol_cpu/src/proc/ops/and.rs         |  4 ++--
 parasol_cpu/src/proc/ops/casting.rs     |  8 ++++----
 parasol_cpu/src/proc/ops/comparisons.rs |  4 ++--
 parasol_cpu/src/proc/ops/loadi.rs       |  8 ++++----
 parasol_cpu/src/proc/ops/neg.rs         |  4 ++--
 parasol_cpu/src/proc/ops/not.rs         |  4 ++--
 parasol_cpu/src/proc/ops/or.rs          |  4 ++--
 parasol_cpu/src/proc/ops/sub.rs         |  4 ++--
 parasol_cpu/src/proc/ops/xor.rs         |  4 ++--
 11 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/parasol_cpu/src/proc/mod.rs b/parasol_cpu/src/proc/mod.rs
index b8bd9cd..11dcbc7 100644
--- a/parasol_cpu/src/proc/mod.rs
+++ b/parasol_cpu/src/proc/mod.rs
@@ -197,6 +197,15 @@ pub fn check_register_width(
     Ok(())
 }
 
+/// The bits a value of `width` (at most 128) bits can have set.
+pub(crate) fn width_mask(width: u32) -> u128 {
+    if width < 128 {
+        (0x1 << width) - 1
+    } else {
+        u128::MAX
+    }
+}
+
 /// Convert a plaintext register to a L1 GLWE ciphertext register, or copy
 /// the existing ciphertext register if it's already in that form.
 ///
diff --git a/parasol_cpu/src/proc/ops/add.rs b/parasol_cpu/src/proc/ops/add.rs
index e2381fb..a4a26d7 100644
--- a/parasol_cpu/src/proc/ops/add.rs
+++ b/parasol_cpu/src/proc/ops/add.rs
@@ -2,7 +2,7 @@ use parasol_runtime::circuits::add::add_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op, width_mask},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_add(*val2) & mask,
@@ -178,12 +178,15 @@ impl FheProcessor {
 
 /// Add two plaintext numbers together, returning the sum and the carry out.
 fn add_with_carry(a: u128, b: u128, carry_in: u128, width: u32) -> (u128, u128) {
-    let sum_mask = (0x1 << width) - 1;
-
-    let full_sum = a.wrapping_add(b).wrapping_add(carry_in);
-
-    let sum = full_sum & sum_mask;
-    let carry = (full_sum >> width) & 1;
+    let (sum, overflow1) = a.overflowing_add(b);
+    let (full_sum, overflow2) = sum.overflowing_add(carry_in);
+
+    let sum = full_sum & width_mask(width);
+    let carry = if width < 128 {
+        (full_sum >> width) & 1
+    } else {
+        (overflow1 | overflow2) as u128
+    };
 
     (sum, carry)
 }
diff --git a/parasol_cpu/src/proc/ops/and.rs b/parasol_cpu/src/proc/ops/and.rs
index f933080..e30a0e0 100644
--- a/parasol_cpu/src/proc/ops/and.rs
+++ b/parasol_cpu/src/proc/ops/and.rs
@@ -3,7 +3,7 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, width_mask},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: val1 & val2 & mask,
diff --git a/parasol_cpu/src/proc/ops/casting.rs b/parasol_cpu/src/proc/ops/casting.rs
index bf7d654..01ad799 100644
--- a/parasol_cpu/src/proc/ops/casting.rs
+++ b/parasol_cpu/src/proc/ops/casting.rs
@@ -4,7 +4,7 @@ use parasol_concurrency::AtomicRefCell;
 
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -80,8 +80,8 @@ impl FheProcessor {
                             if val >> (width - 1) == 0 {
                                 *val
                             } else {
-                                let old_mask = (1 << width) - 1;
-                                let new_mask = (1 << new_width) - 1;
+                                let old_mask = width_mask(*width);
+                                let new_mask = width_mask(new_width);
                                 (val | !old_mask) & new_mask
                             }
                         } else {
@@ -153,7 +153,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width: _ } => {
-                    let mask = (0x1 << new_width) - 1;
+                    let mask = width_mask(new_width);
                     *dst = Register::Plaintext {
                         val: (*val) & mask,
                         width: new_width,
diff --git a/parasol_cpu/src/proc/ops/comparisons.rs b/parasol_cpu/src/proc/ops/comparisons.rs
index 4a26566..33085f6 100644
--- a/parasol_cpu/src/proc/ops/comparisons.rs
+++ b/parasol_cpu/src/proc/ops/comparisons.rs
@@ -6,7 +6,7 @@ use parasol_runtime::FheCircuit;
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, width_mask},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -19,7 +19,7 @@ fn to_signed(val: u128, width: u32) -> i128 {
     if sign & val == 0 {
         val as i128
     } else {
-        (!((sign << 1) - 1) | val) as i128
+        (!width_mask(width) | val) as i128
     }
 }
 
diff --git a/parasol_cpu/src/proc/ops/loadi.rs b/parasol_cpu/src/proc/ops/loadi.rs
index 82adae1..5f3b762 100644
--- a/parasol_cpu/src/proc/ops/loadi.rs
+++ b/parasol_cpu/src/proc/ops/loadi.rs
@@ -1,6 +1,6 @@
 use crate::{
     Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -24,15 +24,15 @@ impl FheProcessor {
             // the number -90 in 2's complement with 8 bit will be 0xA6, but
             // in the encoding we have 32 bit for the immediate so it's
             // 0xFFFFFFA6, not 0x000000A6
-            let in_range_unsigned = (imm as u64) < (1 << width);
-            let in_range_signed_neg = imm >= 0xFFFFFFFF << (width - 1);
+            let in_range_unsigned = imm as u128 <= width_mask(width);
+            let in_range_signed_neg = width <= 32 && imm >= 0xFFFFFFFF << (width - 1);
 
             if !in_range_unsigned && !in_range_signed_neg {
                 return Err(Error::out_of_range(instruction_id, pc));
             }
 
             *dst = Register::Plaintext {
-                val: imm as u128 & ((1 << width) - 1),
+                val: imm as u128 & width_mask(width),
                 width,
             };
 
diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 2091e21..b4eb8e7 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,6 @@
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -23,7 +23,7 @@ impl FheProcessor {
                     val: val1,
                     width: width1,
                 } => {
-                    let mask = (0x1 << width1) - 1;
+                    let mask = width_mask(*width1);
 
                     *dst = Register::Plaintext {
                         val: val1.wrapping_neg() & mask,
diff --git a/parasol_cpu/src/proc/ops/not.rs b/parasol_cpu/src/proc/ops/not.rs
index 41afcac..d04b55a 100644
--- a/parasol_cpu/src/proc/ops/not.rs
+++ b/parasol_cpu/src/proc/ops/not.rs
@@ -5,7 +5,7 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op, width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -25,7 +25,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width } => {
-                    let mask = (0x1 << width) - 1;
+                    let mask = width_mask(*width);
 
                     *dst = Register::Plaintext {
                         val: (!val) & mask,
diff --git a/parasol_cpu/src/proc/ops/or.rs b/parasol_cpu/src/proc/ops/or.rs
index 839e515..7fc22b2 100644
--- a/parasol_cpu/src/proc/ops/or.rs
+++ b/parasol_cpu/src/proc/ops/or.rs
@@ -3,7 +3,7 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, width_mask},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: (val1 | val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/sub.rs b/parasol_cpu/src/proc/ops/sub.rs
index d885f6a..533d4ec 100644
--- a/parasol_cpu/src/proc/ops/sub.rs
+++ b/parasol_cpu/src/proc/ops/sub.rs
@@ -3,7 +3,7 @@ use parasol_runtime::circuits::sub_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op, width_mask},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -36,7 +36,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_sub(*val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/xor.rs b/parasol_cpu/src/proc/ops/xor.rs
index fc49af5..3168c8d 100644
--- a/parasol_cpu/src/proc/ops/xor.rs
+++ b/parasol_cpu/src/proc/ops/xor.rs
@@ -5,7 +5,7 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op, width_mask},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -38,7 +38,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1 ^ val2 & mask,
-- 
2.43.0


From f80a17c92db041e48363bd1c465694474c12b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 32/40] fix: plaintext shifts left bits past the width and
 aborted on large amounts

Shl did not mask to the width and Shra set a bit above it, which later comparisons
see; amounts at or beyond the width overflowed, as did rotating a 128-bit register
by zero. They now do what the circuits for encrypted operands do.
---
 parasol_cpu/src/proc/ops/bitshift.rs | 43 ++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index 2edef37..cd2c1ae 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -9,7 +9,7 @@ use parasol_runtime::{FheCircuit, L1GlweCiphertext};
 
 use crate::{
     Ciphertext, Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, width_mask},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -18,33 +18,58 @@ use crate::{
 use super::make_parent_op;
 
 fn arithmetic_shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let right = val >> shift;
+    let mask = width_mask(width);
+    let right = shift_right_arbitrary_width(val, shift, width);
 
     // check if the number if positive
     if (0x1 << (width - 1)) & val == 0 {
         right
     } else {
-        let signs = ((0x1 << (shift + 1)) - 1) << (width as u128 - shift);
+        let signs = mask & !shift_right_arbitrary_width(mask, shift, width);
         signs | right
     }
 }
 
+fn shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift >= width as u128 {
+        return 0;
+    }
+
+    val >> shift
+}
+
+fn shift_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift >= width as u128 {
+        return 0;
+    }
+
+    (val << shift) & width_mask(width)
+}
+
 fn rotate_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
+
+    if shift == 0 {
+        return val;
+    }
 
     let left = val << (width as u128 - shift);
     let right = val >> shift;
 
-    (left | right) & mask
+    (left | right) & width_mask(width)
 }
 
 fn rotate_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
+
+    if shift == 0 {
+        return val;
+    }
 
     let left = val << shift;
     let right = val >> (width as u128 - shift);
 
-    (left | right) & mask
+    (left | right) & width_mask(width)
 }
 
 fn encrypted_value_plain_shift(
@@ -201,7 +226,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val >> shift,
+            shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
@@ -267,7 +292,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val << shift,
+            shift_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
-- 
2.43.0


From 21dda758e41aa9ef7ba999aee4d5a7d25a6b0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 33/40] fix: shifting an encrypted value by its width or more
 aborted

A plaintext amount at or beyond the width of an encrypted operand indexed out of
bounds; it now shifts every bit out, and rotations wrap around.
---
 parasol_cpu/src/proc/ops/bitshift.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index cd2c1ae..16330b2 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -74,7 +74,7 @@ fn rotate_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
 
 fn encrypted_value_plain_shift(
     c: &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    shift: u32,
+    shift: u128,
     l1glwe_zero: &L1GlweCiphertext,
     dir: ShiftDirection,
     mode: ShiftMode,
@@ -83,15 +83,21 @@ fn encrypted_value_plain_shift(
 
     let old_msb = result.last().unwrap().clone();
 
+    let width = result.len() as u128;
+    let shift = match mode {
+        ShiftMode::Rotation => shift % width,
+        _ => shift.min(width),
+    } as usize;
+
     // The processor is little endian, so a right shift is a left rotation.
     match dir {
-        ShiftDirection::Left => result.rotate_right(shift as usize),
-        ShiftDirection::Right => result.rotate_left(shift as usize),
+        ShiftDirection::Left => result.rotate_right(shift),
+        ShiftDirection::Right => result.rotate_left(shift),
     }
 
     match mode {
         ShiftMode::Logical => {
-            for i in 0..shift as usize {
+            for i in 0..shift {
                 let ix = match dir {
                     ShiftDirection::Left => i,
                     ShiftDirection::Right => result.len() - i - 1,
@@ -102,7 +108,7 @@ fn encrypted_value_plain_shift(
         ShiftMode::Rotation => {}
         ShiftMode::Arithmetic => {
             assert_eq!(dir, ShiftDirection::Right);
-            for i in 0..shift as usize {
+            for i in 0..shift {
                 let ix = result.len() - i - 1;
                 result[ix] = old_msb.clone();
             }
@@ -117,7 +123,7 @@ type ShiftOperation = fn(u128, u128, u32) -> u128;
 // (c, shift, l1glwe_zero) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>
 type ShiftOperationCiphertext = fn(
     &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    u32,
+    u128,
     &L1GlweCiphertext,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>;
 
@@ -158,7 +164,7 @@ impl FheProcessor {
                         width: _,
                     },
                 ) => {
-                    let output = plain_shift(c, *shift as u32, &self.aux_data.l1glwe_zero);
+                    let output = plain_shift(c, *shift, &self.aux_data.l1glwe_zero);
 
                     *dst = Register::Ciphertext(Ciphertext::L1Glwe { data: output });
 
-- 
2.43.0


From a0f635cfebbc9d5e4b00a57a115f4d4a3cb37b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 34/40] fix: arguments aligned to more than 16 bytes were
 placed past the call data

The call data is laid out from the stack pointer, which was aligned to 16 bytes only:
aligning an argument to more could move it, and what follows it, beyond the space
that was allocated, over whatever was on the stack before.
---
 parasol_cpu/src/proc/args.rs          | 12 ++++++++++++
 parasol_cpu/src/proc/fhe_processor.rs |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 61742a7..2a02b1d 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -510,6 +510,18 @@ pub struct CallData<T> {
 }
 
 impl<T> CallData<T> {
+    /// Returns the largest alignment of any argument or the return value.
+    pub(crate) fn max_alignment(&self) -> usize {
+        let return_alignment = match self.return_value.size {
+            0 => 1,
+            _ => self.return_value.alignment,
+        };
+
+        self.args
+            .iter()
+            .fold(return_alignment, |max, arg| max.max(arg.alignment))
+    }
+
     /// Returns the required size for this call data, including aligning the stack pointer
     /// to a 16-byte boundary
     pub fn alloc_size(&self) -> usize {
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 5cb02a4..a023b9b 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -545,7 +545,7 @@ impl FheProcessor {
 
         memory.try_push_arg_onto_stack(&Arg {
             bytes: vec![Byte::Plaintext(0); call_data_size],
-            alignment: 16,
+            alignment: args.max_alignment().max(16),
         })?;
 
         let sp = memory.stack_ptr();
-- 
2.43.0


From 8b0ea42e90df69c0d2a56480b73c41d8433995a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 35/40] fix: arrays of padded elements could not be read back

The padding after each element, which to_bytes adds where the size of the element
is not a multiple of its alignment, was handed to the element instead of stripped.
---
 parasol_cpu/src/proc/args.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 2a02b1d..f7a9a6e 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -305,16 +305,16 @@ impl<const N: usize, T: ToArg> ToArg for [T; N] {
             return Ok(as_vec.unwrap_or_else(|_| unreachable!()));
         }
 
+        if data.len() != Self::size() {
+            return Err(Error::TypeSizeMismatch);
+        }
+
         let as_vec = data
             // Strip off the padding and recreate the Ts
             .chunks(T::size().next_multiple_of(T::alignment()))
-            .map(|x| T::try_from_bytes(x.to_owned()))
+            .map(|x| T::try_from_bytes(x[..T::size()].to_owned()))
             .collect::<Result<Vec<_>>>()?;
 
-        if as_vec.len() != N {
-            return Err(Error::TypeSizeMismatch);
-        }
-
         Ok(as_vec.try_into().unwrap_or_else(|_| unreachable!()))
     }
 }
-- 
2.43.0


From 920500206911311e7754402cc1fe4142f2713979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 36/40] fix: an unaligned load or store hung the processor

---
 parasol_cpu/src/proc/fhe_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index a023b9b..4ac2f4f 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -353,7 +353,6 @@ impl FheProcessor {
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
-        self.instructions_inflight += 1;
 
         // Increment our dependency count to 1 to prevent any dependents
         // from issuing our new instruction until we've finished processing
@@ -369,6 +368,9 @@ impl FheProcessor {
             pc,
         )?;
 
+        // From here on the instruction will retire.
+        self.instructions_inflight += 1;
+
         for dep in deps.into_iter().flatten() {
             // If we take a dependency on ourself, we somehow fucked up.
             assert_ne!(dep.id, scoreboard_entry.id);
-- 
2.43.0


From 23b3174d0fc122f39ccdaecee1159961b0014014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:39 +0000
Subject: [PATCH 37/40] fix: the program counter overflowed after the last
 instruction of memory

---
 parasol_cpu/src/proc/fhe_processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 4ac2f4f..357fbf4 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -923,7 +923,7 @@ impl Tomasulo for FheProcessor {
                     if *val != 0 {
                         Ok(pc.wrapping_add_signed(pc_offset))
                     } else {
-                        Ok(pc + INSTRUCTION_SIZE)
+                        Ok(pc.wrapping_add(INSTRUCTION_SIZE))
                     }
                 } else {
                     Err(Error::BranchConditionNotPlaintext)
@@ -935,7 +935,7 @@ impl Tomasulo for FheProcessor {
                     if *val == 0 {
                         Ok(pc.wrapping_add_signed(pc_offset))
                     } else {
-                        Ok(pc + INSTRUCTION_SIZE)
+                        Ok(pc.wrapping_add(INSTRUCTION_SIZE))
                     }
                 } else {
                     Err(Error::BranchConditionNotPlaintext)
@@ -943,7 +943,7 @@ impl Tomasulo for FheProcessor {
             }
             DispatchIsaOp::Branch(pc_offset) => Ok(pc.wrapping_add_signed(pc_offset)),
             DispatchIsaOp::Ret() => Err(Error::Halt),
-            _ => Ok(pc + INSTRUCTION_SIZE),
+            _ => Ok(pc.wrapping_add(INSTRUCTION_SIZE)),
         }
     }
 }
-- 
2.43.0


From 3f8d401cd0ad41841693a1a7cecc5c69b15d1c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:24 +0000
Subject: [PATCH 38/40] fix: storing a narrow encrypted register aborted the
 processor

---
 parasol_cpu/src/proc/ops/store.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index e448547..b1b81b0 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -37,6 +37,13 @@ impl FheProcessor {
                         return Err(Error::UnalignedAccess(base_addr.0));
                     }
 
+                    if src.is_ciphertext() && src.width() < width as usize {
+                        return Err(Error::WidthMismatch {
+                            inst_id: instruction_id,
+                            pc,
+                        });
+                    }
+
                     for i in 0..num_bytes {
                         let byte = match src {
                             Register::Plaintext { val, width: _ } => {
-- 
2.43.0


From b227d13d206a75750ac74332e87b151a406d0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 39/40] fix: multiplying integers of which only one is split
 never worked (bits misaligned, spare carry kept)

---
 parasol_runtime/src/circuits/mul.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 7185e79..2a0611e 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -130,9 +130,9 @@ fn mul_impl<OutCt: Muxable>(
 
         let adder_inputs = hi
             .iter()
-            .zip(a_hi_b_lo.iter().take(a_lo_len))
+            .zip(a_hi_b_lo.iter().take(b_lo_len))
             .flat_map(|(x, y)| [*x, *y])
-            .chain(a_hi_b_lo.iter().skip(a_lo_len).copied())
+            .chain(a_hi_b_lo.iter().skip(b_lo_len).copied())
             .map(|x| {
                 insert_ciphertext_conversion(
                     uop_graph,
@@ -143,7 +143,10 @@ fn mul_impl<OutCt: Muxable>(
             }) // Convert the ciphertexts back to GGSW
             .collect::<Vec<_>>();
 
-        let sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+        let mut sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+
+        // The product fits in a.len() + b.len() bits, so the adder's final carry is always zero.
+        sum_out.truncate(a_hi_len + b_lo_len);
 
         assert_eq!(lo.len() + sum_out.len(), a.len() + b.len());
 
-- 
2.43.0


From 47bec172086c64ebbdc888526ad8a7ee3196c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 40/40] fix: wide GLEV multiplication converted its partial
 products as GLWE

---
 parasol_runtime/src/circuits/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 2a0611e..452ffb9 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -183,7 +183,7 @@ fn mul_impl<OutCt: Muxable>(
                 insert_ciphertext_conversion(
                     uop_graph,
                     x,
-                    CiphertextType::L1GlweCiphertext,
+                    OutCt::CIPHERTEXT_TYPE,
                     CiphertextType::L1GgswCiphertext,
                 )
             })
-- 
2.43.0

