use crate::common::*;

fn v_add(n: usize) { let (a, b) = (uv(n), uv(n)); let mut c = uv(n); <u64 as VectorOps>::vector_add(&mut c, &a, &b); for i in 0..n { assert!(c[i] == a[i].wrapping_add(b[i]), "vector_add"); } }
fn v_sub(n: usize) { let (a, b) = (uv(n), uv(n)); let mut c = uv(n); <u64 as VectorOps>::vector_sub(&mut c, &a, &b); for i in 0..n { assert!(c[i] == a[i].wrapping_sub(b[i]), "vector_sub"); } }
fn v_mad(n: usize) {
    let a = uv(n); let c0 = uv(n); let s = any_u64(); let mut c = c0.clone();
    <u64 as VectorOps>::vector_scalar_mad(&mut c, &a, s);
    for i in 0..n { assert!(c[i] == a[i].wrapping_mul(s).wrapping_add(c0[i]), "vector_scalar_mad"); }
}
fn v_shr(n: usize) {
    let a = uv(n); let mut c = uv(n); let k = any_u32(); assume(k >= 1 && k < 64);
    <u64 as VectorOps>::vector_shr_round(&mut c, &a, k);
    for i in 0..n { assert!(c[i] as u128 == (a[i] as u128 + (1u128 << (k - 1))) >> k, "vector_shr_round rounds to nearest"); }
}
fn v_dec(n: usize) {
    let s0 = uv(n); let mut s = s0.clone(); let mut r = uv(n); let l = any_u8() as usize; assume(l >= 1 && l < 64);
    <u64 as VectorOps>::vector_next_decomp(&mut s, &mut r, l);
    for i in 0..n {
        let half = 1u64 << (l - 1);
        assert!(r[i] < half || r[i].wrapping_neg() <= half, "digit range");
        assert!((s[i] << l).wrapping_add(r[i]) == s0[i], "digit + radix * rest = value");
        let low = s0[i] & ((1u64 << l) - 1);
        assert!(s[i] == (s0[i] >> l) + (low >= half) as u64, "rest is the rounded quotient");
    }
}
/// Torus wrapper, polynomial layer and frame: elements beyond the view stay untouched.
fn frame(n: usize) {
    let (a, b) = (tv(n), tv(n)); let big0 = tv(n + 2); let mut big = big0.clone();
    let s = any_u64();
    let op = any_u8() % 4;
    {
        let c = prm(&mut big[1..n + 1]);
        match op { 0 => polynomial_add(c, pr(&a), pr(&b)), 1 => polynomial_sub(c, pr(&a), pr(&b)), 2 => polynomial_small_scalar_mad(c, pr(&a), t(s)), _ => ops::polynomial::polynomial_shr_round(c, pr(&a), 7) }
    }
    assert!(big[0] == big0[0] && big[n + 1] == big0[n + 1], "neighbouring memory untouched");
    for i in 0..n {
        let (x, y, z) = (a[i].inner(), b[i].inner(), big0[i + 1].inner());
        let w = match op { 0 => x.wrapping_add(y), 1 => x.wrapping_sub(y), 2 => x.wrapping_mul(s).wrapping_add(z), _ => ((x as u128 + 64) >> 7) as u64 };
        assert!(big[i + 1].inner() == w);
    }
}
const L: &[usize] = &[0, 1, 2, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 100, 512, 1024, 2048];
macro_rules! both { ($($p:ident $s:ident = $f:ident;)*) => { harnesses! { $(
  #[kani::unwind(6)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx2_available, no)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::fma_available, no)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx_512_available, no)]
  fn $p() { portable(); $f(size(3, L)) }
  #[kani::unwind(6)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx2_available, yes)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::fma_available, yes)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx_512_available, no)]
  fn $s() { host(); $f(size(3, L)) }
)* } } }
both! {
  t04_add_portable t04_add_simd = v_add;
  t04_sub_portable t04_sub_simd = v_sub;
  t04_mad_portable t04_mad_simd = v_mad;
  t04_shr_portable t04_shr_simd = v_shr;
  t04_dec_portable t04_dec_simd = v_dec;
  t04_frame_portable t04_frame_simd = frame;
}
pub mod u32s {
  use super::*;
  harnesses! {
    #[kani::unwind(6)]
    fn t04_u32() {
      let n = size(2, L); let (a, b) = (uv32(n), uv32(n)); let c0 = uv32(n); let mut c = c0.clone(); let s = any_u32(); let k = any_u32(); assume(k >= 1 && k < 32);
      let op = any_u8() % 5;
      let mut st = a.clone();
      match op { 0 => <u32 as VectorOps>::vector_add(&mut c, &a, &b), 1 => <u32 as VectorOps>::vector_sub(&mut c, &a, &b), 2 => <u32 as VectorOps>::vector_scalar_mad(&mut c, &a, s),
        3 => <u32 as VectorOps>::vector_shr_round(&mut c, &a, k), _ => <u32 as VectorOps>::vector_next_decomp(&mut st, &mut c, k as usize) }
      for i in 0..n { match op {
        0 => assert!(c[i] == a[i].wrapping_add(b[i])), 1 => assert!(c[i] == a[i].wrapping_sub(b[i])), 2 => assert!(c[i] == a[i].wrapping_mul(s).wrapping_add(c0[i])),
        3 => assert!(c[i] as u64 == (a[i] as u64 + (1u64 << (k - 1))) >> k),
        _ => { let half = 1u32 << (k - 1); assert!(c[i] < half || c[i].wrapping_neg() <= half); assert!((st[i] << k).wrapping_add(c[i]) == a[i]); assert!(st[i] == (a[i] >> k) + ((a[i] & ((1 << k) - 1)) >= half) as u32); }
      } }
    }
    #[kani::unwind(6)]
    fn t04_poly_elementwise() {
      // the generic (non-SIMD) polynomial helpers
      let n = size(3, L); let a = tv(n); let c0 = tv(n); let s = any_u64(); let mut c = c0.clone();
      let op = any_u8() % 5;
      match op { 0 => polynomial_sub_assign(prm(&mut c), pr(&a)), 1 => polynomial_negate(prm(&mut c)), 2 => polynomial_scalar_mul(prm(&mut c), pr(&a), s), 3 => polynomial_scalar_mad(prm(&mut c), pr(&a), s), _ => polynomial_add_assign(prm(&mut c), pr(&a)) }
      for i in 0..n { let (x, z) = (a[i].inner(), c0[i].inner()); let w = match op { 0 => z.wrapping_sub(x), 1 => z.wrapping_neg(), 2 => x.wrapping_mul(s), 3 => x.wrapping_mul(s).wrapping_add(z), _ => z.wrapping_add(x) }; assert!(c[i].inner() == w); }
    }
  }
}
