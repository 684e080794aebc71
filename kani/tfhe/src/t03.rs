use crate::common::*;
use sunscreen_tfhe::math::radix::*;

/// Every round of the polynomial decomposition equals scalar decomposition of each coefficient.
fn poly_is_scalar(n: usize, l: usize, k: usize) {
    let p = tv(n);
    let r = radix(l, k);
    let mut scratch = uv(n);
    let mut dst = uv(n);
    let mut scalar: Vec<ScalarRadixIterator<u64>> = p.iter().map(|x| ScalarRadixIterator::new(*x, &r)).collect();
    let mut it = PolynomialRadixIterator::new(pr(&p), prm(&mut scratch), &r);
    for _ in 0..k {
        assert!(it.write_next(prm(&mut dst)).is_some(), "a digit polynomial per level");
        for i in 0..n { assert!(Some(dst[i]) == scalar[i].next(), "digit polynomial = scalar digit per coefficient"); }
    }
    let before = dst.clone();
    assert!(it.write_next(prm(&mut dst)).is_none(), "exactly k digit polynomials");
    assert!(dst == before, "nothing written after the last digit");
}
fn poly_is_scalar_u32(n: usize, l: usize, k: usize) {
    let p = tv32(n);
    let r = radix(l, k);
    let mut scratch = uv32(n);
    let mut dst = uv32(n);
    let mut scalar: Vec<ScalarRadixIterator<u32>> = p.iter().map(|x| ScalarRadixIterator::new(*x, &r)).collect();
    let mut it = PolynomialRadixIterator::new(pr(&p), prm(&mut scratch), &r);
    for _ in 0..k {
        assert!(it.write_next(prm(&mut dst)).is_some());
        for i in 0..n { assert!(Some(dst[i]) == scalar[i].next()); }
    }
    assert!(it.write_next(prm(&mut dst)).is_none());
}
fn pair(b: usize, maxk: usize) -> (usize, usize) {
    let l = any_u8() as usize;
    let k = any_u8() as usize;
    assume(l >= 1 && k >= 1 && k <= maxk && l * k < b);
    (l, k)
}
harnesses! {
  #[kani::unwind(5)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx2_available, no)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::fma_available, no)]
  fn t03_digits_portable() { portable(); let (l, k) = pair(64, if sampling() { 63 } else { 3 }); poly_is_scalar(size(2, &[1, 3, 8, 64]), l, k) }
  #[kani::unwind(5)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx2_available, yes)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::fma_available, yes)]
  fn t03_digits_simd() { host(); let (l, k) = pair(64, if sampling() { 63 } else { 3 }); poly_is_scalar(size(2, &[1, 3, 8, 64]), l, k) }
  #[kani::unwind(5)]
  fn t03_digits_u32() { let (l, k) = pair(32, if sampling() { 31 } else { 3 }); poly_is_scalar_u32(size(2, &[1, 3, 8, 64]), l, k) }

  fn t03_factor() {
    let l = any_u8() as usize; let j = any_u8() as usize; let v = any_u64();
    assume(l >= 1 && l * (j + 1) <= 64);
    assert!(scale_by_decomposition_factor(v, j, &radix(l, j + 1)) == if l * (j + 1) == 64 { v } else { v << (64 - l * (j + 1)) });
  }
  fn t03_factor_u32() {
    let l = any_u8() as usize; let j = any_u8() as usize; let v = any_u32();
    assume(l >= 1 && l * (j + 1) <= 32);
    assert!(scale_by_decomposition_factor(v, j, &radix(l, j + 1)) == if l * (j + 1) == 32 { v } else { v << (32 - l * (j + 1)) });
  }
  #[kani::unwind(5)]
  fn t03_recompose() {
    // recompose_and_add adds sum_j digit_j * 2^(64 - l k + l j) to what dst held
    let n = size(1, &[2, 8, 64]);
    let (l, k) = pair(64, if sampling() { 63 } else { 2 });
    let digits = uv(n * k);
    let dst0 = tv(n);
    let mut dst = dst0.clone();
    recompose_and_add(prm(&mut dst), &mut PolynomialIterator::new(&digits, n), RadixLog(l), RadixCount(k));
    for i in 0..n {
        let mut w = dst0[i].inner();
        for j in 0..k { w = w.wrapping_add(digits[j * n + i] << (64 - l * k + l * j)); }
        assert!(dst[i].inner() == w);
    }
  }
}
