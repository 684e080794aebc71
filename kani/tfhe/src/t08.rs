use crate::common::*;
use sunscreen_tfhe::ops::ciphertext as oc;
const L: &[usize] = &[1, 2, 4, 8, 16, 64, 256];
fn dims(sk: usize, sn: usize) -> (usize, usize) { (size(sk, &[1, 2, 3]), size(sn, L)) }
fn w(v: &[T], i: usize) -> u64 { v[i].inner() }
harnesses! {
  #[kani::unwind(6)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx2_available, yes)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::fma_available, yes)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx_512_available, no)]
  fn t08_linear() {
    host();
    let (k, n) = dims(2, 1); let len = (k + 1) * n; let p = gdef(k, n);
    let a = tv(len); let b = tv(len); let c0 = tv(len); let mut c = c0.clone(); let s = any_u64();
    let op = any_u8() % 7;
    match op {
      0 => oc::add_glwe_ciphertexts(glwe_m(&mut c), glwe(&a), glwe(&b), &p), 1 => oc::glwe_add_assign(glwe_m(&mut c), glwe(&a), &p),
      2 => oc::sub_glwe_ciphertexts(glwe_m(&mut c), glwe(&a), glwe(&b), &p), 3 => oc::glwe_negate_inplace(glwe_m(&mut c), &p),
      4 => oc::glwe_scalar_mad(glwe_m(&mut c), glwe(&a), s, &p), 5 => oc::glwe_rotate(glwe_m(&mut c), glwe(&a), t(s), &p),
      _ => oc::glwe_mod_switch_and_expand_pow_2(glwe_m(&mut c), glwe(&a), &p, 5),
    }
    for i in 0..len { let (x, y, z) = (w(&a, i), w(&b, i), w(&c0, i)); let want = match op { 0 => x.wrapping_add(y), 1 => z.wrapping_add(x), 2 => x.wrapping_sub(y), 3 => z.wrapping_neg(), 4 => z.wrapping_add(x.wrapping_mul(s)), 5 => if i >= k * n { x.wrapping_add(s) } else { x }, _ => ((x as u128 + 16) >> 5) as u64 }; assert!(w(&c, i) == want, "linear on every coefficient"); }
  }
  #[kani::unwind(6)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx2_available, no)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::fma_available, no)]
  #[kani::stub(sunscreen_tfhe::math::simd::x86_64::avx_512_available, no)]
  fn t08_linear_portable() {
    portable();
    let (k, n) = dims(1, 2); let len = (k + 1) * n; let p = gdef(k, n);
    let a = tv(len); let b = tv(len); let c0 = tv(len); let mut c = c0.clone(); let s = any_u64();
    let op = any_u8() % 3;
    match op { 0 => oc::add_glwe_ciphertexts(glwe_m(&mut c), glwe(&a), glwe(&b), &p), 1 => oc::sub_glwe_ciphertexts(glwe_m(&mut c), glwe(&a), glwe(&b), &p), _ => oc::glwe_scalar_mad(glwe_m(&mut c), glwe(&a), s, &p) }
    for i in 0..len { let (x, y, z) = (w(&a, i), w(&b, i), w(&c0, i)); let want = match op { 0 => x.wrapping_add(y), 1 => x.wrapping_sub(y), _ => z.wrapping_add(x.wrapping_mul(s)) }; assert!(w(&c, i) == want); }
  }
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, sunscreen_tfhe::verif_hooks::verif_fresh_scratch)]
  fn t08_polynomial_mad() {
    let (k, n) = dims(1, 2); let len = (k + 1) * n; let p = gdef(k, n);
    let a = tv(len); let c0 = tv(len); let mut c = c0.clone(); let mut b = uv(n); if !sampling() { for y in b.iter_mut() { *y &= 1; } }
    oc::glwe_polynomial_mad(glwe_m(&mut c), glwe(&a), pr(&b), &p);
    for j in 0..=k { for i in 0..n { assert!(w(&c, j * n + i) == w(&c0, j * n + i).wrapping_add(neg_conv(&a[j * n..(j + 1) * n], &b, i)), "each component times the plaintext polynomial"); } }
  }
}
