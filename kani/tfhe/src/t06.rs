use crate::common::*;
use std::num::Wrapping;

const L: &[usize] = &[1, 2, 4, 8, 16, 32, 64, 128];
fn mad(n: usize, ymask: u64) {
    let a = tv(n); let mut b = uv(n); for y in b.iter_mut() { *y &= ymask; }
    let c0 = tv(n); let mut c = c0.clone();
    polynomial_external_mad(prm(&mut c), pr(&a), pr(&b));
    for i in 0..n { assert!(c[i].inner() == c0[i].inner().wrapping_add(neg_conv(&a, &b, i)), "c += a * b mod X^N+1"); }
}
fn pow_k(n: usize, k: usize) {
    let p = tv(n); let mut q = p.clone();
    ops::polynomial::polynomial_pow_k::<_, u64>(prm(&mut q), pr(&p), k);
    for i in 0..n {
        let e = (i as u128 * k as u128) % (2 * n as u128);
        let want = if (e as usize) < n { p[i] } else { -p[i] };
        assert!(q[e as usize % n] == want, "p(X^k)");
    }
}
harnesses! {
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, sunscreen_tfhe::verif_hooks::verif_fresh_scratch)]
  fn t06_mad_binary() { mad(size_q(2, L), if sampling() { !0 } else { 1 }) }
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, sunscreen_tfhe::verif_hooks::verif_fresh_scratch)]
  fn t06_mad_full_n1() { mad(size_q(1, L), !0) }
  #[kani::unwind(40)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, sunscreen_tfhe::verif_hooks::verif_fresh_scratch)]
  fn t06_mad_binary_n4() { mad(size_q(4, L), if sampling() { !0 } else { 1 }) }
  #[kani::unwind(20)]
  #[kani::solver(cadical)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, sunscreen_tfhe::verif_hooks::verif_fresh_scratch)]
  fn t06_mad_full_n2() { mad(size_q(2, L), !0) }
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, sunscreen_tfhe::verif_hooks::verif_fresh_scratch)]
  fn t06_mul_and_wrapping() {
    // the operator form and the machine-word forms
    let n = size_q(2, L); let m = if sampling() { !0u64 } else { 1 };
    let a = tv(n); let mut b = uv(n); for y in b.iter_mut() { *y &= m; }
    let p = pr(&a) * pr(&b);
    let au: Vec<u64> = a.iter().map(|x| x.inner()).collect();
    let c0 = uv(n); let mut c = c0.clone();
    polynomial_mad_by_wrap(prm(&mut c), pr(&au), pr(&b));
    for i in 0..n { let w = neg_conv(&a, &b, i); assert!(p.coeffs()[i].inner() == w); assert!(c[i] == c0[i].wrapping_add(w)); }
    let _ = Wrapping(0u64);
  }
  #[kani::unwind(6)]
  fn t06_pow_k() { let k = any_u16() as usize; assume(k % 2 == 1); pow_k(size(4, &[1, 2, 8, 16, 64, 1024]), k) }
}
