use crate::common::*;

fn check(n: usize, d: usize) {
    let p = tv(n);
    let mut q = p.clone();
    prm(&mut q).mul_by_positive_monomial_negacyclic(d);
    for i in 0..n {
        let e = (i as u128 + d as u128) % (2 * n as u128);
        let want = if (e as usize) < n { p[i] } else { -p[i] };
        assert!(q[(e as usize) % n] == want, "p * X^d");
    }
    let mut q = p.clone();
    prm(&mut q).mul_by_negative_monomial_negacyclic(d);
    for i in 0..n {
        let e = (i as u128 + 2 * n as u128 - d as u128 % (2 * n as u128)) % (2 * n as u128);
        let want = if (e as usize) < n { p[i] } else { -p[i] };
        assert!(q[(e as usize) % n] == want, "p * X^-d");
    }
}
fn signed(n: usize, d: isize) {
    let p = tv(n);
    let mut q = p.clone();
    prm(&mut q).mul_by_monomial_negacyclic(d);
    for i in 0..n {
        let e = (i as i128 + d as i128).rem_euclid(2 * n as i128) as usize;
        let want = if e < n { p[i] } else { -p[i] };
        assert!(q[e % n] == want, "p * X^d, d signed");
    }
}
fn deg() -> usize { if sampling() && any_bool() { (any_u64() % 5000) as usize } else { any_usize() } }
fn sdeg() -> isize { if sampling() && any_bool() { (any_u64() % 10000) as isize - 5000 } else { any_i64() as isize } }
const L: &[usize] = &[1, 2, 4, 8, 16, 64, 1024, 3, 5];
harnesses! {
  #[kani::unwind(10)]
  #[kani::stub(core::slice::rotate::ptr_rotate, rot)]
  fn t05_positive_and_negative() { check(size(2, L), deg()) }
  #[kani::unwind(10)]
  #[kani::stub(core::slice::rotate::ptr_rotate, rot)]
  fn t05_signed() { signed(size(4, L), sdeg()) }
  #[kani::unwind(10)]
  #[kani::stub(core::slice::rotate::ptr_rotate, rot)]
  fn t05_glwe() {
    let n = size(2, L); let k = size(1, &[1, 2, 3]);
    assume(n.is_power_of_two());
    let x = tv((k + 1) * n); let mut y = tv((k + 1) * n);
    let d = sdeg();
    ops::bootstrapping::rotate_glwe_monomial_negacyclic(glwe_m(&mut y), glwe(&x), d, &gdef(k, n));
    for j in 0..=k { for i in 0..n {
        let e = (i as i128 + d as i128).rem_euclid(2 * n as i128) as usize;
        let want = if e < n { x[j * n + i] } else { -x[j * n + i] };
        assert!(y[j * n + e % n] == want, "every component rotated");
    } }
  }
}
