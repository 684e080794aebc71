use crate::common::*;
const L: &[usize] = &[1, 2, 3, 7, 8, 64, 637];
fn eq(a: &[T], f: impl Fn(usize) -> u64) { for i in 0..a.len() { assert!(a[i].inner() == f(i), "every component"); } }
fn w(v: &[T], i: usize) -> u64 { v[i].inner() }
fn owned(v: &[T], n: usize) -> LweCiphertext<u64> { let mut c = LweCiphertext::new(&ldef(n)); for i in 0..n { c.a_mut(&ldef(n))[i] = v[i]; } *c.b_mut(&ldef(n)) = v[n]; c }
harnesses! {
  #[kani::unwind(6)]
  fn t07_add_inplace() { let n = size(3, L); let a = tv(n + 1); let c0 = tv(n + 1); let mut c = c0.clone(); let a2 = a.clone(); ops::ciphertext::add_lwe_inplace(lwe_m(&mut c), lwe(&a), &ldef(n)); eq(&c, |i| w(&c0, i).wrapping_add(w(&a, i))); assert!(a == a2, "operand unchanged"); }
  #[kani::unwind(6)]
  fn t07_sub() { let n = size(3, L); let a = tv(n + 1); let b = tv(n + 1); let mut c = tv(n + 1); vh::sub_lwe_ciphertexts(lwe_m(&mut c), lwe(&a), lwe(&b), &ldef(n)); eq(&c, |i| w(&a, i).wrapping_sub(w(&b, i))); }
  #[kani::unwind(6)]
  fn t07_scalar_mad() { let n = size(2, L); let a = tv(n + 1); let c0 = tv(n + 1); let mut c = c0.clone(); let s = any_u64(); vh::scalar_mul_ciphertext_mad(lwe_m(&mut c), &s, lwe(&a), &ldef(n)); eq(&c, |i| w(&c0, i).wrapping_add(w(&a, i).wrapping_mul(s))); }
  #[kani::unwind(6)]
  fn t07_rotate() { let n = size(3, L); let a = tv(n + 1); let mut c = tv(n + 1); let s = t(any_u64()); ops::homomorphisms::lwe_rotate(lwe_m(&mut c), lwe(&a), s, &ldef(n)); eq(&c, |i| if i == n { w(&a, i).wrapping_add(s.inner()) } else { w(&a, i) }); }
  #[kani::unwind(20)]
  fn t07_operators() {
    let n = size(1, L); let a = tv(n + 1); let b = tv(n + 1);
    let (x, y) = (owned(&a, n), owned(&b, n));
    let d = ldef(n);
    let get = |c: &LweCiphertext<u64>, i: usize| if i < n { c.a(&d)[i].inner() } else { c.b(&d).inner() };
    let op = any_u8() % 6;
    let r = match op { 0 => x.clone() + y, 1 => x.clone() - y, 2 => -x.clone(), 3 => { let mut z = x.clone(); z += y; z }, 4 => { let mut z = x.clone(); z -= y; z } _ => num::traits::WrappingAdd::wrapping_add(&x, &y) };
    for i in 0..=n { let (p, q) = (w(&a, i), w(&b, i)); let want = match op { 0 | 3 | 5 => p.wrapping_add(q), 1 | 4 => p.wrapping_sub(q), _ => p.wrapping_neg() }; assert!(get(&r, i) == want, "operator on every component"); assert!(get(&x, i) == p, "operand unchanged"); }
  }
  #[kani::unwind(6)]
  fn t07_phase_linear() {
    // phase of a sum / difference / scaling is the sum / difference / scaling of phases (binary key)
    let n = size(2, &[1, 3, 8, 64]); let a = tv(n + 1); let b = tv(n + 1); let sk = bits(n); let d = ldef(n);
    let mut s = a.clone(); ops::ciphertext::add_lwe_inplace(lwe_m(&mut s), lwe(&b), &d);
    let mut m = a.clone(); vh::sub_lwe_ciphertexts(lwe_m(&mut m), lwe(&a), lwe(&b), &d);
    let ph = |c: &[T]| lwe_sk(&sk).decrypt_without_decode(lwe(c), &d).inner();
    assert!(ph(&s) == ph(&a).wrapping_add(ph(&b)));
    assert!(ph(&m) == ph(&a).wrapping_sub(ph(&b)));
  }
}
