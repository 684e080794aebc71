use crate::common::*;
use sunscreen_math::poly::Polynomial;
use sunscreen_math::ring::Ring;
fn coef<R: Ring>(p: &Polynomial<R>, i: usize) -> R { if i < p.coeffs.len() { p.coeffs[i].clone() } else { R::zero() } }
fn eq<R: Ring>(a: R, b: R) -> bool { a == b }
fn polys<R: Ring + std::fmt::Debug>(mut any: impl FnMut() -> R) {
    let mk = |n: usize, any: &mut dyn FnMut() -> R| Polynomial { coeffs: (0..n).map(|_| any()).collect::<Vec<R>>() };
    let (la, lb) = (any_u8() as usize % 9, any_u8() as usize % 9);
    let mut a = mk(la, &mut any); let mut b = mk(lb, &mut any);
    // leading zeros
    if any_bool() { a.coeffs.push(R::zero()); } if any_bool() { b.coeffs.push(R::zero()); b.coeffs.push(R::zero()); }
    let (la, lb) = (a.coeffs.len(), b.coeffs.len()); let x = any();
    let s = &a + &b; let d = &a - &b; let p = &a * &b;
    for h in 0..la + lb + 2 {
        assert!(eq(coef(&s, h), coef(&a, h) + coef(&b, h)), "sum"); assert!(eq(coef(&d, h), coef(&a, h) - coef(&b, h)), "difference");
        let mut c = R::zero(); for i in 0..=h { c = c + coef(&a, i) * coef(&b, h - i); } assert!(eq(coef(&p, h), c), "product");
        assert!(eq(coef(&(&a * &x), h), coef(&a, h) * x.clone()), "scalar product");
    }
    // evaluation
    let ev = |p: &Polynomial<R>| { let mut r = R::zero(); for i in (0..p.coeffs.len()).rev() { r = r * x.clone() + p.coeffs[i].clone(); } r };
    assert!(eq(a.evaluate(&x), ev(&a)), "value"); assert!(eq(s.evaluate(&x), ev(&a) + ev(&b)), "value of the sum"); assert!(eq(p.evaluate(&x), ev(&a) * ev(&b)), "value of the product");
    // equality ignores leading zeros and nothing else
    let n = la.max(lb); let same = (0..n).all(|i| coef(&a, i) == coef(&b, i)); assert!((a == b) == same, "equality");
    let mut c = a.clone(); c.coeffs.push(R::zero()); assert!(c == a && a == c, "leading zero"); let k = any_u8() as usize % c.coeffs.len(); c.coeffs[k] = c.coeffs[k].clone() + R::one(); assert!(c != a && a != c, "one coefficient differs");
    if let Some(deg) = (0..la).rev().find(|i| !eq(a.coeffs[*i].clone(), R::zero())) { assert!(a.vartime_degree() == deg, "degree"); assert!(!a.vartime_is_zero()); } else { assert!(a.vartime_is_zero()); }
    // division by a monic divisor, possibly stored with leading zeros
    let dd = any_u8() as usize % 5; let mut m = mk(dd, &mut any); m.coeffs.push(R::one()); if any_bool() { m.coeffs.push(R::zero()); }
    let (q, r) = a.vartime_div_rem_restricted_rhs(&m); let back = &(&q * &m) + &r; assert!(back == a, "q m + r"); for h in dd..r.coeffs.len() { assert!(eq(r.coeffs[h].clone(), R::zero()), "remainder of lower degree"); }
    let na = -a.clone(); for h in 0..la { assert!(eq(coef(&na, h), R::zero() - coef(&a, h)), "negation"); }
}
fn over<const N: usize, C: BarrettConfig<N>>(_f: bool) { polys(|| zq::<N, C>(&any_res::<N, C>())) }
nd::harnesses! {
  fn m03_words() { if !sampling() { return } if any_bool() { polys(|| ZInt::from(any_u64())) } else { polys(|| ZInt::from(any_u8() & 3)) } }
  fn m03_residues() { if !sampling() { return } crate::each_modulus!(over) }
}
