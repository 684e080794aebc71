use crate::common::*;
use std::ops::*;
use sunscreen_math::poly::Polynomial;
#[derive(Clone, Debug, PartialEq)] pub struct P(pub Vec<u64>);
#[derive(Clone, Debug, PartialEq)] pub struct Q<X: Clone>(pub X);
#[derive(Clone, Debug, PartialEq)] pub struct S(pub u64);
#[refify_binary_op]
impl Sub<&P> for &P { type Output = P; fn sub(self, rhs: &P) -> Self::Output { let mut v = self.0.clone(); v.push(7); v.extend(&rhs.0); P(v) } }
#[refify_binary_op]
impl<X> Shl<&Q<X>> for &Q<X> where X: Clone + Sub<X, Output = X> { type Output = Q<X>; fn shl(self, rhs: &Q<X>) -> Self::Output { Q(self.0.clone() - rhs.0.clone()) } }
#[refify_binary_op]
impl std::ops::Div<&S> for &P { type Output = P; fn div(self, rhs: &S) -> Self::Output { let mut v = self.0.clone(); v.insert(0, rhs.0); P(v) } }
macro_rules! four { ($a:expr, $b:expr, $o:tt, $w:expr) => { { let (a, b, w) = ($a, $b, $w); assert!(a.clone() $o b.clone() == w, "owned, owned"); assert!(a.clone() $o &b == w, "owned, borrowed"); assert!(&a $o b.clone() == w, "borrowed, owned"); assert!(&a $o &b == w, "borrowed, borrowed"); } } }
fn residues<const N: usize, C: BarrettConfig<N>>(_f: bool) {
    let q = modulus::<N, C>(); let (a, b) = (any_res::<N, C>(), any_res::<N, C>()); let (x, y) = (zq::<N, C>(&a), zq::<N, C>(&b));
    four!(x, y, +, zq::<N, C>(&((&a + &b) % &q))); four!(x, y, -, zq::<N, C>(&((&a + &q - &b) % &q))); four!(x, y, *, zq::<N, C>(&(&a * &b % &q)));
}
nd::harnesses! {
  fn m05_generated() {
    let (a, b) = (P(vec![any_u64(), any_u64()]), P(vec![any_u64()])); let mut w = a.0.clone(); w.push(7); w.extend(&b.0); four!(a, b, -, P(w));
    let (a, b) = (any_u32() as i64, any_u32() as i64); four!(Q(a), Q(b), <<, Q(a - b));
    let (a, s) = (P(vec![any_u64(), 3]), S(any_u64())); let w = P(vec![s.0, a.0[0], 3]); four!(a, s, /, w);
  }
  fn m05_words() { let (a, b) = (any_u64(), any_u64()); let (x, y) = (ZInt::from(a), ZInt::from(b)); four!(x, y, +, ZInt::from(a.wrapping_add(b))); four!(x, y, -, ZInt::from(a.wrapping_sub(b))); four!(x, y, *, ZInt::from(a.wrapping_mul(b))); }
  fn m05_residues() { if !sampling() { return } crate::each_modulus!(residues) }
  fn m05_polynomials() {
    if !sampling() { return }
    let mk = |n: usize| Polynomial { coeffs: (0..n).map(|_| ZInt::from(any_u64())).collect::<Vec<_>>() }; let (a, b) = (mk(any_u8() as usize % 4), mk(any_u8() as usize % 4)); let s = ZInt::from(any_u64());
    four!(a.clone(), b.clone(), +, &a + &b); four!(a.clone(), b.clone(), -, &a - &b); four!(a.clone(), b.clone(), *, &a * &b); four!(a.clone(), s, *, &a * &s);
  }
}
