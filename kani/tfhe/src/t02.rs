use crate::common::*;
use sunscreen_tfhe::math::radix::*;

macro_rules! decomp { ($w:ty, $any:ident, $l:expr, $k:expr) => {{
    let b = <$w>::BITS as usize;
    let (l, k): (usize, usize) = ($l, $k);
    let x = $any();
    let mut it = ScalarRadixIterator::<$w>::new(Torus::from(x), &radix(l, k));
    let mut acc: $w = 0;
    let mut shift = b - l * k;
    let half = (1 as $w) << (l - 1);
    for _ in 0..k {
        let d = match it.next() { Some(d) => d, None => { assert!(false, "digit count"); 0 } };
        assert!(d < half || d.wrapping_neg() <= half, "digit within [-B/2, B/2)");
        acc = acc.wrapping_add(d << shift);
        shift += l;
    }
    assert!(it.next().is_none(), "exactly k digits");
    assert!(it.next().is_none(), "stays exhausted");
    let e = acc.wrapping_sub(x);
    let e = if e >> (b - 1) == 1 { e.wrapping_neg() } else { e };
    let max = if l * k == b { 0 } else { (1 as $w) << (b - l * k - 1) };
    assert!(e <= max, "recomposition error at most half the smallest factor");
}} }
fn pair(b: usize) -> (usize, usize) {
    let l = any_u8() as usize;
    let k = any_u8() as usize;
    assume(l >= 1 && l < b && k >= 1 && k <= b && l * k <= b);
    (l, k)
}
harnesses! {
  #[kani::unwind(34)]
  fn t02_u32_all() { let (l, k) = pair(32); decomp!(u32, any_u32, l, k) }
  #[kani::unwind(66)]
  fn t02_u64_all() { let (l, k) = pair(64); decomp!(u64, any_u64, l, k) }
  #[kani::unwind(10)]
  fn t02_u64_upto8digits() { let (l, k) = pair(64); assume(k <= 8); decomp!(u64, any_u64, l, k) }
  #[kani::unwind(10)]
  fn t02_u32_upto8digits() { let (l, k) = pair(32); assume(k <= 8); decomp!(u32, any_u32, l, k) }
  #[kani::unwind(6)]
  fn t02_polynomial_iterator() {
    // the polynomial form yields, level by level, the digits of every coefficient, and recomposition restores the rounded value
    let n = size(1, &[1, 2, 4, 8, 32]);
    let (l, k) = if sampling() { let k = 1 + any_usize() % 8; (1 + any_usize() % (63 / k), k) } else { (8, 2) };
    let r = radix(l, k); let p = tv(n); let mut scratch = uv(n); let mut dig = uv(n * k); let mut extra = uv(n);
    let mut it = PolynomialRadixIterator::new(pr(&p), prm(&mut scratch), &r);
    for j in 0..k { assert!(it.write_next(prm(&mut dig[j * n..(j + 1) * n])).is_some(), "digit count"); }
    assert!(it.write_next(prm(&mut extra)).is_none(), "exactly k digits");
    for i in 0..n { let mut s = ScalarRadixIterator::<u64>::new(p[i], &r); for j in 0..k { assert!(Some(dig[j * n + i]) == s.next(), "digit j of coefficient i"); } }
    let d0 = tv(n); let mut d = d0.clone();
    let mut digs = PolynomialIterator::new(&dig, n);
    recompose_and_add(prm(&mut d), &mut digs, r.radix_log, r.count);
    for i in 0..n { let e = d[i].inner().wrapping_sub(d0[i].inner()).wrapping_sub(p[i].inner()); assert!(tdist(e) <= 1u64 << (63 - l * k), "recomposition restores the coefficient up to rounding"); }
  }
  fn t02_scale() { let l = 1 + any_usize() % 63; let j = any_usize() % 64; assume(l * (j + 1) <= 64); let x = any_u64(); assert!(scale_by_decomposition_factor(x, j, &radix(l, j + 1)) == x << (64 - l * (j + 1)), "x q / B^(j+1)"); }
}
