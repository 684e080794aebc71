use crate::eval::*;
use mux_circuits::comparisons::*;
fn width() -> usize { let w = nd::any_u8() as usize; if w < 200 { 1 + w % 18 } else { [24, 31, 32, 33, 48, 63, 64, 65, 100][w % 9] } }
/// pairs that agree on a prefix, so that the decision falls at any bit
fn near(a: &[u128], n: usize) -> Vec<u128> { a.iter().map(|x| { let k = nd::any_u8() as usize; match k % 5 { 0 => *x, 1 => *x ^ (1u128 << (k / 5 % n)), 2 => (*x & !mask(1 + k / 5 % n)) | (nd::any_u64() as u128 & mask(1 + k / 5 % n) & mask(n)), 3 => (nd::any_u64() as u128 | (nd::any_u64() as u128) << 64) & mask(n), _ => (*x ^ (1u128 << (k / 5 % n))) ^ (1u128 << (nd::any_u8() as usize % n)) } }).collect() }
nd::harnesses! {
  fn x02_equal() {
    if !nd::sampling() { return }
    let n = width(); let a = numbers(n); let b = near(&a, n); let inp = interleave(&slice(&a, n), &slice(&b, n));
    let (e, d) = (eval(&compare_equal(n), &inp), eval(&compare_not_equal(n), &inp)); assert!(e.len() == 1 && d.len() == 1, "outputs");
    for l in 0..64 { assert!((e[0] >> l & 1 == 1) == (a[l] == b[l]), "{n} bits: {} == {}", a[l], b[l]); assert!((d[0] >> l & 1 == 1) == (a[l] != b[l]), "{n} bits: {} != {}", a[l], b[l]); }
  }
  fn x02_order() {
    if !nd::sampling() { return }
    let n = width(); let a = numbers(n); let b = near(&a, n); let inp = interleave(&slice(&a, n), &slice(&b, n));
    for g in [false, true] { for q in [false, true] {
      let (u, s) = (eval(&compare_or_maybe_equal(n, g, q), &inp), eval(&compare_or_maybe_equal_signed(n, g, q), &inp)); assert!(u.len() == 1 && s.len() == 1, "outputs");
      for l in 0..64 { let (x, y) = (a[l], b[l]); let w = (if g { x > y } else { x < y }) || (q && x == y); assert!((u[0] >> l & 1 == 1) == w, "{n} bits, greater {g}, or equal {q}: {x} {y}");
        let (x, y) = (signed(x, n), signed(y, n)); let w = (if g { x > y } else { x < y }) || (q && x == y); assert!((s[0] >> l & 1 == 1) == w, "{n} bits signed, greater {g}, or equal {q}: {x} {y}"); }
    } }
  }
}
