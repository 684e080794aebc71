use crate::eval::*;
use mux_circuits::{add::ripple_carry_adder, neg::negator, sub::full_subtractor};
fn width() -> usize { let w = nd::any_u8() as usize; if w < 200 { 1 + w % 18 } else { [24, 31, 32, 33, 48, 63, 64, 65, 100][w % 9] } }
nd::harnesses! {
  fn x01_add() {
    if !nd::sampling() { return }
    let n = width(); let m = if nd::any_bool() { n } else { width() }; let cin = nd::any_bool();
    let c = ripple_carry_adder(n, m, cin); let (a, b) = (numbers(n), numbers(m)); let ci = if cin { nd::any_u64() } else { 0 };
    let mut inp = if cin { vec![ci] } else { vec![] }; inp.extend(interleave(&slice(&a, n), &slice(&b, m)));
    let o = eval(&c, &inp); assert!(o.len() == n.max(m) + 1, "outputs");
    for l in 0..64 { assert!(unslice(&o, l) == a[l] + b[l] + (ci >> l & 1) as u128, "{n}+{m} bits: {} + {} + {} gave {}", a[l], b[l], ci >> l & 1, unslice(&o, l)); }
  }
  fn x01_sub() {
    if !nd::sampling() { return }
    let n = width(); let bin = nd::any_bool();
    let c = full_subtractor(n, bin); let (a, b) = (numbers(n), numbers(n)); let bi = if bin { nd::any_u64() } else { 0 };
    let mut inp = if bin { vec![bi] } else { vec![] }; inp.extend(interleave(&slice(&a, n), &slice(&b, n)));
    let o = eval(&c, &inp); assert!(o.len() == n + 1, "outputs");
    for l in 0..64 { let s = b[l] + (bi >> l & 1) as u128; let d = unslice(&o[..n], l); assert!(d == a[l].wrapping_sub(s) & mask(n), "{n} bits: {} - {s} gave {d}", a[l]); assert!((o[n] >> l & 1 == 1) == (a[l] < s), "borrow of {} - {s}", a[l]); }
  }
  fn x01_neg() {
    if !nd::sampling() { return }
    let n = width(); let c = negator(n); let a = numbers(n);
    let o = eval(&c, &slice(&a, n)); assert!(o.len() == n, "outputs");
    for l in 0..64 { assert!(unslice(&o, l) == a[l].wrapping_neg() & mask(n), "{n} bits: -{} gave {}", a[l], unslice(&o, l)); }
  }
}
