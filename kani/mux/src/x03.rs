use crate::eval::*;
use mux_circuits::{and::make_and_circuit, or::make_or_circuit, bitshift::*};
nd::harnesses! {
  fn x03_logic() {
    if !nd::sampling() { return }
    let n = 1 + nd::any_u8() as usize % 70; let (a, b) = (numbers(n), numbers(n)); let inp = interleave(&slice(&a, n), &slice(&b, n));
    let (x, y) = (eval(&make_and_circuit(n as u16), &inp), eval(&make_or_circuit(n as u16), &inp)); assert!(x.len() == n && y.len() == n, "outputs");
    for l in 0..64 { assert!(unslice(&x, l) == a[l] & b[l], "{n} bits: {} & {}", a[l], b[l]); assert!(unslice(&y, l) == a[l] | b[l], "{n} bits: {} | {}", a[l], b[l]); }
  }
  fn x03_shift() {
    if !nd::sampling() { return }
    // the BDD manager's optimisation of a shifter is slow from about ten data bits on, so wide ones are rare
    let w = nd::any_u8() as usize; let n = if w < 252 { 1 + w % 8 } else { 9 + w % 3 };
    let u = (usize::BITS - (n - 1).leading_zeros()).max(1) as usize; let ss = u + nd::any_u8() as usize % 2;
    let a = numbers(n); let s = numbers(ss);
    for (dir, mode) in [(ShiftDirection::Left, ShiftMode::Logical), (ShiftDirection::Right, ShiftMode::Logical), (ShiftDirection::Right, ShiftMode::Arithmetic), (ShiftDirection::Left, ShiftMode::Rotation), (ShiftDirection::Right, ShiftMode::Rotation)] {
      if mode == ShiftMode::Rotation && !n.is_power_of_two() { continue }
      let mut inp = slice(&a, n); inp.reverse(); let mut t = slice(&s, ss); t.reverse(); inp.extend(t);
      let mut o = eval(&bitshift(n as u16, ss as u16, dir, mode), &inp); assert!(o.len() == n, "outputs"); o.reverse();
      for l in 0..64 { let (x, k) = (a[l], s[l]); let big = k >= n as u128; let k = if big { 0 } else { k as usize }; let r = (s[l] % n as u128) as usize;
        let w = match (dir, mode) {
          (ShiftDirection::Left, ShiftMode::Logical) => if big { 0 } else { x << k & mask(n) },
          (_, ShiftMode::Logical) => if big { 0 } else { x >> k },
          (_, ShiftMode::Arithmetic) => (if big { if signed(x, n) < 0 { !0 } else { 0 } } else { (signed(x, n) >> k) as u128 }) & mask(n),
          (ShiftDirection::Left, _) => if r == 0 { x } else { (x << r | x >> (n - r)) & mask(n) },
          (_, _) => if r == 0 { x } else { (x >> r | x << (n - r)) & mask(n) },
        };
        assert!(unslice(&o, l) == w, "{n} bits, {ss} shift bits, {dir:?} {mode:?}: {x} by {} gave {}", s[l], unslice(&o, l)); }
    }
  }
}
