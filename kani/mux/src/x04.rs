use crate::eval::*;
use mux_circuits::{convert_value_to_bits, mul::*, util::*};
fn wide() -> u128 { let a = nd::any_u64() as u128 | (nd::any_u64() as u128) << 64; let k = nd::any_u8(); match k % 6 { 0 => !0, 1 => 0, 2 => 1u128 << (k / 2), 3 => (1u128 << (k / 2)) - 1, _ => a >> (k / 2) } }
nd::harnesses! {
  fn x04_sub() {
    let w = nd::any_u8() as u32 % 129; let m = mask(w as usize); let (a, b) = (wide() & m, wide() & m); let b = if nd::any_u8() % 8 == 0 { a } else { b }; let c = nd::any_bool();
    let (d, o) = arbitrary_width_borrowing_sub(a, b, c as u128, w);
    assert!(d == a.wrapping_sub(b).wrapping_sub(c as u128) & m, "width {w}: {a} - {b} - {c} gave {d}");
    assert!((o != 0) == (a < b || (c && a == b)) && o < 2, "width {w}: borrow of {a} - {b} - {c} is {o}");
    let (a, b) = (wide(), wide()); let (d, o) = borrowing_sub(a, b, c); assert!(d == a.wrapping_sub(b).wrapping_sub(c as u128) && o == (a < b || (c && a == b)), "{a} - {b} - {c}");
  }
  fn x04_bits() {
    let w = nd::any_u8() as u32 % 129; let v = wide(); let b = convert_value_to_bits(v, w);
    assert!(b.len() == w as usize && b.iter().enumerate().all(|(i, x)| *x == (v >> i & 1 == 1)), "bits of {v} at width {w}");
    let n = nd::any_u8() as usize % 130; let v = wide() as u64; let v = if nd::any_bool() { v & mask(n) as u64 } else { v };
    match try_to_bits(v, n) { Ok(b) => assert!(v as u128 <= mask(n) && b.len() == n && b.iter().enumerate().all(|(i, x)| **x == (i < 64 && v >> i & 1 == 1)), "bits of {v} at width {n}"), Err(_) => assert!(v as u128 > mask(n), "{v} refused at width {n}") }
  }
  fn x04_multiplier() {
    if !nd::sampling() { return }
    let n = 1 + nd::any_u8() as usize % 7; let m = 1 + nd::any_u8() as usize % 7;
    let (n, m) = match nd::any_u8() { 0..8 => (8, 8), 8..10 => (16, 16), _ => (n, m) };
    let c = unsigned_multiplier(n, m); let (a, b) = (numbers(n), numbers(m));
    let mut inp = slice(&a, n); inp.extend(slice(&b, m));
    let o = eval(&c, &inp); assert!(o.len() == n + m, "outputs");
    for l in 0..64 { assert!(unslice(&o, l) == a[l] * b[l], "{n} x {m} bits: {} * {} gave {}", a[l], b[l], unslice(&o, l)); }
  }
  fn x04_partition() {
    // every width a circuit can have
    for n in 0..=70000usize { let (l, h) = partition_integer(n); assert!(l + h == n && (if n <= 16 { h == 0 } else { h == n / 2 }), "partition of {n} is {l}, {h}"); }
  }
  fn x04_reduction() {
    if !nd::sampling() { return }
    // the four partial products of a divided multiplication add up to the product
    let n = 1 + nd::any_u8() as usize % 40; let m = 1 + nd::any_u8() as usize % n; let big = nd::any_u8() == 0; let (n, m) = if big { (64, 64) } else { (n, m) };
    let (al, ah) = partition_integer(n); let (bl, bh) = partition_integer(m);
    assert!(al + ah == n && bl + bh == m && al >= ah && bl >= bh, "partition of {n} and {m}");
    if al < bl || bh > ah { return }
    let (a, b) = (numbers(n), numbers(m)); let lo = |x: &[u128], k: usize| x.iter().map(|v| v & mask(k)).collect::<Vec<_>>(); let hi = |x: &[u128], k: usize| x.iter().map(|v| v >> k).collect::<Vec<_>>();
    let (a0, a1, b0, b1) = (lo(&a, al), hi(&a, al), lo(&b, bl), hi(&b, bl)); let mul = |x: &[u128], y: &[u128], k: usize| slice(&x.iter().zip(y).map(|(p, q)| p * q).collect::<Vec<_>>(), k);
    let inp = encode_gradeschool_reduction(n, m, &mul(&a0, &b0, al + bl), &mul(&a0, &b1, al + bh), &mul(&a1, &b0, ah + bl), &mul(&a1, &b1, ah + bh));
    let o = eval(&gradeschool_reduce(n, m), &inp); assert!(o.len() == n + m, "outputs");
    for l in 0..64 { assert!(unslice(&o, l) == a[l] * b[l], "{n} x {m} bits: {} * {} gave {}", a[l], b[l], unslice(&o, l)); }
  }
}
