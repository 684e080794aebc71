use crate::common::*;
use num::traits::{WrappingAdd, WrappingMul, WrappingNeg, WrappingSub};
use vh::goldilocks::*;
const P: u128 = 0xFFFF_FFFF_0000_0001;
fn raw(x: Fg) -> u64 { unsafe { std::mem::transmute(x) } }
fn el() -> u64 { if sampling() { (any_u64() as u128 % P) as u64 } else { let x = any_u64(); assume((x as u128) < P); x } }
fn fg(x: u64) -> Fg { Fg::new(x) }
fn powm(mut b: u128, mut e: u128) -> u128 { let mut r = 1u128; while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; } r }
harnesses! {
  fn t12_new() { let x = any_u64(); let f = Fg::new(x); assert!(raw(f) as u128 == x as u128 % P, "canonical representative"); assert!(raw(Fg::from(x)) == raw(f)); }
  fn t12_add_sub_neg() {
    let (a, b) = (el(), el()); let (x, y) = (fg(a), fg(b));
    assert!(raw(x + y) as u128 == (a as u128 + b as u128) % P, "a + b");
    assert!(raw(x - y) as u128 == (a as u128 + P - b as u128) % P, "a - b");
    assert!(raw(-x) as u128 == (P - a as u128) % P, "-a");
    assert!(raw(x.wrapping_add(&y)) == raw(x + y) && raw(x.wrapping_sub(&y)) == raw(x - y) && raw(x.wrapping_neg()) == raw(-x));
  }
  fn t12_unreduced_add_sub() {
    let (a, b) = (el(), el()); let (x, y) = (fg(a), fg(b));
    assert!(raw(x.unreduced_add(y).reduce()) as u128 == (a as u128 + b as u128) % P, "unreduced_add");
    assert!(raw(x.unreduced_sub(y).reduce()) as u128 == (a as u128 + P - b as u128) % P, "unreduced_sub");
  }
  fn t12_reduce159_sparse() {
    // any 128-bit value whose middle word is m and with the high word limited to 0 or all ones is reduced to its residue
    let lo = any_u64(); let mid = any_u32(); let hi: u32 = if any_bool() { 0 } else { any_u32() };
    let v = lo as u128 | (mid as u128) << 64 | (hi as u128) << 96;
    // 2^64 = 2^32 - 1 and 2^96 = -1 (mod P): compare against the definition through these identities
    let want = ((lo as u128) + ((mid as u128) << 32) - mid as u128 + P * 2 - hi as u128) % P;
    assert!(raw(Fg159::from(v).reduce()) as u128 == want, "128-bit reduction");
  }
  fn t12_mul() {
    if !sampling() { return }
    let (a, b, c) = (el(), el(), el()); let (x, y, z) = (fg(a), fg(b), fg(c));
    let w = a as u128 * b as u128 % P;
    assert!(raw(x * y) as u128 == w && raw(x.unreduced_mul(y).reduce()) as u128 == w && raw(x.wrapping_mul(&y)) as u128 == w, "a * b");
    assert!(raw(x.mad(y, z)) as u128 == (a as u128 * b as u128 + c as u128) % P && raw(x.unreduced_mad(y, z).reduce()) as u128 == (a as u128 * b as u128 + c as u128) % P, "a * b + c");
    let v = any_u128();
    assert!(raw(Fg159::from(v).reduce()) as u128 == v % P, "reduce");
  }
  fn t12_inverse_pow_root() {
    if !sampling() { return }
    let a = el(); let e = any_u64();
    assert!(raw(sunscreen_tfhe::math::Pow::<u64>::pow(&fg(a), e)) as u128 == powm(a as u128, e as u128), "pow");
    if a != 0 { assert!(raw(fg(a) * sunscreen_tfhe::math::Inverse::inverse(&fg(a))) == 1, "inverse"); }
    let l = any_u8() % 33; let n = 1u64 << l;
    let r = raw(<Fg as sunscreen_tfhe::math::RootOfUnity>::nth_root_of_unity(n)) as u128;
    assert!(powm(r, n as u128) == 1, "r^n = 1"); if n > 1 { assert!(powm(r, n as u128 / 2) == P - 1, "primitive"); }
  }
}
