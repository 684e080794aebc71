use crate::common::*;
use sunscreen_math::field::Field;
fn ring<const N: usize, C: BarrettConfig<N>>(_f: bool) {
    let q = modulus::<N, C>(); let (a, b) = (any_res::<N, C>(), any_res::<N, C>()); let (x, y) = (zq::<N, C>(&a), zq::<N, C>(&b));
    assert!(val(&(&x + &y)) == (&a + &b) % &q, "sum"); assert!(val(&(&x - &y)) == (&a + &q - &b) % &q, "difference");
    assert!(val(&(&x * &y)) == &a * &b % &q, "product"); assert!(val(&-&x) == (&q - &a) % &q, "negation"); assert!(val(&-x) == (&q - &a) % &q, "negation by value");
    assert!((x == y) == (a == b), "equality of canonical values"); assert!(x.cmp(&y) == a.cmp(&b), "order of canonical values");
    assert!(val(&Z::<N, C>::zero()) == BigUint::from(0u8)); assert!(val(&Z::<N, C>::one()) == BigUint::from(1u8) % &q); assert!(x.vartime_is_zero() == (a == BigUint::from(0u8)));
}
fn conv<const N: usize, C: BarrettConfig<N>>(_f: bool) {
    let q = modulus::<N, C>();
    let u = any_u64(); assert!(val(&Z::<N, C>::from(u)) == BigUint::from(u) % &q, "u64"); let u = any_u32(); assert!(val(&Z::<N, C>::from(u)) == BigUint::from(u) % &q, "u32");
    let i = any_i64(); let m = BigUint::from(i.unsigned_abs()); if i >= 0 { assert!(val(&Z::<N, C>::from(i)) == m % &q, "i64"); } else if m <= q { assert!(val(&Z::<N, C>::from(i)) == (&q - m) % &q, "negative i64"); }
    let i = any_i32(); let m = BigUint::from(i.unsigned_abs()); if i >= 0 { assert!(val(&Z::<N, C>::from(i)) == m % &q, "i32"); } else if m <= q { assert!(val(&Z::<N, C>::from(i)) == (&q - m) % &q, "negative i32"); }
    // only canonical values convert
    let c = match any_u8() % 4 { 0 => q.clone(), 1 => &q + 1u8, 2 => &q - 1u8, _ => any_res::<N, C>() };
    match Z::<N, C>::try_from(uint::<N>(&c)) { Ok(z) => assert!(c < q && val(&z) == c, "canonical value kept"), Err(_) => assert!(c >= q, "canonical value refused") }
    assert!(big(&<Z<N, C> as RingModulus<N>>::field_modulus()) == q); assert!(big(&<Z<N, C> as RingModulus<N>>::field_modulus_div_2()) == &q / 2u8); assert!(big(&<Z<N, C> as RingModulus<8>>::field_modulus()) == q, "extended modulus");
}
fn inv1<const N: usize, C: BarrettConfig<N> + sunscreen_math::field::FieldConfig>() {
    let q = modulus::<N, C>(); let a = any_res::<N, C>(); if a == BigUint::from(0u8) { return } let x = zq::<N, C>(&a); let y = x.inverse();
    assert!(val(&y) < q && &a * val(&y) % &q == BigUint::from(1u8), "inverse");
}
macro_rules! zint { ($($f:ident $t:ident $a:ident;)*) => { $( fn $f() {
    let (a, b) = ($a(), $a()); let (x, y) = (ZInt::<$t>::new(a), ZInt::<$t>::from(b));
    assert!(&x + &y == ZInt::from(a.wrapping_add(b))); assert!(&x - &y == ZInt::from(a.wrapping_sub(b))); assert!(&x * &y == ZInt::from(a.wrapping_mul(b))); assert!(-&x == ZInt::from(a.wrapping_neg())); assert!(-x == ZInt::from(a.wrapping_neg()));
    assert!((x == y) == (a == b)); assert!(x.cmp(&y) == a.cmp(&b)); assert!(x.vartime_is_zero() == (a == 0)); assert!(ZInt::<$t>::zero() == ZInt::from(0)); assert!(ZInt::<$t>::one() == ZInt::from(1));
} )* } }
zint! { z8 u8 any_u8; z16 u16 any_u16; z32 u32 any_u32; z64 u64 any_u64; z128 u128 any_u128; }
nd::harnesses! {
  fn m02_ring() { if !sampling() { return } crate::each_modulus!(ring) }
  fn m02_conversions() { if !sampling() { return } crate::each_modulus!(conv) }
  fn m02_inverse() { if !sampling() { return } match any_u8() % 9 { 0 => inv1::<1, A3>(), 1 => inv1::<1, A65537>(), 2 => inv1::<1, A32>(), 3 => inv1::<1, AGold>(), 4 => inv1::<2, B7>(), 5 => inv1::<2, BBig>(), 6 => inv1::<4, D25519>(), 7 => inv1::<4, DP>(), _ => inv1::<2, B64>() } }
  fn m02_words() { z8(); z16(); z32(); z64(); z128(); }
}
