use crate::common::*;
fn constants<const N: usize, C: BarrettConfig<N>>(_f: bool) {
    let q = modulus::<N, C>(); let w = BigUint::from(1u8) << (64 * N);
    assert!(big(&C::R) == &w / &q, "R = floor(2^(64N) / q)");
    assert!(big(&C::S) == &w * &w / &q - &w * (&w / &q), "S = floor(2^(128N) / q) - 2^(64N) R");
    assert!(big(&C::T) == &w - &q * (&w / &q), "T = 2^(64N) - R q");
    assert!(big(&C::MODULUS_DIV_2) == &q / 2u8, "half the modulus");
}
fn mulmod<const N: usize, C: BarrettConfig<N>>(_f: bool) {
    let q = modulus::<N, C>(); let (a, b) = (any_res::<N, C>(), any_res::<N, C>());
    let got = BarrettBackend::<N, C>::mul_mod(&uint(&a), &uint(&b));
    assert!(big(&got) == &a * &b % &q, "product modulo q");
    // all the way up to the square of the modulus
    let c = &q - BigUint::from(1u8) - BigUint::from(any_u8() & 3) % &q;
    assert!(big(&BarrettBackend::<N, C>::mul_mod(&uint(&c), &uint(&c))) == &c * &c % &q, "square near q^2");
    // products just below and just above a multiple of q
    if a != BigUint::from(0u8) { let m = (&b * &q) / &a; for d in 0..2u8 { let x = &m + d; if x < q { assert!(big(&BarrettBackend::<N, C>::mul_mod(&uint(&a), &uint(&x))) == &a * &x % &q, "near a multiple of q"); } } }
}
nd::harnesses! {
  fn m01_constants() { if !sampling() { return } crate::each_modulus!(constants) }
  fn m01_product() { if !sampling() { return } crate::each_modulus!(mulmod) }
}
