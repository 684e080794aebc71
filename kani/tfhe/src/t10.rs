use crate::common::*;
use sunscreen_tfhe::ops::ciphertext::lwe_ciphertext_modulus_switch as ms;
fn want(x: u64, chi: u32, v: u32, m: u32) -> u64 {
    let q = m - v;                         // number of significant output bits
    let y = (x << chi) as u128;
    let r = (y + (1u128 << (63 - q))) >> (64 - q);
    (r as u64) << v
}
fn eqv(got: u64, w: u64, m: u32) -> bool { (got ^ w) & ((1u64 << m) - 1) == 0 && (got == w || got == w & ((1u64 << m) - 1)) }
fn pars() -> (u32, u32, u32) {
    let (chi, v, m) = if sampling() { let m = 1 + (any_u8() % 63) as u32; (any_u8() as u32 % 64, any_u8() as u32 % m, m) } else { (any_u8() as u32, any_u8() as u32, any_u8() as u32) };
    assume(m < 64 && v < m && chi < 64);
    (chi, v, m)
}
harnesses! {
  #[kani::unwind(4)]
  fn t10_every_component() {
    let n = size(1, &[1, 2, 3, 64, 637]); let c0 = tv(n + 1); let mut c = c0.clone();
    let (chi, v, m) = pars();
    ms(lwe_m(&mut c), chi, v, m, &ldef(n));
    for i in 0..=n { assert!(eqv(c[i].inner(), want(c0[i].inner(), chi, v, m), m), "round(2^chi x / 2^(64-m+v)) * 2^v"); }
  }
}
