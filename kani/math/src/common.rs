pub use nd::*;
pub use num::BigUint;
pub use sunscreen_math::ring::*;
pub use sunscreen_math::{BarrettConfig, One, Zero, refify_binary_op};
macro_rules! cfg { ($($n:ident, $m:literal, $l:literal, $f:literal;)*) => { $( #[derive(BarrettConfig)] #[barrett_config(modulus = $m, num_limbs = $l, is_field = $f)] pub struct $n; )* } }
cfg! {
  A2, "2", 1, false; A3, "3", 1, true; A65537, "0x10001", 1, true; A32, "4294967291", 1, true; AGold, "9223372036854775783", 1, true; AMax, "0x8000000000000000", 1, false; AM63, "0x7fffffffffffffff", 1, false; ASix, "6", 1, false; AMid, "0x4000000000000001", 1, false;
  B7, "7", 2, true; BBig, "0x7fffffffffffffffffffffffffffffff", 2, true; BMax, "0x80000000000000000000000000000000", 2, false; B64, "18446744073709551557", 2, true; BLim, "0x10000000000000000", 2, false;
  D25519, "7237005577332262213973186563042994240857116359379907606001950938285454250989", 4, true; DP, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 4, true; DMax, "0x8000000000000000000000000000000000000000000000000000000000000000", 4, false; DSmall, "1000003", 4, true;
}
/// run `f` for one of the moduli
#[macro_export]
macro_rules! each_modulus { ($f:ident) => { { use $crate::common::*; match any_u8() % 17 { 0 => $f::<1, A2>(false), 1 => $f::<1, A3>(true), 2 => $f::<1, A65537>(true), 3 => $f::<1, A32>(true), 4 => $f::<1, AGold>(true), 5 => $f::<1, AMax>(false), 6 => $f::<1, AM63>(false), 7 => $f::<1, ASix>(false), 8 => $f::<1, AMid>(false),
  9 => $f::<2, B7>(true), 10 => $f::<2, BBig>(true), 11 => $f::<2, BMax>(false), 12 => $f::<2, B64>(true), 13 => $f::<2, BLim>(false), 14 => $f::<4, D25519>(true), 15 => $f::<4, DP>(true), _ => $f::<4, DMax>(false) } } } }
pub type Z<const N: usize, C> = Zq<N, BarrettBackend<N, C>>;
pub fn big<const N: usize>(u: &Uint<N>) -> BigUint { let mut v = Vec::new(); for w in u.as_words() { v.push(*w as u32); v.push((*w >> 32) as u32); } BigUint::from_slice(&v) }
pub fn uint<const N: usize>(b: &BigUint) -> Uint<N> { let mut w = [0u64; N]; for (i, d) in b.to_u64_digits().into_iter().enumerate() { w[i] = d; } Uint::from_words(w) }
pub fn modulus<const N: usize, C: BarrettConfig<N>>() -> BigUint { big(&C::MODULUS) }
/// a canonical residue, often near 0, q/2 or q
pub fn any_res<const N: usize, C: BarrettConfig<N>>() -> BigUint {
    let q = modulus::<N, C>(); let mut w = vec![]; for _ in 0..N { let x = any_u64(); w.push(x as u32); w.push((x >> 32) as u32); }
    let r = BigUint::from_slice(&w); let s = BigUint::from(any_u8() & 7);
    match any_u8() % 5 { 0 => s % &q, 1 => (&q + &q - BigUint::from(1u8) - s % &q) % &q, 2 => (&q / 2u8 + s) % &q, 3 => { let k = any_u16() as u64 % q.bits(); (BigUint::from(1u8) << k) % &q } _ => r % &q }
}
pub fn zq<const N: usize, C: BarrettConfig<N>>(b: &BigUint) -> Z<N, C> { Zq::try_from(uint::<N>(b)).unwrap() }
pub fn val<const N: usize, C: BarrettConfig<N>>(z: &Z<N, C>) -> BigUint { big(&z.clone().into_bigint()) }
