use crate::common::*;

macro_rules! roundtrip { ($w:ty, $any:ident) => {{
    let b = <$w>::BITS;
    let w = any_u32();
    assume(w >= 1 && w < b);
    let m = $any();
    assume(m >> w == 0);
    let e = $any();
    // |e| < q / 2^(w+1)
    let half = (1 as $w) << (b - w - 1);
    assume(e < half || e.wrapping_neg() < half);
    let enc = Torus::<$w>::encode(m, PlaintextBits(w));
    assert!(enc.decode(PlaintextBits(w)) == m, "decode(encode(m)) == m");
    assert!(enc.inner() == m << (b - w), "encoding is m scaled to the top bits");
    let noisy = Torus::<$w>::from(enc.inner().wrapping_add(e));
    assert!(noisy.decode(PlaintextBits(w)) == m, "decode(encode(m)+e) == m");
}} }
macro_rules! nearest { ($w:ty, $any:ident) => {{
    let b = <$w>::BITS;
    let w = any_u32();
    assume(w >= 1 && w < b);
    let x = $any();
    let m = Torus::<$w>::from(x).decode(PlaintextBits(w));
    assert!(m >> w == 0, "decoded message has the width");
    let d = x.wrapping_sub(m << (b - w));
    let d = if d >> (b - 1) == 1 { d.wrapping_neg() } else { d };
    assert!(d <= (1 as $w) << (b - w - 1), "decoded message is a nearest one");
}} }
harnesses! {
  fn t01_roundtrip_u64() { roundtrip!(u64, any_u64) }
  fn t01_roundtrip_u32() { roundtrip!(u32, any_u32) }
  fn t01_nearest_u64() { nearest!(u64, any_u64) }
  fn t01_nearest_u32() { nearest!(u32, any_u32) }
  #[kani::unwind(6)]
  fn t01_polynomial() {
    let n = size(4, &[1, 2, 3, 8, 64, 1024]);
    let w = any_u32();
    assume(w >= 1 && w < 64);
    let msg: Vec<u64> = { let mut v = uv(n); for x in v.iter_mut() { *x &= (1u64 << w) - 1; } v };
    let half = 1u64 << (63 - w);
    let mut enc = tv(n);
    ops::polynomial::encode_polynomial(prm(&mut enc), pr(&msg), PlaintextBits(w));
    for i in 0..n {
        assert!(enc[i].inner() == msg[i] << (64 - w));
        let e = any_u64();
        let e = if any_bool() { e & (half - 1) } else { (e & (half - 1)).wrapping_neg() };
        enc[i] = t(enc[i].inner().wrapping_add(e));
    }
    let mut out = uv(n);
    ops::polynomial::decode_polynomial(prm(&mut out), pr(&enc), PlaintextBits(w));
    for i in 0..n { assert!(out[i] == msg[i]); }
  }
}
