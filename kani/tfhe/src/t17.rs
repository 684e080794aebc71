use crate::common::*;
fn lut(n: usize, p_bits: u32, v: usize) {
    let p = 1usize << p_bits; let stride = n / p; let ceil_v = v.next_power_of_two();
    let tab: Vec<Vec<u64>> = (0..v).map(|_| (0..p).map(|_| any_u64() & (p as u64 - 1)).collect()).collect();
    let maps: Vec<_> = tab.iter().map(|t| move |x: u64| t[x as usize]).collect();
    let mut out = tv(n);
    vh::generate_lut(prm(&mut out), &maps, &gdef(1, n), PlaintextBits(p_bits));
    let f = |slot: usize, k: usize| -> u64 { let id = k % ceil_v; if id < v { tab[id][slot] << (64 - p_bits) } else { 0 } };
    // position i of the rotated table belongs to source position i + stride/2; the wrapped half of slot 0 is negated
    for i in 0..n {
        let s = i + stride / 2;
        let want = if s < n { f(s / stride, s % stride) } else { f(0, s - n).wrapping_neg() };
        assert!(out[i].inner() == want, "window of the lookup table");
    }
}
harnesses! {
  #[kani::unwind(10)]
  #[kani::stub(core::slice::rotate::ptr_rotate, rot)]
  fn t17_single() { let n = size(4, &[8, 16, 64, 256]); let b = if sampling() { any_u8() as u32 % (n.ilog2() + 1) } else { 1 }; lut(n, b.max(1).min(n.ilog2()), 1) }
  #[kani::unwind(10)]
  #[kani::stub(core::slice::rotate::ptr_rotate, rot)]
  fn t17_multi() { let n = size(8, &[8, 16, 64, 256]); let b = if sampling() { 1 + any_u8() as u32 % n.ilog2() } else { 1 }; lut(n, b, if sampling() { 1 + any_usize() % 5 } else { 2 }) }
  fn t17_tables() {
    if !sampling() { return }
    let n = size(8, &[16, 64, 256]); let k = size(1, &[1, 2]); let g = gdef(k, n); let b = 1 + any_u8() as u32 % (n.ilog2() - 1); let p = 1u64 << b;
    let tab: Vec<u64> = (0..p).map(|_| any_u64() % p).collect();
    let u = UnivariateLookupTable::<u64>::trivial_from_fn(|x| tab[x as usize], &g, PlaintextBits(b));
    let all = |c: &GlweCiphertextRef<u64>| -> Vec<u64> { c.a(&g).flat_map(|p| p.coeffs().iter()).chain(c.b(&g).coeffs()).map(|x| x.inner()).collect() };
    let mut want = tv(n); vh::generate_lut(prm(&mut want), &[|x: u64| tab[x as usize]], &g, PlaintextBits(b));
    let w: Vec<u64> = (0..k * n).map(|_| 0).chain(want.iter().map(|x| x.inner())).collect();
    assert!(all(u.glwe()) == w, "univariate table is the trivial encryption of its LUT");
    let hb = (b / 2).max(1); if 2 * hb <= n.ilog2() { let h = 1u64 << hb; let t2: Vec<u64> = (0..h * h).map(|_| any_u64() % h).collect();
      let bv = BivariateLookupTable::<u64>::trivial_from_fn(|x, y| t2[(x * h + y) as usize], &g, PlaintextBits(hb), CarryBits(hb));
      let mut want = tv(n); vh::generate_lut(prm(&mut want), &[|x: u64| t2[(x % (h * h)) as usize]], &g, PlaintextBits(2 * hb));
      let w: Vec<u64> = (0..k * n).map(|_| 0).chain(want.iter().map(|x| x.inner())).collect();
      assert!(all(bv.glwe()) == w, "bivariate table"); }
    let mf: Vec<_> = (0..3).map(|s| { let tab = tab.clone(); move |x: u64| tab[x as usize].wrapping_add(s) % p }).collect();
    let u = UnivariateLookupTable::<u64>::trivivial_multifunctional(&mf, &g, PlaintextBits(b)); let mut want = tv(n); vh::generate_lut(prm(&mut want), &mf, &g, PlaintextBits(b));
    let w: Vec<u64> = (0..k * n).map(|_| 0).chain(want.iter().map(|x| x.inner())).collect();
    assert!(all(u.glwe()) == w, "multi-function table");
  }
}
