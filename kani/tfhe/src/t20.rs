use crate::common::*;
const N: &[usize] = &[1, 2, 4, 16, 32];
fn rdx(l: usize) -> RadixDecomposition { if sampling() { let count = 1 + any_usize() % 4; radix(1 + any_usize() % (63 / count).min(20), count) } else { radix(8, l) } }
harnesses! {
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, dirty_scratch)]
  fn t20_external_product() {
    let (k, n) = (size(1, &[1, 2, 3]), size(1, N)); let r = rdx(1); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n;
    let a = tv(s); let b = tv((k + 1) * l * s); let c0 = tv(s); let mut c = c0.clone();
    ops::ciphertext::glwe_ggsw_mad(glwe_m(&mut c), glwe(&a), ggsw(&b), &g, &r);
    let mut acc: Vec<u64> = c0.iter().map(|x| x.inner()).collect(); for i in 0..=k { gadget(&mut acc, slice_of(n, &a, i), slice_of(l * s, &b, i), k, n, &r); }
    for i in 0..s { assert!(c[i].inner() == acc[i], "c += sum_i <digits(a_i), row_i>"); }
    if sampling() { let e = ops::ciphertext::external_product_ggsw_glwe(ggsw(&b), glwe(&a), &g, &r); let flat: Vec<T> = e.a(&g).flat_map(|p| p.coeffs().iter()).chain(e.b(&g).coeffs()).copied().collect(); for i in 0..s { assert!(flat[i].inner() == acc[i].wrapping_sub(c0[i].inner()), "product starts from zero"); } }
  }
  fn t20_scheme_switch() {
    if !sampling() { return }
    let (k, n) = (size(1, &[1, 2, 3]), size(2, &[1, 2, 8])); let (rg, rs) = (rdx(1), rdx(1)); let (l, ls) = (rg.count.0, rs.count.0); let g = gdef(k, n); let s = (k + 1) * n;
    let x = tv(l * s); let raw = tv(k * (k + 1) / 2 * ls * s); let mut out = tv((k + 1) * l * s);
    let key: &SchemeSwitchKeyRef<u64> = vh::FromSlice::from_slice(&raw[..]);
    ops::bootstrapping::scheme_switch(ggsw_m(&mut out), glev(&x), key, &g, &rg, &rs);
    for j in 0..=k { for i in 0..l {
      let xi = slice_of(s, &x, i);
      let mut acc = vec![0u64; s];
      if j == k { for c in 0..s { acc[c] = xi[c].inner(); } }
      else {
        for c in 0..n { acc[j * n + c] = xi[k * n + c].inner(); }
        for q in 0..k { let (lo, hi) = (j.min(q), j.max(q)); let idx = (0..lo).map(|z| k - z).sum::<usize>() + hi - lo; gadget(&mut acc, slice_of(n, xi, q), slice_of(ls * s, &raw, idx), k, n, &rs); }
      }
      for c in 0..s { assert!(out[(j * l + i) * s + c].inner() == acc[c], "row j of the GGSW"); }
    } }
  }
  fn t20_scheme_switch_semantics() {
    // noise-free key: row j of the result has phase -s_j * phase, up to the decomposition error
    if !sampling() { return }
    let (k, n) = (size(1, &[1, 2]), size(16, &[16, 32])); let (rg, rs) = (radix(8, 2), radix(8, 7)); let l = 2; let g = gdef(k, n); let s = (k + 1) * n; let sk = bits(k * n);
    let x = tv(l * s); let mut key = SchemeSwitchKey::<u64>::new(&g, &rs); ops::bootstrapping::generate_scheme_switch_key(&mut key, glwe_sk(&sk), &g, &rs);
    let mut out = tv((k + 1) * l * s); ops::bootstrapping::scheme_switch(ggsw_m(&mut out), glev(&x), &key, &g, &rg, &rs);
    for j in 0..=k { for i in 0..l { let ph: Vec<T> = (0..n).map(|c| t(glwe_phase(slice_of(s, &x, i), &sk, k, n, c))).collect(); for c in 0..n {
      let want = if j == k { ph[c].inner() } else { neg_conv(&ph, &sk[j * n..(j + 1) * n], c).wrapping_neg() };
      assert!(tdist(glwe_phase(slice_of(s, &out, j * l + i), &sk, k, n, c).wrapping_sub(want)) < 1 << 20, "encrypts -s_j times the message"); } } }
  }
}
