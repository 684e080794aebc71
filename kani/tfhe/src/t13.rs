use crate::common::*;
const LC: &[usize] = &[0, 1, 2, 3, 5, 17];
// drive an iterator from both ends and compare with the expected contiguous blocks
macro_rules! walk {
    ($it:expr, $count:expr, $stride:expr, $addr:expr, $base:expr) => {{
        let (mut lo, mut hi) = (0usize, $count);
        let mut it = $it;
        let mut steps = 0;
        while steps < $count + 2 {
            steps += 1;
            assert!(it.len() == hi - lo, "reported remaining length");
            let back = any_bool();
            let r = if back { it.next_back() } else { it.next() };
            match r {
                None => { assert!(lo == hi, "ends exactly when every item was produced"); }
                Some(x) => {
                    assert!(lo < hi, "produces no item twice");
                    let i = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
                    let (p, l) = $addr(x);
                    assert!(l == $stride, "item size");
                    assert!(p == $base + i * $stride * 8, "item i is the i-th contiguous block");
                }
            }
        }
        assert!(lo == hi, "every item is reached");
    }};
}
fn sz<X: ?Sized>(x: &X) -> (usize, usize) { (x as *const X as *const u8 as usize, std::mem::size_of_val(x) / 8) }
harnesses! {
  #[kani::unwind(8)]
  fn t13_lwe_list() {
    let c = size(3, LC); let n = size(1, &[1, 2, 9]); let s = n + 1; let mut v = tv(c * s); let base = v.as_ptr() as usize;
    let l: &mut LweCiphertextListRef<u64> = vh::FromMutSlice::from_mut_slice(&mut v[..]);
    walk!(l.ciphertexts(&ldef(n)), c, s, |x: &LweCiphertextRef<u64>| sz(x), base);
    walk!(l.ciphertexts_mut(&ldef(n)), c, s, |x: &mut LweCiphertextRef<u64>| sz(x), base);
  }
  #[kani::unwind(8)]
  fn t13_glwe_list() {
    let c = size(2, LC); let (k, n) = (size(1, &[1, 2]), size(2, &[1, 2, 8])); let g = gdef(k, n); let s = (k + 1) * n; let mut v = tv(c * s); let base = v.as_ptr() as usize;
    let l: &mut GlweCiphertextListRef<u64> = vh::FromMutSlice::from_mut_slice(&mut v[..]);
    walk!(l.ciphertexts(&g), c, s, |x: &GlweCiphertextRef<u64>| sz(x), base);
    walk!(l.ciphertexts_mut(&g), c, s, |x: &mut GlweCiphertextRef<u64>| sz(x), base);
  }
  #[kani::unwind(8)]
  fn t13_glwe_parts() {
    let (k, n) = (size(2, &[1, 2, 3]), size(2, &[1, 2, 4, 64])); let g = gdef(k, n); let mut v = tv((k + 1) * n); let base = v.as_ptr() as usize;
    { let c = glwe(&v); let (a, b) = c.a_b(&g); walk!(a, k, n, |x: &PolynomialRef<T>| sz(x), base); assert!(sz(b) == (base + k * n * 8, n), "b is the last polynomial"); walk!(c.a(&g), k, n, |x: &PolynomialRef<T>| sz(x), base); assert!(sz(c.b(&g)) == (base + k * n * 8, n)); }
    { let c = glwe_m(&mut v); let (a, b) = c.a_b_mut(&g); walk!(a, k, n, |x: &mut PolynomialRef<T>| sz(x), base); assert!(sz(b) == (base + k * n * 8, n)); }
    { let c = glwe_m(&mut v); walk!(c.a_mut(&g), k, n, |x: &mut PolynomialRef<T>| sz(x), base); assert!(sz(c.b_mut(&g)) == (base + k * n * 8, n)); }
  }
  #[kani::unwind(8)]
  fn t13_lwe_parts() {
    let n = size(3, &[1, 2, 64, 637]); let d = ldef(n); let mut v = tv(n + 1); let base = v.as_ptr() as usize;
    { let c = lwe(&v); let (a, b) = c.a_b(&d); assert!(sz(a) == (base, n) && sz(b) == (base + 8 * n, 1)); assert!(sz(c.a(&d)) == (base, n) && sz(c.b(&d)) == (base + 8 * n, 1)); }
    let c = lwe_m(&mut v); { let (a, b) = c.a_b_mut(&d); assert!(sz(a) == (base, n) && sz(b) == (base + 8 * n, 1)); } assert!(sz(c.a_mut(&d)) == (base, n)); assert!(sz(c.b_mut(&d)) == (base + 8 * n, 1));
  }
  #[kani::unwind(10)]
  fn t13_glev_ggsw() {
    let (k, n, l) = (size(1, &[1, 2, 3]), size(1, &[1, 2, 8]), size(2, &[1, 2, 4])); let g = gdef(k, n); let r = radix(4, l);
    let s = (k + 1) * n; let mut v = tv(s * l * (k + 1)); let base = v.as_ptr() as usize;
    { let c = ggsw(&v); walk!(c.rows(&g, &r), k + 1, s * l, |x: &GlevCiphertextRef<u64>| sz(x), base); for (i, row) in c.rows(&g, &r).enumerate() { walk!(row.glwe_ciphertexts(&g), l, s, |x: &GlweCiphertextRef<u64>| sz(x), base + i * s * l * 8); } }
    let c = ggsw_m(&mut v); walk!(c.rows_mut(&g, &r), k + 1, s * l, |x: &mut GlevCiphertextRef<u64>| sz(x), base);
    for (i, row) in c.rows_mut(&g, &r).enumerate() { walk!(row.glwe_ciphertexts_mut(&g), l, s, |x: &mut GlweCiphertextRef<u64>| sz(x), base + i * s * l * 8); }
  }
  #[kani::unwind(10)]
  fn t13_lwe_keyswitch_key() {
    let (f, n, l) = (size(2, &[1, 2, 9]), size(1, &[1, 3, 8]), size(2, &[1, 2, 4])); let to = ldef(n); let r = radix(4, l); let s = (n + 1) * l; let mut v = tv(s * f); let base = v.as_ptr() as usize;
    { let c = lksk(&v); walk!(c.rows(&to, &r), f, s, |x: &LevCiphertextRef<u64>| sz(x), base); for (i, row) in c.rows(&to, &r).enumerate() { walk!(row.lwe_ciphertexts(&to), l, n + 1, |x: &LweCiphertextRef<u64>| sz(x), base + i * s * 8); } }
    let c = lksk_m(&mut v); walk!(c.rows_mut(&to, &r), f, s, |x: &mut LevCiphertextRef<u64>| sz(x), base);
    for (i, row) in c.rows_mut(&to, &r).enumerate() { walk!(row.lwe_ciphertexts_mut(&to), l, n + 1, |x: &mut LweCiphertextRef<u64>| sz(x), base + i * s * 8); }
  }
  #[kani::unwind(20)]
  fn t13_key_sizes() {
    // every key type has exactly the size of its documented nesting, and its iterators partition it
    if !sampling() { return }
    let (f, k, n, l) = (1 + any_u8() as usize % 5, 1 + any_u8() as usize % 3, 1usize << (any_u8() % 5), 1 + any_u8() as usize % 4);
    let (d, g, r) = (ldef(f), gdef(k, n), radix(3, l));
    let glev = (k + 1) * n * l;
    macro_rules! key { ($key:expr, $it:ident, $itm:ident, ($($a:expr),*), $cnt:expr, $stride:expr, $item:ty) => {{
        let mut key = $key; let b = { let (p, len) = sz::<_>(&*key); assert!(len == $cnt * $stride, "key size"); p };
        walk!(key.$it($($a),*), $cnt, $stride, |x: &$item| sz(x), b);
        walk!(key.$itm($($a),*), $cnt, $stride, |x: &mut $item| sz(x), b);
    }} }
    key!(LweKeyswitchKey::<u64>::new(&d, &ldef(n), &r), rows, rows_mut, (&ldef(n), &r), f, (n + 1) * l, LevCiphertextRef<u64>);
    key!(GlweKeyswitchKey::<u64>::new(&g, &r), rows, rows_mut, (&g, &r), k, glev, GlevCiphertextRef<u64>);
    key!(GgswCiphertext::<u64>::new(&g, &r), rows, rows_mut, (&g, &r), k + 1, glev, GlevCiphertextRef<u64>);
    key!(GlevCiphertext::<u64>::new(&g, &r), glwe_ciphertexts, glwe_ciphertexts_mut, (&g), l, (k + 1) * n, GlweCiphertextRef<u64>);
    key!(BootstrapKey::<u64>::new(&d, &g, &r), rows, rows_mut, (&g, &r), f, glev * (k + 1), GgswCiphertextRef<u64>);
    key!(SchemeSwitchKey::<u64>::new(&g, &r), glev_ciphertexts, glev_ciphertexts_mut, (&g, &r), k * (k + 1) / 2, glev, GlevCiphertextRef<u64>);
    key!(AutomorphismKey::<u64>::new(&g, &r), keyswitch_keys, keyswitch_keys_mut, (&g, &r), n.ilog2() as usize, glev * k, GlweKeyswitchKeyRef<u64>);
    key!(PublicFunctionalKeyswitchKey::<u64>::new(&d, &g, &r), glevs, glevs_mut, (&g, &r), f, glev, GlevCiphertextRef<u64>);
    for cnt in 1..3 { key!(PrivateFunctionalKeyswitchKey::<u64>::new(&d, &g, &r, &PrivateFunctionalKeyswitchLweCount(cnt)), glevs, glevs_mut, (&g, &r), (f + 1) * cnt, glev, GlevCiphertextRef<u64>); }
    key!(CircuitBootstrappingKeyswitchKeys::<u64>::new(&d, &g, &r), keys, keys_mut, (&d, &g, &r), k + 1, (f + 1) * glev, PrivateFunctionalKeyswitchKeyRef<u64>);
    key!(LweCiphertextList::<u64>::new(&d, n), ciphertexts, ciphertexts_mut, (&d), n, f + 1, LweCiphertextRef<u64>);
    key!(GlweCiphertextList::<u64>::new(&g, f), ciphertexts, ciphertexts_mut, (&g), f, (k + 1) * n, GlweCiphertextRef<u64>);
    key!(PolynomialList::<u64>::new(PolynomialDegree(n), f), iter, iter_mut, (PolynomialDegree(n)), f, n, PolynomialRef<u64>);
  }
  fn t13_parallel() {
    // the parallel iterators visit the same blocks, each exactly once
    if !sampling() { return }
    use rayon::iter::{IndexedParallelIterator, ParallelIterator};
    let (f, k, n, l) = (1 + any_u8() as usize % 9, 1 + any_u8() as usize % 2, 1usize << (any_u8() % 3), 1 + any_u8() as usize % 3);
    let (d, g, r) = (ldef(f), gdef(k, n), radix(3, l));
    let glev = (k + 1) * n * l;
    let mut key = BootstrapKey::<u64>::new(&d, &g, &r); let b = sz(&*key).0;
    let got: Vec<_> = key.rows_par(&g, &r).map(|x| sz(x)).collect();
    assert!(got == (0..f).map(|i| (b + i * glev * (k + 1) * 8, glev * (k + 1))).collect::<Vec<_>>());
    let got: Vec<_> = key.rows_par_mut(&g, &r).enumerate().map(|(i, x)| (i, sz(x))).collect();
    assert!(got == (0..f).map(|i| (i, (b + i * glev * (k + 1) * 8, glev * (k + 1)))).collect::<Vec<_>>());
    let mut key = PrivateFunctionalKeyswitchKey::<u64>::new(&d, &g, &r, &PrivateFunctionalKeyswitchLweCount(1)); let b = sz(&*key).0;
    let got: Vec<_> = key.glevs_par(&g, &r).map(|x| sz(x)).collect();
    assert!(got == (0..f + 1).map(|i| (b + i * glev * 8, glev)).collect::<Vec<_>>());
    let got: Vec<_> = key.glevs_par_mut(&g, &r).map(|x| sz(x)).collect();
    assert!(got == (0..f + 1).map(|i| (b + i * glev * 8, glev)).collect::<Vec<_>>());
  }
}
