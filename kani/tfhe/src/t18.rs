use crate::common::*;
use ops::keyswitch as ks;
const D: &[usize] = &[1, 2, 3, 8, 16];
const N: &[usize] = &[1, 2, 4, 16, 32];
fn rdx(l: usize) -> RadixDecomposition { if sampling() { let count = 1 + any_usize() % 4; radix(1 + any_usize() % (63 / count).min(20), count) } else { radix(8, l) } }
harnesses! {
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, dirty_scratch)]
  fn t18_lwe() {
    // output = (0, b) - sum_i sum_j digit_j(a_i) * ksk_ij, whatever the key and the old output contain
    let (f, n) = (size(1, D), size(1, D)); let r = rdx(1); let l = r.count.0; let (from, to) = (ldef(f), ldef(n));
    let ct = tv(f + 1); let key = tv(f * l * (n + 1)); let mut out = tv(n + 1);
    ks::lwe_keyswitch::keyswitch_lwe_to_lwe(lwe_m(&mut out), lwe(&ct), lksk(&key), &from, &to, &r);
    for c in 0..=n {
      let mut w = if c == n { ct[f].inner() } else { 0 };
      for i in 0..f { let d = digits(ct[i], &r); for j in 0..l { w = w.wrapping_sub(d[j].wrapping_mul(key[(i * l + j) * (n + 1) + c].inner())); } }
      assert!(out[c].inner() == w, "gadget sum");
    }
  }
  fn t18_glwe() {
    if !sampling() { return }
    let (k, n) = (size(1, &[1, 2, 3]), size(2, N)); let r = rdx(1); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n;
    let ct = tv(s); let key = tv(k * l * s); let mut out = tv(s);
    ks::glwe_keyswitch::keyswitch_glwe_to_glwe(glwe_m(&mut out), glwe(&ct), gksk(&key), &g, &r);
    let mut acc = vec![0u64; s]; for i in 0..k { gadget(&mut acc, slice_of(n, &ct, i), slice_of(l * s, &key, i), k, n, &r); }
    for c in 0..s { let b = if c >= k * n { ct[c].inner() } else { 0 }; assert!(out[c].inner() == b.wrapping_sub(acc[c]), "gadget sum"); }
  }
  fn t18_private_functional() {
    if !sampling() { return }
    let (f, k, n) = (size(1, D), size(1, &[1, 2]), size(2, N)); let r = rdx(1); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n; let p = 1 + any_usize() % 3; let from = ldef(f);
    let cts: Vec<Vec<T>> = (0..p).map(|_| tv(f + 1)).collect(); let refs: Vec<_> = cts.iter().map(|c| lwe(c)).collect(); let raw = tv(p * (f + 1) * l * s); let mut out = tv(s);
    let key: &PrivateFunctionalKeyswitchKeyRef<u64> = vh::FromSlice::from_slice(&raw[..]);
    ks::private_functional_keyswitch::private_functional_keyswitch(glwe_m(&mut out), &refs, key, &from, &g, &r, &PrivateFunctionalKeyswitchLweCount(p));
    for c in 0..s { let mut w = 0u64; for z in 0..p { for i in 0..=f { let d = digits(cts[z][i], &r); for j in 0..l { w = w.wrapping_sub(d[j].wrapping_mul(raw[((z * (f + 1) + i) * l + j) * s + c].inner())); } } } assert!(out[c].inner() == w, "minus the gadget sum"); }
  }
  fn t18_public_functional() {
    // FFT arithmetic inside: compared through decryption under noise-free keys
    if !sampling() { return }
    let (f, k, n) = (size(1, &[1, 2, 4]), size(1, &[1, 2]), size(16, &[16, 32])); let r = radix(8, 4); let g = gdef(k, n); let from = ldef(f); let s = (k + 1) * n;
    let p = 1 + any_usize() % 3; let from_sk = bits(f); let sk = bits(k * n);
    let cts: Vec<Vec<T>> = (0..p).map(|_| tv(f + 1)).collect(); let refs: Vec<_> = cts.iter().map(|c| lwe(c)).collect();
    let mut key = PublicFunctionalKeyswitchKey::<u64>::new(&from, &g, &r);
    ks::public_functional_keyswitch::generate_public_functional_keyswitch_key(&mut key, lwe_sk(&from_sk), glwe_sk(&sk), &from, &g, &r);
    let mut out = tv(s);
    // packs value j into coefficient 2j mod n and leaves the rest untouched (documented to start at zero)
    ks::public_functional_keyswitch::public_functional_keyswitch(glwe_m(&mut out), &refs, &key, |o, x| for (j, v) in x.iter().enumerate() { let c = o.coeffs()[2 * j] + *v; o.coeffs_mut()[2 * j] = c; }, &from, &g, &r);
    for i in 0..n { let want = if i % 2 == 0 && i / 2 < p { lwe_phase(&cts[i / 2], &from_sk) } else { 0 }; assert!(tdist(glwe_phase(&out, &sk, k, n, i).wrapping_sub(want)) < 1 << 48, "phase is the mapped phase"); }
  }
  fn t18_lwe_key() {
    if !sampling() { return }
    let (f, n) = (size(1, D), size(1, D)); let r = rdx(1); let l = r.count.0; let mut key = tv(f * l * (n + 1)); let (a, b) = (uv(f), bits(n));
    ks::lwe_keyswitch_key::generate_keyswitch_key_lwe(lksk_m(&mut key), lwe_sk(&a), lwe_sk(&b), &ldef(f), &ldef(n), &r);
    for i in 0..f { for j in 0..l { assert!(lwe_phase(slice_of(n + 1, &key, i * l + j), &b) == a[i].wrapping_mul(1u64.wrapping_shl(64 - (r.radix_log.0 * (j + 1)) as u32)), "row encrypts s_i q / B^(j+1)"); } }
  }
  fn t18_glwe_key() {
    if !sampling() { return }
    let (k, n) = (size(1, &[1, 2, 3]), size(2, N)); let r = rdx(1); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n; let mut key = tv(k * l * s); let (a, b) = (uv(k * n), bits(k * n));
    ks::glwe_keyswitch_key::generate_keyswitch_key_glwe(gksk_m(&mut key), glwe_sk(&a), glwe_sk(&b), &g, &r);
    for i in 0..k { for j in 0..l { for c in 0..n { assert!(glwe_phase(slice_of(s, &key, i * l + j), &b, k, n, c) == a[i * n + c].wrapping_mul(1u64 << (64 - r.radix_log.0 * (j + 1))), "row encrypts s_i q / B^(j+1)"); } } }
  }
  fn t18_private_functional_key() {
    if !sampling() { return }
    let (f, k, n) = (size(1, &[1, 3, 5]), size(1, &[1, 2]), size(2, &[1, 2, 8])); let r = rdx(1); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n; let p = 1 + any_usize() % 3; let from = ldef(f);
    let (a, sk) = (uv(f), bits(k * n)); let mut raw = tv(p * (f + 1) * l * s);
    let mult = uv(p);
    { let key: &mut PrivateFunctionalKeyswitchKeyRef<u64> = vh::FromMutSlice::from_mut_slice(&mut raw[..]);
      // writes only coefficient 0 (the output is documented to start at zero) and combines all arguments
      ks::private_functional_keyswitch::generate_private_functional_keyswitch_key(key, lwe_sk(&a), glwe_sk(&sk), |o, x| { assert!(x.len() == p); let mut w = o.coeffs()[0]; for z in 0..p { w = t(w.inner().wrapping_add(x[z].inner().wrapping_mul(mult[z]))); } o.coeffs_mut()[0] = w; }, &from, &g, &r, &PrivateFunctionalKeyswitchLweCount(p)); }
    for z in 0..p { for i in 0..=f { for j in 0..l { for c in 0..n { let si = if i < f { a[i] } else { u64::MAX }; let want = if c == 0 { si.wrapping_mul(1u64 << (64 - r.radix_log.0 * (j + 1))).wrapping_mul(mult[z]) } else { 0 };
      assert!(glwe_phase(slice_of(s, &raw, (z * (f + 1) + i) * l + j), &sk, k, n, c) == want, "row encrypts map(0,..,s_i q / B^(j+1),..,0)"); } } } }
  }
  fn t18_circuit_bootstrap_keys() {
    if !sampling() { return }
    let (f, k, n) = (size(1, &[1, 3]), size(1, &[1, 2, 3]), size(2, &[1, 2, 8])); let r = rdx(1); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n; let from = ldef(f);
    let (a, sk) = (bits(f), bits(k * n)); let mut raw = tv((k + 1) * (f + 1) * l * s);
    { let key: &mut CircuitBootstrappingKeyswitchKeysRef<u64> = vh::FromMutSlice::from_mut_slice(&mut raw[..]); ks::private_functional_keyswitch::generate_circuit_bootstrapping_pfks_keys(key, lwe_sk(&a), glwe_sk(&sk), &from, &g, &r); }
    for q in 0..=k { for i in 0..=f { for j in 0..l { for c in 0..n { let si = if i < f { a[i] } else { u64::MAX }; let m = si.wrapping_mul(1u64 << (64 - r.radix_log.0 * (j + 1)));
      let want = if q < k { m.wrapping_mul(sk[q * n + c]).wrapping_neg() } else if c == 0 { m } else { 0 };
      assert!(glwe_phase(slice_of(s, &raw, ((q * (f + 1) + i) * l) + j), &sk, k, n, c) == want, "key q multiplies by -s_q, the last one is the identity"); } } } }
  }
}
