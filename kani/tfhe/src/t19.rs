use crate::common::*;
use ops::encryption as oe;
const N: &[usize] = &[1, 2, 4, 16, 32];
fn rdx() -> RadixDecomposition { let count = 1 + any_usize() % 4; radix(1 + any_usize() % (63 / count).min(20), count) }
fn gf(r: &RadixDecomposition, j: usize) -> u64 { 1u64 << (64 - r.radix_log.0 * (j + 1)) }
harnesses! {
  #[kani::unwind(6)]
  fn t19_gadget_factor() {
    let n = size(2, N); let m = tv(n); let mut o = tv(n); let l = 1 + any_usize() % 63; let j = any_usize() % 64; assume(l * (j + 1) <= 64);
    oe::scale_msg_by_gadget_factor(prm(&mut o), pr(&m), l, j);
    for i in 0..n { assert!(o[i].inner() == m[i].inner() << (64 - l * (j + 1)), "msg * q / B^(j+1)"); }
  }
  fn t19_glev() {
    if !sampling() { return }
    let (k, n) = (size(1, &[1, 2, 3]), size(2, N)); let r = rdx(); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n; let sk = bits(k * n); let m = tv(n);
    let mut c = tv(l * s); oe::encrypt_secret_glev_ciphertext(glev_m(&mut c), pr(&m), glwe_sk(&sk), &g, &r);
    for j in 0..l { for i in 0..n { assert!(glwe_phase(slice_of(s, &c, j), &sk, k, n, i) == m[i].inner().wrapping_mul(gf(&r, j)), "row j encrypts msg q / B^(j+1)"); } }
    let mut c = tv(l * s); oe::trivially_encrypt_glev_ciphertext(glev_m(&mut c), pr(&m), &g, &r);
    for j in 0..l { for x in 0..s { let want = if x < k * n { 0 } else { m[x - k * n].inner().wrapping_mul(gf(&r, j)) }; assert!(c[j * s + x].inner() == want, "trivial row"); } }
    // decryption of a message that fits one digit
    if r.radix_log.0 < 64 { let small: Vec<T> = m.iter().map(|x| t(x.inner() & ((1u64 << r.radix_log.0) - 1))).collect();
      let mut c = tv(l * s); oe::encrypt_secret_glev_ciphertext(glev_m(&mut c), pr(&small), glwe_sk(&sk), &g, &r); let mut d = tv(n);
      oe::decrypt_glev_ciphertext(prm(&mut d), glev(&c), glwe_sk(&sk), &g, &r); assert!(d == small, "decrypts to the message"); }
  }
  fn t19_rlev() {
    if !sampling() { return }
    let n = size(2, N); let r = rdx(); let l = r.count.0; let g = gdef(1, n); let sk = bits(n); let m = tv(n);
    let mut pk = RlwePublicKey::<u64>::new(&g); oe::rlwe_generate_public_key(&mut pk, glwe_sk(&sk), &g);
    let mut c = tv(l * 2 * n); oe::encrypt_rlev_ciphertext(glev_m(&mut c), pr(&m), &pk, &g, &r);
    for j in 0..l { for i in 0..n { assert!(glwe_phase(slice_of(2 * n, &c, j), &sk, 1, n, i) == m[i].inner().wrapping_mul(gf(&r, j)), "row j encrypts msg q / B^(j+1)"); } }
  }
  fn t19_ggsw() {
    if !sampling() { return }
    let (k, n) = (size(1, &[1, 2, 3]), size(2, &[1, 2, 4, 16])); let r = rdx(); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n; let sk = bits(k * n); let b = any_u8() as u32 % 16;
    let m: Vec<u64> = uv(n).into_iter().map(|x| x & ((1u64 << b) - 1)).collect(); let mt: Vec<T> = m.iter().map(|x| t(*x)).collect();
    let mut c = tv((k + 1) * l * s); oe::encrypt_ggsw_ciphertext(ggsw_m(&mut c), pr(&m), glwe_sk(&sk), &g, &r, PlaintextBits(b));
    let msg = |row: usize, i: usize, m: &[T]| if row < k { neg_conv(m, &sk[row * n..(row + 1) * n], i).wrapping_neg() } else { m[i].inner() };
    for row in 0..=k { for j in 0..l { for i in 0..n { assert!(glwe_phase(slice_of(s, &c, row * l + j), &sk, k, n, i) == msg(row, i, &mt).wrapping_mul(gf(&r, j)), "row i encrypts -m s_i, the last row m"); } } }
    let mut d = tv(n); if b as usize <= r.radix_log.0 { oe::decrypt_ggsw_ciphertext(prm(&mut d), ggsw(&c), glwe_sk(&sk), &g, &r); assert!(d == mt, "decrypts to the message"); }
    let mut c = tv((k + 1) * l * s); let x = any_u64() & ((1u64 << b) - 1); oe::encrypt_ggsw_ciphertext_scalar(ggsw_m(&mut c), x, glwe_sk(&sk), &g, &r, PlaintextBits(b));
    let mut mt = vec![t(0); n]; mt[0] = t(x);
    for row in 0..=k { for j in 0..l { for i in 0..n { assert!(glwe_phase(slice_of(s, &c, row * l + j), &sk, k, n, i) == msg(row, i, &mt).wrapping_mul(gf(&r, j)), "scalar ggsw"); } } }
    let mut c = tv((k + 1) * l * s); oe::trivially_encrypt_ggsw_ciphertext(ggsw_m(&mut c), pr(&m), &g, &r, PlaintextBits(b));
    for row in 0..=k { for j in 0..l { for y in 0..s { let want = if row == k && y >= k * n { m[y - k * n].wrapping_mul(gf(&r, j)) } else { 0 }; assert!(c[(row * l + j) * s + y].inner() == want, "trivial ggsw"); } } }
  }
  fn t19_bootstrap_key() {
    if !sampling() { return }
    let (f, k, n) = (size(1, &[1, 3, 7]), size(1, &[1, 2]), size(2, &[1, 2, 8])); let r = rdx(); let l = r.count.0; let g = gdef(k, n); let s = (k + 1) * n; let (a, sk) = (bits(f), bits(k * n));
    let mut raw = tv(f * (k + 1) * l * s); { let key: &mut BootstrapKeyRef<u64> = vh::FromMutSlice::from_mut_slice(&mut raw[..]); ops::bootstrapping::generate_bootstrap_key(key, lwe_sk(&a), glwe_sk(&sk), &ldef(f), &g, &r); }
    for q in 0..f { let mut mt = vec![t(0); n]; mt[0] = t(a[q]); for row in 0..=k { for j in 0..l { for i in 0..n { let want = if row < k { neg_conv(&mt, &sk[row * n..(row + 1) * n], i).wrapping_neg() } else { mt[i].inner() };
      assert!(glwe_phase(slice_of(s, &raw, (q * (k + 1) + row) * l + j), &sk, k, n, i) == want.wrapping_mul(gf(&r, j)), "ggsw q encrypts key bit q"); } } } }
  }
}
