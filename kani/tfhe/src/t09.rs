use crate::common::*;
use sunscreen_tfhe::ops::ciphertext::sample_extract;
const L: &[usize] = &[1, 2, 4, 8, 64, 256];
fn run(k: usize, n: usize) {
    let g = tv((k + 1) * n); let mut out = tv(k * n + 1);
    let h = if sampling() { any_usize() % n } else { let h = any_usize(); assume(h < n); h };
    sample_extract(lwe_m(&mut out), glwe(&g), h, &gdef(k, n));
    for i in 0..k { for j in 0..n {
        let want = if j <= h { g[i * n + h - j].inner() } else { g[i * n + h + n - j].inner().wrapping_neg() };
        assert!(out[i * n + j].inner() == want, "mask component");
    } }
    assert!(out[k * n] == g[k * n + h], "body is coefficient h");
}
harnesses! {
  #[kani::unwind(8)]
  fn t09_layout() { run(size(1, &[1, 2, 3]), size(4, L)) }
  #[kani::unwind(8)]
  fn t09_layout_k2() { run(size(2, &[1, 2, 3]), size(2, L)) }
  #[kani::unwind(20)]
  fn t09_phase() {
    // extracting coefficient h gives an LWE ciphertext whose phase under the flattened key is coefficient h of the GLWE phase
    let (k, n) = (size(1, &[1, 2, 3]), size(2, &[1, 2, 4, 16, 64]));
    let g = tv((k + 1) * n); let sk = bits(k * n); let mut out = tv(k * n + 1);
    let h = any_usize() % n; let p = gdef(k, n);
    sample_extract(lwe_m(&mut out), glwe(&g), h, &p);
    let flat = glwe_sk(&sk).to_lwe_secret_key();
    assert!(flat.decrypt_without_decode(lwe(&out), &p.as_lwe_def()).inner() == glwe_phase(&g, &sk, k, n, h));
  }
}
