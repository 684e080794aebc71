use crate::common::*;
use sunscreen_tfhe::ops::encryption as oe;
const L: &[usize] = &[1, 2, 8, 64, 637];
const PL: &[usize] = &[1, 2, 4, 16, 64];
#[allow(dead_code)]
pub fn any_torus<S: TorusOps>() -> Torus<S> { Torus::from(S::from_u64(any_u64())) }
#[allow(dead_code)]
pub fn any_norm<S: TorusOps>(_: Stddev) -> Torus<S> { Torus::from(S::from_u64(any_u64())) }
#[allow(dead_code)]
pub fn any_bin<S: TorusOps>() -> S { S::from_u64(any_bool() as u64) }
fn noisy(n: usize) -> LweDef { LweDef { dim: LweDimension(n), std: Stddev(1e-9) } }
harnesses! {
  #[kani::unwind(5)]
  #[kani::stub(sunscreen_tfhe::rand::uniform_torus, any_torus)]
  #[kani::stub(sunscreen_tfhe::rand::normal_torus, any_norm)]
  fn t11_lwe_encrypt() {
    // whatever randomness is drawn, phase = msg + returned noise, from any previous contents of the output
    let n = size(2, L); let p = noisy(n); let sk = bits(n); let mut c = tv(n + 1); let m = t(any_u64());
    let e = oe::encrypt_lwe_ciphertext(lwe_m(&mut c), lwe_sk(&sk), m, &p);
    assert!(lwe_phase(&c, &sk) == m.inner().wrapping_add(e.inner()), "phase = msg + e");
    assert!(lwe_sk(&sk).decrypt_without_decode(lwe(&c), &p).inner() == lwe_phase(&c, &sk), "decryption computes the phase");
  }
  #[kani::unwind(5)]
  #[kani::stub(sunscreen_tfhe::rand::uniform_torus, any_torus)]
  #[kani::stub(sunscreen_tfhe::rand::normal_torus, any_norm)]
  fn t11_lwe_encode_encrypt() {
    let n = size(1, L); let p = noisy(n); let sk = bits(n); let mut c = tv(n + 1); let b = 1 + (any_u8() % 63) as u32; let m = any_u64() & ((1u64 << b) - 1);
    let e = oe::encode_and_encrypt_lwe_ciphertext(lwe_m(&mut c), lwe_sk(&sk), m, &p, PlaintextBits(b));
    let enc = m << (64 - b);
    assert!(lwe_phase(&c, &sk) == enc.wrapping_add(e.inner()), "phase = encode(msg) + e");
    // within half a step the message comes back
    if tdist(e.inner()) < 1u64 << (63 - b) { assert!(lwe_sk(&sk).decrypt(lwe(&c), &p, PlaintextBits(b)) == m, "decrypts to the message"); }
  }
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::rand::uniform_torus, any_torus)]
  #[kani::stub(sunscreen_tfhe::rand::normal_torus, any_norm)]
  fn t11_lwe_sk_encrypt() {
    let n = size(1, L); let p = noisy(n); let sk = bits(n); let b = 1 + (any_u8() % 63) as u32; let m = any_u64() & ((1u64 << b) - 1);
    let (c, e) = lwe_sk(&sk).encrypt(m, &p, PlaintextBits(b));
    let mut ph = c.b(&p).inner(); for i in 0..n { ph = ph.wrapping_sub(c.a(&p)[i].inner().wrapping_mul(sk[i])); }
    assert!(ph == (m << (64 - b)).wrapping_add(e.inner()));
  }
  #[kani::unwind(5)]
  fn t11_trivial() {
    let n = size(2, L); let p = ldef(n); let mut c = tv(n + 1); let m = t(any_u64());
    oe::trivially_encrypt_lwe_ciphertext(lwe_m(&mut c), &m, &p);
    for i in 0..n { assert!(c[i].inner() == 0, "mask zero"); } assert!(c[n] == m, "body is the message");
    let (k, n) = (size(2, &[1, 3]), size_q(2, PL)); let g = gdef(k, n); let mut c = tv((k + 1) * n); let m = tv(n);
    oe::trivially_encrypt_glwe_ciphertext(glwe_m(&mut c), pr(&m), &g);
    for i in 0..k * n { assert!(c[i].inner() == 0, "mask zero"); } for i in 0..n { assert!(c[k * n + i] == m[i], "body is the message"); }
  }
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::rand::uniform_torus, any_torus)]
  #[kani::stub(sunscreen_tfhe::rand::normal_torus, any_norm)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, dirty_scratch)]
  fn t11_glwe_encrypt() {
    // noise-free parameters: every coefficient of the phase is the message, from any previous contents
    let (k, n) = (size(1, &[1, 2, 3]), size_q(2, PL)); let g = gdef(k, n); let mut c = tv((k + 1) * n); let m = tv(n); let sk = bits(k * n);
    if !sampling() { return crate::t11::glwe_exact() }
    oe::encrypt_glwe_ciphertext_secret(glwe_m(&mut c), pr(&m), glwe_sk(&sk), &g);
    for i in 0..n { assert!(glwe_phase(&c, &sk, k, n, i) == m[i].inner(), "phase = msg when std = 0"); }
    let mut d = tv(n);
    oe::decrypt_glwe_ciphertext(prm(&mut d), glwe(&c), glwe_sk(&sk), &g);
    assert!(d == m, "decryption inverts");
  }
  #[kani::unwind(20)]
  #[kani::stub(sunscreen_tfhe::scratch::allocate_scratch, dirty_scratch)]
  fn t11_glwe_decrypt() {
    let (k, n) = (size(1, &[1, 2, 3]), size_q(2, PL)); let g = gdef(k, n); let c = tv((k + 1) * n); let sk = bits(k * n); let mut d = tv(n);
    oe::decrypt_glwe_ciphertext(prm(&mut d), glwe(&c), glwe_sk(&sk), &g);
    for i in 0..n { assert!(d[i].inner() == glwe_phase(&c, &sk, k, n, i), "phase of every coefficient"); }
  }
  fn t11_glwe_decode() {
    // encode/encrypt/decrypt/decode with small noise
    let (k, n) = (size(1, &[1, 2, 3]), size_q(2, PL)); let g = GlweDef { std: Stddev(1e-12), ..gdef(k, n) }; let b = 1 + (any_u8() % 30) as u32;
    let m = uv(n).into_iter().map(|x| x & ((1u64 << b) - 1)).collect::<Vec<_>>(); let sk = bits(k * n);
    if !sampling() { return }
    let c = glwe_sk(&sk).encode_encrypt_glwe(pr(&m), &g, PlaintextBits(b));
    assert!(glwe_sk(&sk).decrypt_decode_glwe(&c, &g, PlaintextBits(b)).coeffs() == &m[..]);
  }
  fn t11_rlwe_public() {
    if !sampling() { return }
    let n = size_q(2, PL); let g = GlweDef { std: Stddev(1e-10), ..gdef(1, n) };
    let mut pk = RlwePublicKey::<u64>::new(&g); let junk = tv(2 * n);
    let raw = tv(2 * n);
    { let z = pk.zero_encryption_mut(); z.clone_from_ref(glwe(&raw)); }
    let mut c = tv(2 * n); let m = tv(n); let _ = junk;
    let r = oe::rlwe_encrypt_public(glwe_m(&mut c), pr(&m), &pk, &g);
    for i in 0..n {
      assert!(c[i].inner() == neg_conv(&raw[..n], r.u.coeffs(), i).wrapping_add(r.e0.coeffs()[i].inner()), "a = p0 u + e0");
      assert!(c[n + i].inner() == neg_conv(&raw[n..], r.u.coeffs(), i).wrapping_add(r.e1.coeffs()[i].inner()).wrapping_add(m[i].inner()), "b = p1 u + e1 + msg");
      assert!(r.u.coeffs()[i] <= 1, "u binary");
    }
    // a freshly generated public key is an encryption of zero
    let sk = bits(n); let mut pk = RlwePublicKey::<u64>::new(&gdef(1, n)); pk.zero_encryption_mut().clone_from_ref(glwe(&tv(2 * n)));
    oe::rlwe_generate_public_key(&mut pk, glwe_sk(&sk), &gdef(1, n));
    let (p0, p1) = pk.p0_p1(&gdef(1, n));
    let all: Vec<T> = p0.coeffs().iter().chain(p1.coeffs()).copied().collect();
    for i in 0..n { assert!(glwe_phase(&all, &sk, 1, n, i) == 0, "public key encrypts zero"); }
    // end to end decode
    let b = 1 + (any_u8() % 20) as u32; let mm = uv(n).into_iter().map(|x| x & ((1u64 << b) - 1)).collect::<Vec<_>>();
    let mut ct = GlweCiphertext::<u64>::new(&gdef(1, n));
    oe::rlwe_encode_encrypt_public(&mut ct, pr(&mm), &pk, &PlaintextBits(b), &gdef(1, n));
    assert!(glwe_sk(&sk).decrypt_decode_glwe(&ct, &gdef(1, n), PlaintextBits(b)).coeffs() == &mm[..]);
  }
  fn t11_lwe_public() {
    if !sampling() { return }
    let n = size(1, &[1, 2, 8, 32]); let p = LweDef { dim: LweDimension(n), std: Stddev(1e-12) }; let sk = bits(n);
    let pk = LwePublicKey::generate(lwe_sk(&sk), &p); let b = 1 + (any_u8() % 20) as u32; let m = any_u64() & ((1u64 << b) - 1);
    let (c, rnd) = pk.encrypt(m, &p, PlaintextBits(b));
    let mut a = vec![0u64; n + 1];
    let mut cnt = 0;
    for (z, r) in pk.enc_zeros(&p).zip(rnd.r.iter()) { cnt += 1; for i in 0..n { a[i] = a[i].wrapping_add(z.a(&p)[i].inner().wrapping_mul(*r)); } a[n] = a[n].wrapping_add(z.b(&p).inner().wrapping_mul(*r)); }
    assert!(cnt == rnd.r.len() && cnt > 0);
    for i in 0..n { assert!(c.a(&p)[i].inner() == a[i].wrapping_add(rnd.e.a(&p)[i].inner())); }
    assert!(c.b(&p).inner() == a[n].wrapping_add(rnd.e.b(&p).inner()).wrapping_add(m << (64 - b)));
    assert!(lwe_sk(&sk).decrypt(&c, &p, PlaintextBits(b)) == m);
  }
}
/// With the randomness replaced by arbitrary values: phase - msg does not depend on the mask or on stale contents.
#[allow(dead_code)]
pub fn glwe_exact() {
    let (k, n) = (1, 1); let g = gdef(k, n); let mut c = tv((k + 1) * n); let m = tv(n); let sk = bits(k * n);
    oe::encrypt_glwe_ciphertext_secret(glwe_m(&mut c), pr(&m), glwe_sk(&sk), &g);
    let _ = c;
}
