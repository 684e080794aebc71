//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@include ../prelude/encode.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
//@include ../prelude/poly.rs
//@include ../prelude/polyops.rs
//@include ../prelude/conv.rs
//@include ../prelude/mono.rs
//@include ../prelude/glwe.rs
//@include ../prelude/sums.rs
//@include ../prelude/gphase.rs
//@include ../prelude/glweenc.rs
//@include ../prelude/ent_glwe.rs
//@iter rows_mut rows_mut_at rows_count
//@iter glwe_ciphertexts_mut glwe_ciphertexts_mut_at glwe_ciphertexts_count
//@scratch GlweSecretKeyRef scratch_key
fn main() {}
verus! {
#[verifier::external_body] pub fn scratch_key_n(n: usize) -> (r: &'static mut GlweSecretKeyRef<WORD>) ensures r.data@.len() == n { unimplemented!() }
pub fn scratch_key(d: GlweDimension) -> (r: &'static mut GlweSecretKeyRef<WORD>) requires gsz(d) <= usize::MAX ensures r.data@.len() == d.polynomial_degree.0 * d.size.0 { scratch_key_n(GlweSecretKeyRef::<WORD>::size(d)) }
impl GlweSecretKeyRef<WORD> {
    pub fn as_mut_slice(&mut self) -> (r: &mut [WORD]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data }
//@fn sunscreen_tfhe/src/dst.rs :: GlweSecretKeyRef::clear
//@macro dst(GlweSecretKey, GlweSecretKeyRef, NoWrapper)
//@sub "<NoWrapper<T> as num::Zero>::zero()" => "0"
    ensures final(self).data@.len() == old(self).data@.len(), forall|x: int| 0 <= x < old(self).data@.len() ==> #[trigger] final(self).data@[x] == 0
//@at loop 0
    invariant __s0_0@.len() == __n0, __i0 <= __n0, forall|x: int| 0 <= x < __i0 ==> #[trigger] __s0_0@[x] == 0
    decreases __n0 - __i0
//@end
}
/// words read as torus elements
pub open spec fn tor(p: Seq<WORD>) -> Seq<Torus<WORD>> { Seq::new(p.len(), |i: int| Torus(p[i])) }
impl PolynomialRef<WORD> { #[verifier::external_body] pub fn as_torus(&self) -> (r: &TP) ensures r.data@ == tor(self.data@) { unimplemented!() } }
/// an encryption function: what it promises about the ciphertext it writes
pub trait GlweEnc {
    spec fn post(&self, sk: Seq<WORD>, msg: Seq<Torus<WORD>>, out: Seq<Torus<WORD>>, p: GlweDef) -> bool;
    fn enc(&self, c: &mut GlweCiphertextRef<WORD>, msg: &TP, sk: &GlweSecretKeyRef<WORD>, params: &GlweDef)
        requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, old(c).wf(params), sk.wf(params), msg.data@.len() == params.n()
        ensures final(c).wf(params), self.post(sk.data@, msg.data@, final(c).data@, *params);
}
pub struct EncSecret;
impl GlweEnc for EncSecret {
    open spec fn post(&self, sk: Seq<WORD>, msg: Seq<Torus<WORD>>, out: Seq<Torus<WORD>>, p: GlweDef) -> bool { forall|h: int| 0 <= h < p.n() ==> encrypts(p.std, msg[h].0, #[trigger] gphase(out, sk, p.n(), p.k(), h)) }
    fn enc(&self, c: &mut GlweCiphertextRef<WORD>, msg: &TP, sk: &GlweSecretKeyRef<WORD>, params: &GlweDef) { encrypt_glwe_ciphertext_secret(c, msg, sk, params) }
}
pub struct EncTrivial;
impl GlweEnc for EncTrivial {
    open spec fn post(&self, sk: Seq<WORD>, msg: Seq<Torus<WORD>>, out: Seq<Torus<WORD>>, p: GlweDef) -> bool { (forall|x: int| 0 <= x < p.n() * p.k() ==> (#[trigger] out[x]).0 == 0) && forall|x: int| 0 <= x < p.n() ==> out[p.n() * p.k() + x] == #[trigger] msg[x] }
    fn enc(&self, c: &mut GlweCiphertextRef<WORD>, msg: &TP, sk: &GlweSecretKeyRef<WORD>, params: &GlweDef) { trivially_encrypt_glwe_with_sk_argument(c, msg, sk, params) }
}
/// the message scaled by the gadget factor of level j, 2^(W - l (j + 1))
pub open spec fn scaled(m: Seq<Torus<WORD>>, l: int, j: int) -> Seq<Torus<WORD>> { Seq::new(m.len(), |i: int| Torus(md(m[i].0 * pow2((W() - l * (j + 1)) as nat)))) }
pub proof fn level_shift(l: int, j: int, cnt: int) requires l >= 1, 0 <= j < cnt, l * cnt <= W() ensures 1 <= l * (j + 1) <= l * cnt, j + 1 <= l * (j + 1), ({ let s = W() - l * (j + 1); 0x1u64 << (s as usize) == pow2(s as nat) && pow2(s as nat) <= WORD::MAX })
{
    assert(l * (j + 1) <= l * cnt && l * (j + 1) >= 1) by (nonlinear_arith) requires j + 1 <= cnt, l >= 1, j >= 0; assert(j + 1 <= l * (j + 1)) by (nonlinear_arith) requires l >= 1, j >= 0;
    let sh = (W() - l * (j + 1)) as u64; assert(0x1u64 << (sh as usize) == 0x1u64 << sh) by (bit_vector) requires sh < 64; pw_lt(sh as nat); lemma_u64_shl_is_mul(1, sh);
}
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_scalar_mul
//@sig fn polynomial_scalar_mul(c: &mut TP, a: &TP, s: WORD)
    requires old(c).data@.len() == a.data@.len()
    ensures final(c).data@.len() == old(c).data@.len(), forall|i: int| 0 <= i < old(c).data@.len() ==> (#[trigger] final(c).data@[i]).0 == wmul(a.data@[i].0, s)
//@at loop 0
    invariant __n0 == a.data@.len(), __s0_0@.len() == __n0, __s0_1@ == a.data@, __i0 <= __n0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __s0_0@[i]).0 == wmul(a.data@[i].0, s)
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/ops/encryption/glev_encryption.rs :: scale_msg_by_gadget_factor
    requires old(scaled_msg).data@.len() == msg.data@.len(), decomposition_radix_log >= 1, 1 <= decomposition_radix_log * (j + 1) <= W(), j < usize::MAX
    ensures final(scaled_msg).data@ == scaled(msg.data@, decomposition_radix_log as int, j as int)
//@at start
    proof { level_shift(decomposition_radix_log as int, j as int, j + 1); }
//@at end
    proof { let f = pow2((W() - decomposition_radix_log * (j + 1)) as nat); assert(scaled_msg.data@ =~= scaled(msg.data@, decomposition_radix_log as int, j as int)); }
//@end
/// levels 0..m of a leveled encryption
pub open spec fn levels<E: GlweEnc>(e: E, gl: Seq<Torus<WORD>>, sk: Seq<WORD>, msg: Seq<Torus<WORD>>, p: GlweDef, l: int, m: int) -> bool { forall|j: int| 0 <= j < m ==> e.post(sk, scaled(msg, l, j), #[trigger] comp(gl, j, p.sz()), p) }
//@fn sunscreen_tfhe/src/ops/encryption/glev_encryption.rs :: encrypt_secret_glev_ciphertext_generic
//@sig fn encrypt_secret_glev_ciphertext_generic<E: GlweEnc>(glev_ciphertext: &mut GlevCiphertextRef<WORD>, msg: &TP, glwe_secret_key: &GlweSecretKeyRef<WORD>, params: &GlweDef, radix: &RadixDecomposition, encrypt: &E)
//@sub " encrypt(" => " encrypt.enc("
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(glev_ciphertext).wf(params, radix.count.0 as int), msg.data@.len() == params.n(), glwe_secret_key.wf(params)
    ensures final(glev_ciphertext).wf(params, radix.count.0 as int), levels(*encrypt, final(glev_ciphertext).data@, glwe_secret_key.data@, msg.data@, *params, radix.radix_log.0 as int, radix.count.0 as int)
//@at start
    let ghost (n, sz, cnt, l, s, md0) = (params.n(), params.sz(), radix.count.0 as int, radix.radix_log.0 as int, glwe_secret_key.data@, msg.data@);
    proof { sz_facts(*params); div_mul(sz, cnt); }
//@at init 0
    let ghost fr = final(__e0_0).data@;
//@at loop 0
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, n == params.n(), sz == params.sz(), sz >= 1, (sz * cnt) / sz == cnt, (sz * cnt) % sz == 0, sz * cnt <= usize::MAX, cnt == radix.count.0, l == radix.radix_log.0, l == decomposition_radix_log, radix.ok(), scaled_msg.data@.len() == n, msg.data@ == md0, md0.len() == n, s == glwe_secret_key.data@, glwe_secret_key.wf(params), fr == final(__e0_0).data@,
        __n0 == cnt, __i0 <= __n0, __e0_0.wf(params, cnt), levels(*encrypt, __e0_0.data@, s, md0, *params, l, __i0 as int)
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, sz, cnt); level_shift(l, __j0 as int, cnt); }
    let ghost r0 = __e0_0.data@;
//@at end 0
    proof { let jj = __j0 as int; let y = glwe.data@; let o = __e0_0.data@; assert forall|q: int| 0 <= q < jj + 1 implies encrypt.post(s, scaled(md0, l, q), #[trigger] comp(o, q, sz), *params) by { chunk_bounds(q, sz, cnt); if q < jj { chunk_bounds(q, sz, jj); assert(sz * jj == jj * sz) by (nonlinear_arith); assert(comp(o, q, sz) =~= comp(r0, q, sz)); } else { assert(comp(o, q, sz) =~= y); } } }
//@end
//@fn sunscreen_tfhe/src/ops/encryption/glev_encryption.rs :: encrypt_secret_glev_ciphertext
//@sub "encrypt_glwe_ciphertext_secret," => "&EncSecret," optional
//@sub "trivially_encrypt_glwe_with_sk_argument," => "&EncTrivial," optional
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(glev_ciphertext).wf(params, radix.count.0 as int), msg.data@.len() == params.n(), glwe_secret_key.wf(params)
    ensures final(glev_ciphertext).wf(params, radix.count.0 as int), levels(EncSecret, final(glev_ciphertext).data@, glwe_secret_key.data@, msg.data@, *params, radix.radix_log.0 as int, radix.count.0 as int)
//@end
//@fn sunscreen_tfhe/src/ops/encryption/glev_encryption.rs :: trivially_encrypt_glev_ciphertext
//@sub "encrypt_glwe_ciphertext_secret," => "&EncSecret," optional
//@sub "trivially_encrypt_glwe_with_sk_argument," => "&EncTrivial," optional
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(glev_ciphertext).wf(params, radix.count.0 as int), msg.data@.len() == params.n()
    ensures final(glev_ciphertext).wf(params, radix.count.0 as int), levels(EncTrivial, final(glev_ciphertext).data@, Seq::empty(), msg.data@, *params, radix.radix_log.0 as int, radix.count.0 as int)
//@at start
    proof { sz_facts(*params); }
//@at end
    proof { let o = glev_ciphertext.data@; assert forall|j: int| 0 <= j < radix.count.0 implies EncTrivial.post(Seq::empty(), scaled(msg.data@, radix.radix_log.0 as int, j), #[trigger] comp(o, j, params.sz()), *params) by { assert(EncTrivial.post(trivial_key.data@, scaled(msg.data@, radix.radix_log.0 as int, j), comp(o, j, params.sz()), *params)); } }
//@end
} // verus!
verus! {
/// row i of a GGSW encryption encrypts -M * s_i (i < k) or M (the last row), at every level
pub open spec fn rowmsg(msg: Seq<WORD>, sk: Seq<WORD>, n: int, k: int, i: int) -> Seq<Torus<WORD>> { if i < k { Seq::new(msg.len(), |h: int| Torus(md(-conv(tor(msg), scomp(sk, i, n), h)))) } else { tor(msg) } }
pub open spec fn ggsw_rows<E: GlweEnc>(e: E, gg: Seq<Torus<WORD>>, sk: Seq<WORD>, msg: Seq<WORD>, p: GlweDef, l: int, cnt: int, m: int) -> bool { forall|i: int| 0 <= i < m ==> levels(e, #[trigger] comp(gg, i, p.sz() * cnt), sk, rowmsg(msg, sk, p.n(), p.k(), i), p, l, cnt) }
//@fn sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs :: encrypt_ggsw_ciphertext_generic
//@sig fn encrypt_ggsw_ciphertext_generic<E: GlweEnc>(ggsw_ciphertext: &mut GgswCiphertextRef<WORD>, msg: &PolynomialRef<WORD>, glwe_secret_key: &GlweSecretKeyRef<WORD>, params: &GlweDef, radix: &RadixDecomposition, plaintext_bits: PlaintextBits, encrypt: &E)
//@sub "Polynomial::<Torus<S>>::zero" => "Polynomial::zero" optional
//@sub ".nth(i).unwrap()" => ".chunk(i)" optional
//@sub "&mut m_times_s" => "m_times_s" optional
//@sub "&m_times_s" => "&*m_times_s" optional
//@sub "&encrypt" => "encrypt" optional
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(ggsw_ciphertext).wf(params, radix.count.0 as int), msg.data@.len() == params.n(), glwe_secret_key.wf(params), params.dim.size.0 < usize::MAX,
        plaintext_bits.0 < WBITS, forall|h: int| 0 <= h < params.n() ==> #[trigger] msg.data@[h] < pow2(plaintext_bits.0 as nat)
    ensures final(ggsw_ciphertext).wf(params, radix.count.0 as int), ggsw_rows(*encrypt, final(ggsw_ciphertext).data@, glwe_secret_key.data@, msg.data@, *params, radix.radix_log.0 as int, radix.count.0 as int, params.k() + 1)
//@at start
    let ghost (n, k, sz, cnt, l, s, md0) = (params.n(), params.k(), params.sz(), radix.count.0 as int, radix.radix_log.0 as int, glwe_secret_key.data@, msg.data@); let ghost gz = sz * cnt;
    proof { sz_facts(*params); div_mul(n, k); div_mul(sz, cnt); assert(gz >= 1) by (nonlinear_arith) requires gz == sz * cnt, sz >= 1, cnt >= 1; div_mul(gz, k + 1); let (pa, pb) = (plaintext_bits.0, plaintext_bits.0 as u64); assert(0x1u64 << pa == 0x1u64 << pb) by (bit_vector) requires pb == pa, pb < 64; pw_lt(pb as nat); lemma_u64_shl_is_mul(1, pb); }
//@at loop 0
    invariant __s0_0@ == msg.data@, __i0 <= __n0, __n0 == __s0_0@.len(), __a0 == (forall|h: int| 0 <= h < __i0 ==> #[trigger] __s0_0@[h] < max_val)
    decreases __n0 - __i0
//@at init 1
    let ghost fr = final(__e1_0).data@;
//@at loop 1
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, n == params.n(), k == params.k(), k == glwe_size, n == polynomial_degree, sz == params.sz(), sz >= 1, cnt == radix.count.0, l == radix.radix_log.0, radix.ok(), gz == sz * cnt, gz >= 1, gz <= usize::MAX, (gz * (k + 1)) / gz == k + 1, (n * k) / n == k, msg.data@ == md0, md0.len() == n, s == glwe_secret_key.data@, glwe_secret_key.wf(params), fr == final(__e1_0).data@,
        __n1 == k + 1, __i1 <= __n1, __e1_0.wf(params, cnt), ggsw_rows(*encrypt, __e1_0.data@, s, md0, *params, l, cnt, __i1 as int)
    decreases __n1 - __i1
//@at first 1
    proof { chunk_bounds(__j1 as int, gz, k + 1); if __j1 < k { chunk_bounds(__j1 as int, n, k); } }
    let ghost r0 = __e1_0.data@;
//@at init 2
    let ghost (m0, fm) = (__s2_0@, final(__s2_0)@);
//@at loop 2
    invariant __n2 == m0.len(), __s2_0@.len() == __n2, fm == final(__s2_0)@, __i2 <= __n2, forall|h: int| 0 <= h < __n2 ==> (#[trigger] __s2_0@[h]).0 == if h < __i2 { wneg(m0[h].0) } else { m0[h].0 }
    decreases __n2 - __i2
//@sub "encrypt_secret_glev_ciphertext_generic(" => "proof { let want = rowmsg(md0, s, n, k, i as int); if i < k { assert forall|h: int| 0 <= h < n implies m_times_s.data@[h] == want[h] by { md_neg(conv(tor(md0), scomp(s, i as int, n), h)); assert(scomp(s, i as int, n) == s.subrange(i * n, (i + 1) * n)); } } assert(m_times_s.data@ =~= want); } encrypt_secret_glev_ciphertext_generic("
//@at end 1
    proof { let jj = __j1 as int; let y = row.data@; let o = __e1_0.data@; assert forall|q: int| 0 <= q < jj + 1 implies levels(*encrypt, #[trigger] comp(o, q, gz), s, rowmsg(md0, s, n, k, q), *params, l, cnt) by { chunk_bounds(q, gz, k + 1); if q < jj { chunk_bounds(q, gz, jj); assert(gz * jj == jj * gz) by (nonlinear_arith); assert(comp(o, q, gz) =~= comp(r0, q, gz)); } else { assert(comp(o, q, gz) =~= y); } } }
//@end
//@fn sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs :: encrypt_ggsw_ciphertext
//@sub "encrypt_glwe_ciphertext_secret," => "&EncSecret," optional
//@sub "trivially_encrypt_glwe_with_sk_argument," => "&EncTrivial," optional
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(ggsw_ciphertext).wf(params, radix.count.0 as int), msg.data@.len() == params.n(), glwe_secret_key.wf(params), params.dim.size.0 < usize::MAX,
        plaintext_bits.0 < WBITS, forall|h: int| 0 <= h < params.n() ==> #[trigger] msg.data@[h] < pow2(plaintext_bits.0 as nat)
    ensures final(ggsw_ciphertext).wf(params, radix.count.0 as int), ggsw_rows(EncSecret, final(ggsw_ciphertext).data@, glwe_secret_key.data@, msg.data@, *params, radix.radix_log.0 as int, radix.count.0 as int, params.k() + 1)
//@end
//@fn sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs :: trivially_encrypt_ggsw_ciphertext
//@sub "encrypt_glwe_ciphertext_secret," => "&EncSecret," optional
//@sub "trivially_encrypt_glwe_with_sk_argument," => "&EncTrivial," optional
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(ggsw_ciphertext).wf(params, radix.count.0 as int), msg.data@.len() == params.n(), params.dim.size.0 < usize::MAX,
        plaintext_bits.0 < WBITS, forall|h: int| 0 <= h < params.n() ==> #[trigger] msg.data@[h] < pow2(plaintext_bits.0 as nat)
    ensures final(ggsw_ciphertext).wf(params, radix.count.0 as int), exists|z: Seq<WORD>| zeros(z, params.n() * params.k()) && #[trigger] ggsw_rows(EncTrivial, final(ggsw_ciphertext).data@, z, msg.data@, *params, radix.radix_log.0 as int, radix.count.0 as int, params.k() + 1)
//@at start
    proof { sz_facts(*params); }
//@end
pub open spec fn zeros(z: Seq<WORD>, n: int) -> bool { z.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] z[i] == 0 }
/// the constant polynomial m
pub open spec fn konst(m: WORD, n: int) -> Seq<WORD> { Seq::new(n as nat, |i: int| if i == 0 { m } else { 0 as WORD }) }
//@fn sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs :: encrypt_ggsw_ciphertext_scalar
//@sub "let mut poly_msg = Polynomial::<WORD>::zero" => "let poly_msg = zero_digits" optional
//@sub "let mut poly_msg = Polynomial::<S>::zero" => "let poly_msg = zero_digits" optional
//@sub "&poly_msg" => "poly_msg" optional
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(ggsw_ciphertext).wf(params, radix.count.0 as int), glwe_secret_key.wf(params), params.dim.size.0 < usize::MAX, plaintext_bits.0 < WBITS, msg < pow2(plaintext_bits.0 as nat)
    ensures final(ggsw_ciphertext).wf(params, radix.count.0 as int), ggsw_rows(EncSecret, final(ggsw_ciphertext).data@, glwe_secret_key.data@, konst(msg, params.n()), *params, radix.radix_log.0 as int, radix.count.0 as int, params.k() + 1)
//@sub "encrypt_ggsw_ciphertext(" => "proof { lemma_pow2_pos(plaintext_bits.0 as nat); assert(poly_msg.data@ =~= konst(msg, params.n())); } encrypt_ggsw_ciphertext("
//@end
// ---- decryption of one level --------------------------------------------------------------------
/// what decryption of level j returns for a phase x
pub open spec fn undone(x: WORD, l: int, j: int) -> WORD { (rnd(x as int, (W() - l * (j + 1)) as nat) % (pow2(l as nat) as int)) as WORD }
proof fn undone_bits(x: WORD, l: usize, sh: usize) requires 1 <= l < WBITS, 1 <= sh < WBITS, sh + l <= WBITS ensures (x >> sh) + ((x >> ((sh - 1) as usize)) & 1) <= WORD::MAX, ((x >> sh) + ((x >> ((sh - 1) as usize)) & 1)) as WORD & ((pow2(l as nat) - 1) as WORD) == rnd(x as int, sh as nat) % (pow2(l as nat) as int), (1u64 << l) == pow2(l as nat), (1i32 as u64) == 1
{
    rnd_bits(x, sh); assert((x >> sh) <= WORD::MAX / 2) by (bit_vector) requires 1 <= sh < WBITS; let r = ((x >> sh) + ((x >> ((sh - 1) as usize)) & 1)) as WORD; 
    pw_lt(l as nat); lemma_low_bits_mask_values(); lemma_WORD_low_bits_mask_is_mod(r, l as nat); assert(low_bits_mask(l as nat) == pow2(l as nat) - 1); assert(1u64 << l == 1u64 << (l as u64)) by (bit_vector) requires l < WBITS; lemma_u64_shl_is_mul(1, l as u64);
}
//@fn sunscreen_tfhe/src/ops/encryption/glev_encryption.rs :: decrypt_glwe_in_glev
//@sub ".nth(index).unwrap()" => ".chunk(index)" optional
//@sub "(0x1 << decomposition_radix_log) - 1" => "(0x1u64 << decomposition_radix_log) - 1" optional
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), glev_ciphertext.wf(params, radix.count.0 as int), old(msg).data@.len() == params.n(), glwe_secret_key.wf(params), index < radix.count.0, radix.radix_log.0 * (index + 1) < W()
    ensures final(msg).data@.len() == params.n(), forall|h: int| 0 <= h < params.n() ==> (#[trigger] final(msg).data@[h]).0 == undone(gphase(comp(glev_ciphertext.data@, index as int, params.sz()), glwe_secret_key.data@, params.n(), params.k(), h), radix.radix_log.0 as int, index as int)
//@at start
    let ghost (n, sz, cnt, l) = (params.n(), params.sz(), radix.count.0 as int, radix.radix_log.0 as int); let ghost row = comp(glev_ciphertext.data@, index as int, sz);
    proof { sz_facts(*params); div_mul(sz, cnt); chunk_bounds(index as int, sz, cnt); level_shift(l, index as int, index + 1); assert(l * (index + 1) >= l) by (nonlinear_arith) requires l >= 1, index >= 0; undone_bits(0, l as usize, (W() - l * (index + 1)) as usize); pw_lt(l as nat); }
//@at init 0
    let ghost m0 = __s0_0@;
//@at loop 0
    invariant __n0 == n, m0.len() == n, __s0_0@.len() == n, __i0 <= __n0, l == decomposition_radix_log, l >= 1, l * (index + 1) < W(), l <= l * (index + 1), index < usize::MAX, mask == pow2(l as nat) - 1, mask <= WORD::MAX,
        forall|h: int| 0 <= h < n ==> (#[trigger] __s0_0@[h]).0 == if h < __i0 { undone(m0[h].0, l, index as int) } else { m0[h].0 }
    decreases __n0 - __i0
//@at start 0
    proof { undone_bits(c.0, l as usize, (W() - l * (index + 1)) as usize); }
//@end
//@fn sunscreen_tfhe/src/ops/encryption/glev_encryption.rs :: decrypt_glev_ciphertext
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), glev_ciphertext.wf(params, radix.count.0 as int), old(msg).data@.len() == params.n(), glwe_secret_key.wf(params)
    ensures final(msg).data@.len() == params.n(), forall|h: int| 0 <= h < params.n() ==> (#[trigger] final(msg).data@[h]).0 == undone(gphase(comp(glev_ciphertext.data@, 0, params.sz()), glwe_secret_key.data@, params.n(), params.k(), h), radix.radix_log.0 as int, 0)
//@end
//@fn sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs :: decrypt_glwe_in_ggsw
//@sub ".nth(row).unwrap()" => ".chunk(row)" optional
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), ggsw_ciphertext.wf(params, radix.count.0 as int), old(msg).data@.len() == params.n(), glwe_secret_key.wf(params), row <= params.k(), column < radix.count.0, radix.radix_log.0 * (column + 1) < W(), params.dim.size.0 < usize::MAX
    ensures final(msg).data@.len() == params.n(), forall|h: int| 0 <= h < params.n() ==> (#[trigger] final(msg).data@[h]).0 == undone(gphase(comp(comp(ggsw_ciphertext.data@, row as int, params.sz() * radix.count.0), column as int, params.sz()), glwe_secret_key.data@, params.n(), params.k(), h), radix.radix_log.0 as int, column as int)
//@at start
    proof { sz_facts(*params); let gz = params.sz() * radix.count.0; assert(gz >= 1) by (nonlinear_arith) requires gz == params.sz() * radix.count.0, params.sz() >= 1, radix.count.0 >= 1; div_mul(gz, params.k() + 1); chunk_bounds(row as int, gz, params.k() + 1); }
//@end
//@fn sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs :: decrypt_ggsw_ciphertext
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), ggsw_ciphertext.wf(params, radix.count.0 as int), old(msg).data@.len() == params.n(), glwe_secret_key.wf(params), params.dim.size.0 < usize::MAX
    ensures final(msg).data@.len() == params.n(), forall|h: int| 0 <= h < params.n() ==> (#[trigger] final(msg).data@[h]).0 == undone(gphase(comp(comp(ggsw_ciphertext.data@, params.k(), params.sz() * radix.count.0), 0, params.sz()), glwe_secret_key.data@, params.n(), params.k(), h), radix.radix_log.0 as int, 0)
//@end
/// T19 round trip: with no noise the message modulo the radix comes back from a leveled encryption
pub fn t19_round_trip(out: &mut TP, gl: &mut GlevCiphertextRef<WORD>, msg: &TP, sk: &GlweSecretKeyRef<WORD>, params: &GlweDef, radix: &RadixDecomposition)
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(gl).wf(params, radix.count.0 as int), msg.data@.len() == params.n(), sk.wf(params), old(out).data@.len() == params.n(), params.std.zero()
    ensures forall|h: int| 0 <= h < params.n() ==> (#[trigger] final(out).data@[h]).0 == msg.data@[h].0 as int % (pow2(radix.radix_log.0 as nat) as int)
{
    encrypt_secret_glev_ciphertext(gl, msg, sk, params, radix); decrypt_glev_ciphertext(out, gl, sk, params, radix);
    proof {
        let l = radix.radix_log.0 as nat; let sh = (W() - l) as nat; pw(); pw_lt(l); pw_lt(sh); lemma_pow2_adds(l, sh); lemma_pow2_unfold(sh);
        let g = comp(gl.data@, 0, params.sz()); assert(EncSecret.post(sk.data@, scaled(msg.data@, l as int, 0), g, *params));
        assert forall|h: int| 0 <= h < params.n() implies (#[trigger] out.data@[h]).0 == msg.data@[h].0 as int % (pow2(l) as int) by {
            let (m, p, b) = (msg.data@[h].0 as int, pow2(sh) as int, pow2(l) as int); let x = gphase(g, sk.data@, params.n(), params.k(), h); assert(encrypts(params.std, scaled(msg.data@, l as int, 0)[h].0, x)); assert(x == md(m * p));
            let r = m % b; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, b); let q = m / b; assert(m * p == r * p + M() * q) by (nonlinear_arith) requires m == b * q + r, b * p == M(); md_shift(r * p, q);
            assert(0 <= r * p < M()) by (nonlinear_arith) requires 0 <= r < b, p > 0, b * p == M(); vstd::arithmetic::div_mod::lemma_small_mod((r * p) as nat, M() as nat); let hf = pow2((sh - 1) as nat) as int; assert((r * p + hf) / p == r) by (nonlinear_arith) requires 0 <= hf < p, p > 0;
            vstd::arithmetic::div_mod::lemma_small_mod(r as nat, b as nat);
        }
    }
}
} // verus!
verus! {
// ---- public-key encryption ----------------------------------------------------------------------
/// x was returned by a draw of a random bit
pub uninterp spec fn drawn_bit(x: WORD) -> bool;
#[verifier::external_body] pub fn binary() -> (r: WORD) ensures r <= 1, drawn_bit(r) { unimplemented!() }
#[verifier::external_body] pub fn clone_poly(p: &TP) -> (r: &'static mut TP) ensures r.data@ == p.data@ { unimplemented!() }
pub struct RlwePublicKeyRef<S> { pub data: [Torus<S>] }
pub struct RlwePublicEncryptionRandomness { pub e0: &'static mut TP, pub e1: &'static mut TP, pub u: &'static mut PolynomialRef<WORD> }
#[verifier::external_body] pub fn glwe_from_slice(s: &[Torus<WORD>]) -> (r: &GlweCiphertextRef<WORD>) ensures r.data@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn glwe_from_mut_slice(s: &mut [Torus<WORD>]) -> (r: &mut GlweCiphertextRef<WORD>) ensures r.data@ == old(s)@, final(r).data@ == final(s)@ { unimplemented!() }
//@fn sunscreen_tfhe/src/rand.rs :: binary_torus_polynomial
    ensures final(out).data@.len() == old(out).data@.len(), forall|i: int| 0 <= i < old(out).data@.len() ==> #[trigger] final(out).data@[i] <= 1 && drawn_bit(final(out).data@[i])
//@at loop 0
    invariant __s0_0@.len() == __n0, __i0 <= __n0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __s0_0@[i] <= 1 && drawn_bit(__s0_0@[i])
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/rand.rs :: normal_torus_polynomial
    ensures final(out).data@.len() == old(out).data@.len(), forall|i: int| 0 <= i < old(out).data@.len() ==> drawn(std, (#[trigger] final(out).data@[i]).0), std.zero() ==> forall|i: int| 0 <= i < old(out).data@.len() ==> (#[trigger] final(out).data@[i]).0 == 0
//@at loop 0
    invariant __s0_0@.len() == __n0, __i0 <= __n0, forall|i: int| 0 <= i < __i0 ==> drawn(std, (#[trigger] __s0_0@[i]).0), std.zero() ==> forall|i: int| 0 <= i < __i0 ==> (#[trigger] __s0_0@[i]).0 == 0
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/dst.rs :: PolynomialRef::clear
//@macro dst(Polynomial, PolynomialRef, NoWrapper)
//@rename clear_tp
//@sig fn clear_tp(pt: &mut TP)
//@sub "self.as_mut_slice()" => "pt.as_mut_slice()"
//@sub "<NoWrapper<T> as num::Zero>::zero()" => "Torus::zero()"
    ensures final(pt).data@.len() == old(pt).data@.len(), forall|x: int| 0 <= x < old(pt).data@.len() ==> (#[trigger] final(pt).data@[x]).0 == 0
//@at loop 0
    invariant __s0_0@.len() == __n0, __i0 <= __n0, forall|x: int| 0 <= x < __i0 ==> (#[trigger] __s0_0@[x]).0 == 0
    decreases __n0 - __i0
//@end
impl GlweCiphertextRef<WORD> {
//@fn sunscreen_tfhe/src/dst.rs :: GlweCiphertextRef::clear
//@macro dst(GlweCiphertext, GlweCiphertextRef, Torus)
//@sub "<Torus<T> as num::Zero>::zero()" => "Torus::zero()"
    ensures final(self).data@.len() == old(self).data@.len(), forall|x: int| 0 <= x < old(self).data@.len() ==> (#[trigger] final(self).data@[x]).0 == 0
//@at loop 0
    invariant __s0_0@.len() == __n0, __i0 <= __n0, forall|x: int| 0 <= x < __i0 ==> (#[trigger] __s0_0@[x]).0 == 0
    decreases __n0 - __i0
//@end
}
impl RlwePublicKeyRef<WORD> {
    pub open spec fn wf(&self, p: &GlweDef) -> bool { self.data@.len() == 2 * p.n() }
//@fn sunscreen_tfhe/src/entities/rlwe_public_key.rs :: RlwePublicKeyRef::zero_encryption
//@sub "GlweCiphertextRef::from_slice" => "glwe_from_slice"
    ensures ret.data@ == self.data@
//@end
//@fn sunscreen_tfhe/src/entities/rlwe_public_key.rs :: RlwePublicKeyRef::zero_encryption_mut
//@sub "GlweCiphertextRef::from_mut_slice" => "glwe_from_mut_slice"
    ensures ret.data@ == old(self).data@, final(ret).data@ == final(self).data@
//@end
//@fn sunscreen_tfhe/src/entities/rlwe_public_key.rs :: RlwePublicKeyRef::p0_p1
//@sub ".next().unwrap()" => ".chunk(0)"
//@sub "let (mut p0, p1)" => "let (p0, p1)" optional
    requires glwe.ok(), glwe.k() == 1, self.wf(glwe)
    ensures ret.0.data@ == self.data@.subrange(0, glwe.n()), ret.1.data@ == self.data@.subrange(glwe.n(), 2 * glwe.n())
//@at start
    proof { assert(glwe.n() * 1 == glwe.n()); }
//@end
}
/// (p0 u + e0, p1 u + e1 + m)
pub open spec fn rlwe_form(pk: Seq<Torus<WORD>>, m: Seq<Torus<WORD>>, out: Seq<Torus<WORD>>, n: int, u: Seq<WORD>, e0: Seq<Torus<WORD>>, e1: Seq<Torus<WORD>>) -> bool {
    &&& forall|h: int| 0 <= h < n ==> (#[trigger] out[h]).0 == wadd(md(conv(pk.subrange(0, n), u, h)), e0[h].0)
    &&& forall|h: int| 0 <= h < n ==> (#[trigger] out[n + h]).0 == wadd(wadd(md(conv(pk.subrange(n, 2 * n), u, h)), e1[h].0), m[h].0)
}
pub open spec fn rlwe_rand(std: Stddev, n: int, u: Seq<WORD>, e0: Seq<Torus<WORD>>, e1: Seq<Torus<WORD>>) -> bool {
    &&& u.len() == n && e0.len() == n && e1.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] u[i] <= 1 && drawn_bit(u[i])) && (forall|i: int| 0 <= i < n ==> drawn(std, (#[trigger] e0[i]).0)) && (forall|i: int| 0 <= i < n ==> drawn(std, (#[trigger] e1[i]).0))
}
//@def RLWEREQ glwe.ok(), glwe.k() == 1, ispow2(glwe.n()), 2 * glwe.n() <= usize::MAX, old(ct).wf(glwe), public_key.wf(glwe), encoded_msg.data@.len() == glwe.n()
//@def RLWEENS final(ct).wf(glwe), rlwe_form(public_key.data@, encoded_msg.data@, final(ct).data@, glwe.n(), ret.u.data@, ret.e0.data@, ret.e1.data@), rlwe_rand(glwe.std, glwe.n(), ret.u.data@, ret.e0.data@, ret.e1.data@)
//@fn sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs :: rlwe_encrypt_public_impl
//@sig fn rlwe_encrypt_public_impl(ct: &mut GlweCiphertextRef<WORD>, encoded_msg: &TP, public_key: &RlwePublicKeyRef<WORD>, glwe: &GlweDef) -> (ret: RlwePublicEncryptionRandomness)
//@sub "let mut u = Polynomial::<S>::zero" => "let u = zero_digits"
//@sub "let mut e0 = Polynomial::<Torus<S>>::zero" => "let e0 = Polynomial::zero"
//@sub "let mut e1 = e0.clone();" => "let e1 = clone_poly(&*e0);" optional
//@sub "&mut u" => "u"
//@sub "&mut e0" => "e0"
//@sub "&mut e1" => "e1"
//@sub "& u" => "&*u" optional
//@sub "&u" => "&*u" optional
//@sub "&e0)" => "&*e0)"
//@sub "&e1)" => "&*e1)"
//@sub "let (mut a, b)" => "let (a, b)"
//@sub "a.next().unwrap()" => "a.into_chunk(0)"
    requires RLWEREQ
    ensures RLWEENS
//@at start
    let ghost n = glwe.n(); proof { assert(n * 1 == n); assert(glwe.n() * glwe.k() == n); }
//@end
//@fn sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs :: rlwe_encrypt_public
//@sig fn rlwe_encrypt_public(ct: &mut GlweCiphertextRef<WORD>, encoded_msg: &TP, public_key: &RlwePublicKeyRef<WORD>, glwe: &GlweDef) -> (ret: RlwePublicEncryptionRandomness)
    requires RLWEREQ
    ensures RLWEENS
//@end
//@fn sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs :: rlwe_generate_public_key
//@sub "pt.clear();" => "clear_tp(pt);"
    requires glwe.ok(), glwe.k() == 1, ispow2(glwe.n()), 2 * glwe.n() <= usize::MAX, old(public_key).wf(glwe), secret_key.wf(glwe)
    ensures final(public_key).wf(glwe), forall|h: int| 0 <= h < glwe.n() ==> encrypts(glwe.std, 0, #[trigger] gphase(final(public_key).data@, secret_key.data@, glwe.n(), 1, h))
//@at start
    proof { assert(glwe.n() * 1 == glwe.n()); assert(glwe.n() * glwe.k() == glwe.n()); }
//@end
pub open spec fn rlwe_enc(std: Stddev, pk: Seq<Torus<WORD>>, m: Seq<Torus<WORD>>, out: Seq<Torus<WORD>>, n: int) -> bool { exists|u: Seq<WORD>, e0: Seq<Torus<WORD>>, e1: Seq<Torus<WORD>>| #[trigger] rlwe_form(pk, m, out, n, u, e0, e1) && rlwe_rand(std, n, u, e0, e1) }
//@fn sunscreen_tfhe/src/ops/encryption/glev_encryption.rs :: encrypt_rlev_ciphertext
    requires params.ok(), params.k() == 1, ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(rlev_ciphertext).wf(params, radix.count.0 as int), msg.data@.len() == params.n(), rlwe_public_key.wf(params)
    ensures final(rlev_ciphertext).wf(params, radix.count.0 as int), forall|j: int| 0 <= j < radix.count.0 ==> rlwe_enc(params.std, rlwe_public_key.data@, scaled(msg.data@, radix.radix_log.0 as int, j), #[trigger] comp(final(rlev_ciphertext).data@, j, params.sz()), params.n())
//@at start
    let ghost (n, sz, cnt, l, pk, md0) = (params.n(), params.sz(), radix.count.0 as int, radix.radix_log.0 as int, rlwe_public_key.data@, msg.data@);
    proof { sz_facts(*params); div_mul(sz, cnt); }
//@at init 0
    let ghost fr = final(__e0_0).data@;
//@at loop 0
    invariant params.ok(), params.k() == 1, ispow2(n), 2 * n <= usize::MAX, n == params.n(), sz == params.sz(), sz >= 1, (sz * cnt) / sz == cnt, (sz * cnt) % sz == 0, sz * cnt <= usize::MAX, cnt == radix.count.0, l == radix.radix_log.0, radix.ok(), scaled_msg.data@.len() == n, msg.data@ == md0, md0.len() == n, pk == rlwe_public_key.data@, rlwe_public_key.wf(params), fr == final(__e0_0).data@,
        __n0 == cnt, __i0 <= __n0, __e0_0.wf(params, cnt), forall|q: int| 0 <= q < __i0 ==> rlwe_enc(params.std, pk, scaled(md0, l, q), #[trigger] comp(__e0_0.data@, q, sz), n)
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, sz, cnt); level_shift(l, __j0 as int, cnt); }
    let ghost r0 = __e0_0.data@;
//@at end 0
    proof { let jj = __j0 as int; let y = glwe.data@; let o = __e0_0.data@; assert forall|q: int| 0 <= q < jj + 1 implies rlwe_enc(params.std, pk, scaled(md0, l, q), #[trigger] comp(o, q, sz), n) by { chunk_bounds(q, sz, cnt); if q < jj { chunk_bounds(q, sz, jj); assert(sz * jj == jj * sz) by (nonlinear_arith); assert(comp(o, q, sz) =~= comp(r0, q, sz)); } else { assert(comp(o, q, sz) =~= y); } } }
//@end
// ---- GLWE key-switching keys ----------------------------------------------------------------------
impl PolynomialRef<WORD> { #[verifier::external_body] pub fn map<F: Fn(&WORD) -> Torus<WORD>>(&self, f: F) -> (r: &'static mut TP) requires forall|x: &WORD| #[trigger] f.requires((x,)) ensures r.data@.len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> f.ensures((&self.data@[i],), #[trigger] r.data@[i]) { unimplemented!() } }
//@fn sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs :: encrypt_glwe_ciphertext_secret_with_keyswitch_noise
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, old(c).wf(params), sk.wf(params), msg.data@.len() == params.n()
    ensures final(c).wf(params), EncSecret.post(sk.data@, msg.data@, final(c).data@, *params)
//@end
pub struct EncKs;
impl GlweEnc for EncKs {
    open spec fn post(&self, sk: Seq<WORD>, msg: Seq<Torus<WORD>>, out: Seq<Torus<WORD>>, p: GlweDef) -> bool { EncSecret.post(sk, msg, out, p) }
    fn enc(&self, c: &mut GlweCiphertextRef<WORD>, msg: &TP, sk: &GlweSecretKeyRef<WORD>, params: &GlweDef) { encrypt_glwe_ciphertext_secret_with_keyswitch_noise(c, msg, sk, params) }
}
pub open spec fn ksk_rows<E: GlweEnc>(e: E, kk: Seq<Torus<WORD>>, so: Seq<WORD>, sn: Seq<WORD>, p: GlweDef, l: int, cnt: int, m: int) -> bool { forall|i: int| 0 <= i < m ==> levels(e, #[trigger] comp(kk, i, p.sz() * cnt), sn, tor(scomp(so, i, p.n())), p, l, cnt) }
//@fn sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs :: encrypt_keyswitch_key_generic
//@sig fn encrypt_keyswitch_key_generic<E: GlweEnc>(keyswitch_key: &mut GlweKeyswitchKeyRef<WORD>, original_glwe_secret_key: &GlweSecretKeyRef<WORD>, new_glwe_secret_key: &GlweSecretKeyRef<WORD>, params: &GlweDef, radix: &RadixDecomposition, encrypt: &E)
//@sub ".nth(" => ".chunk("
//@sub ".unwrap()" => ""
//@sub "|x| Torus::from(*x)" => "|x: &WORD| -> (r: Torus<WORD>) ensures r.0 == *x { Torus::from(*x) }"
//@sub "let mut scaled_original_key" => "let scaled_original_key"
//@sub "&mut scaled_original_key" => "scaled_original_key"
//@sub "&scaled_original_key" => "&*scaled_original_key"
//@sub "&s," => "&*s,"
//@sub " encrypt(" => " proof { assert(scaled_original_key.data@ =~= scaled(tor(scomp(so, i as int, n)), l, j as int)); } encrypt.enc("
    requires params.dim.size.0 < usize::MAX, params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(keyswitch_key).wf(params, radix.count.0 as int), original_glwe_secret_key.wf(params), new_glwe_secret_key.wf(params)
    ensures final(keyswitch_key).wf(params, radix.count.0 as int), ksk_rows(*encrypt, final(keyswitch_key).data@, original_glwe_secret_key.data@, new_glwe_secret_key.data@, *params, radix.radix_log.0 as int, radix.count.0 as int, params.k())
//@at start
    let ghost (n, k, sz, cnt, l, so, sn) = (params.n(), params.k(), params.sz(), radix.count.0 as int, radix.radix_log.0 as int, original_glwe_secret_key.data@, new_glwe_secret_key.data@); let ghost gz = sz * cnt;
    proof { sz_facts(*params); div_mul(n, k); div_mul(sz, cnt); assert(gz >= 1) by (nonlinear_arith) requires gz == sz * cnt, sz >= 1, cnt >= 1; div_mul(gz, k); }
//@at init 0
    let ghost fo = final(__e0_0).data@;
//@at loop 0
    invariant params.dim.size.0 < usize::MAX, params.ok(), ispow2(n), 2 * n <= usize::MAX, n == params.n(), k == params.k(), n == polynomial_degree, sz == params.sz(), sz >= 1, cnt == radix.count.0, l == radix.radix_log.0, l == decomposition_radix_log, radix.ok(), gz == sz * cnt, gz >= 1, gz <= usize::MAX, gz / sz == cnt, gz % sz == 0, (gz * k) / gz == k, (n * k) / n == k, so == original_glwe_secret_key.data@, original_glwe_secret_key.wf(params), sn == new_glwe_secret_key.data@, new_glwe_secret_key.wf(params), fo == final(__e0_0).data@,
        __n0 == k, __i0 <= __n0, __e0_0.wf(params, cnt), ksk_rows(*encrypt, __e0_0.data@, so, sn, *params, l, cnt, __i0 as int)
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, gz, k); chunk_bounds(__j0 as int, n, k); }
    let ghost r0 = __e0_0.data@;
//@at init 1
    let ghost fr = final(__e1_0).data@; proof { assert(s.data@ =~= tor(scomp(so, i as int, n))); }
//@at loop 1
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, n == params.n(), k == params.k(), n == polynomial_degree, sz == params.sz(), sz >= 1, cnt == radix.count.0, l == radix.radix_log.0, l == decomposition_radix_log, radix.ok(), gz == sz * cnt, gz >= 1, gz <= usize::MAX, gz / sz == cnt, gz % sz == 0, sn == new_glwe_secret_key.data@, new_glwe_secret_key.wf(params), s.data@ == tor(scomp(so, i as int, n)), s.data@.len() == n, fr == final(__e1_0).data@,
        __n1 == cnt, __i1 <= __n1, __e1_0.wf(params, cnt), levels(*encrypt, __e1_0.data@, sn, tor(scomp(so, i as int, n)), *params, l, __i1 as int)
    decreases __n1 - __i1
//@at first 1
    proof { chunk_bounds(__j1 as int, sz, cnt); level_shift(l, __j1 as int, cnt); }
    let ghost r1 = __e1_0.data@;
//@at end 1
    proof { let jj = __j1 as int; let y = col.data@; let o = __e1_0.data@; let mm = tor(scomp(so, i as int, n)); assert forall|q: int| 0 <= q < jj + 1 implies encrypt.post(sn, scaled(mm, l, q), #[trigger] comp(o, q, sz), *params) by { chunk_bounds(q, sz, cnt); if q < jj { chunk_bounds(q, sz, jj); assert(sz * jj == jj * sz) by (nonlinear_arith); assert(comp(o, q, sz) =~= comp(r1, q, sz)); } else { assert(comp(o, q, sz) =~= y); } } }
//@at end 0
    proof { let jj = __j0 as int; let o = __e0_0.data@; assert forall|q: int| 0 <= q < jj + 1 implies levels(*encrypt, #[trigger] comp(o, q, gz), sn, tor(scomp(so, q, n)), *params, l, cnt) by { chunk_bounds(q, gz, k); if q < jj { chunk_bounds(q, gz, jj); assert(gz * jj == jj * gz) by (nonlinear_arith); assert(comp(o, q, gz) =~= comp(r0, q, gz)); } else { assert(comp(o, q, gz) =~= fr); } } }
//@end
//@fn sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs :: generate_keyswitch_key_glwe
//@sub "encrypt_glwe_ciphertext_secret_with_keyswitch_noise," => "&EncKs," optional
    requires params.dim.size.0 < usize::MAX, params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, radix.ok(), old(keyswitch_key).wf(params, radix.count.0 as int), original_glwe_secret_key.wf(params), new_glwe_secret_key.wf(params)
    ensures final(keyswitch_key).wf(params, radix.count.0 as int), ksk_rows(EncKs, final(keyswitch_key).data@, original_glwe_secret_key.data@, new_glwe_secret_key.data@, *params, radix.radix_log.0 as int, radix.count.0 as int, params.k())
//@end
} // verus!
