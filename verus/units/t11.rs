//@include ../prelude/lwe.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@include ../prelude/encode.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
//@include ../prelude/poly.rs
//@include ../prelude/polyops.rs
//@include ../prelude/conv.rs
//@include ../prelude/mono.rs
//@include ../prelude/glwe.rs
//@include ../prelude/sums.rs
//@include ../prelude/gphase.rs
//@include ../prelude/encrypt.rs
verus! {
/// T11 (LWE): encrypt, then remove the mask with the same key.
pub fn t11_lwe(ct: &mut LweCiphertextRef<WORD>, sk: &LweSecretKeyRef<WORD>, msg: Torus<WORD>, params: &LweDef) -> (r: Torus<WORD>)
    requires old(ct).wf(params.dim.0 as int), sk.data@.len() == params.dim.0
    ensures exists|e: WORD| drawn(params.std, e) && r.0 == wadd(msg.0, e), params.std.zero() ==> r == msg
{ encrypt_lwe_ciphertext(ct, sk, msg, params); sk.decrypt_without_decode(ct, params) }
/// T11 (LWE): encode, encrypt, decrypt, decode: the message while the drawn noise stays below half a step.
pub fn t11_lwe_codec(ct: &mut LweCiphertextRef<WORD>, sk: &LweSecretKeyRef<WORD>, msg: WORD, params: &LweDef, w: PlaintextBits) -> (r: (WORD, Torus<WORD>))
    requires old(ct).wf(params.dim.0 as int), sk.data@.len() == params.dim.0, 1 <= w.0 < WBITS, msg < pow2(w.0 as nat)
    ensures r.0 == rnd(wadd(md(msg * pow2((W() - w.0) as nat)), r.1.0) as int, (W() - w.0) as nat) % (pow2(w.0 as nat) as int)
{ let e = encode_and_encrypt_lwe_ciphertext(ct, sk, msg, params, w); let m = sk.decrypt(ct, params, w); (m, e) }
pub fn t11_lwe_trivial(ct: &mut LweCiphertextRef<WORD>, sk: &LweSecretKeyRef<WORD>, msg: Torus<WORD>, params: &LweDef) -> (r: Torus<WORD>)
    requires old(ct).wf(params.dim.0 as int), sk.data@.len() == params.dim.0
    ensures r == msg
{ trivially_encrypt_lwe_ciphertext(ct, &msg, params); proof { dot_zero(ct.data@, sk.data@, params.dim.0 as int); } sk.decrypt_without_decode(ct, params) }
/// T11 (GLWE)
pub fn t11_glwe(out: &mut TP, ct: &mut GlweCiphertextRef<WORD>, sk: &GlweSecretKeyRef<WORD>, msg: &TP, params: &GlweDef)
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, old(ct).wf(params), sk.wf(params), msg.data@.len() == params.n(), old(out).data@.len() == params.n()
    ensures final(out).data@.len() == params.n(), forall|h: int| 0 <= h < params.n() ==> encrypts(params.std, msg.data@[h].0, (#[trigger] final(out).data@[h]).0)
{ encrypt_glwe_ciphertext_secret(ct, msg, sk, params); decrypt_glwe_ciphertext(out, ct, sk, params); }
pub fn t11_glwe_trivial(out: &mut TP, ct: &mut GlweCiphertextRef<WORD>, sk: &GlweSecretKeyRef<WORD>, msg: &TP, params: &GlweDef)
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, old(ct).wf(params), sk.wf(params), msg.data@.len() == params.n(), old(out).data@.len() == params.n()
    ensures final(out).data@.len() == params.n(), forall|h: int| 0 <= h < params.n() ==> (#[trigger] final(out).data@[h]) == msg.data@[h]
{ trivially_encrypt_glwe_ciphertext(ct, msg, params); proof { assert forall|h: int| 0 <= h < params.n() implies gdot(ct.data@, sk.data@, params.n(), h, params.k()) == 0 by { gdot_zero(ct.data@, sk.data@, params.n(), params.k(), h, params.k()); } } decrypt_glwe_ciphertext(out, ct, sk, params); }
} // verus!
fn main() {}
