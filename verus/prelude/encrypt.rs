//@include glweenc.rs
verus! {
impl LweSecretKeyRef<WORD> {
    pub fn as_slice(&self) -> (r: &[WORD]) ensures r@ == self.data@ { &self.data }
//@fn sunscreen_tfhe/src/entities/lwe_secret_key.rs :: LweSecretKeyRef::decrypt
    requires ct.wf(params.dim.0 as int), self.data@.len() == params.dim.0, 1 <= plaintext_bits.0 < WBITS
    ensures ret == rnd(phase(ct.data@, self.data@, params.dim.0 as int) as int, (W() - plaintext_bits.0) as nat) % (pow2(plaintext_bits.0 as nat) as int)
//@end
}
//@fn sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs :: trivially_encrypt_lwe_ciphertext
//@slice a mut
    requires old(c).wf(params.dim.0 as int)
    ensures final(c).wf(params.dim.0 as int), forall|i: int| 0 <= i < params.dim.0 ==> (#[trigger] final(c).data@[i]).0 == 0, final(c).data@[params.dim.0 as int] == *msg
//@at init 0
    let ghost fa = final(__s0_0)@;
//@at loop 0
    invariant __n0 == params.dim.0, __s0_0@.len() == __n0, fa == final(__s0_0)@, __i0 <= __n0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __s0_0@[i]).0 == 0
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs :: encrypt_lwe_ciphertext
    requires old(ct).wf(params.dim.0 as int), sk.data@.len() == params.dim.0
    ensures final(ct).wf(params.dim.0 as int), drawn(params.std, ret.0), params.std.zero() ==> ret.0 == 0, phase(final(ct).data@, sk.data@, params.dim.0 as int) == wadd(msg.0, ret.0),
        forall|i: int| 0 <= i < params.dim.0 ==> drawn_uniform((#[trigger] final(ct).data@[i]).0)
//@at init 0
    let ghost (fa, fb) = (final(__s0_0)@, *final(b)); let ghost n = params.dim.0 as int;
//@at loop 0
    invariant n == params.dim.0, __n0 == n, __s0_0@.len() == __n0, fa == final(__s0_0)@, fb == *final(b), __s0_1@ == sk.data@, sk.data@.len() == n, __i0 <= __n0, b.0 == md(sdot(__s0_0@, sk.data@, __i0 as int)), forall|i: int| 0 <= i < __i0 ==> drawn_uniform((#[trigger] __s0_0@[i]).0)
    decreases __n0 - __i0
//@at first 0
    let ghost a0 = __s0_0@;
//@at end 0
    proof { assert(__s0_0@[__j0 as int] == Torus(__s0_0@[__j0 as int].0)); dot_ext(a0, __s0_0@, sk.data@, __j0 as int); let x = __s0_0@[__j0 as int].0 as int * sk.data@[__j0 as int] as int; md_add(sdot(__s0_0@, sk.data@, __j0 as int), x); }
//@at after 0
    let ghost a1 = __s0_0@;
//@at end
    proof { let c = ct.data@; dot_ext(a1, c, sk.data@, n); let d = sdot(c, sk.data@, n); let m = wadd(msg.0, e.0); md_id(m); md_add(d, m as int); md_sub(d + m, d); md_id(c[n].0); cong_add(c[n].0 as int, d + m, d, d); }
//@end
//@fn sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs :: encode_and_encrypt_lwe_ciphertext
    requires old(ct).wf(params.dim.0 as int), sk.data@.len() == params.dim.0, 1 <= plaintext_bits.0 < WBITS
    ensures final(ct).wf(params.dim.0 as int), drawn(params.std, ret.0), phase(final(ct).data@, sk.data@, params.dim.0 as int) == wadd(md(msg * pow2((W() - plaintext_bits.0) as nat)), ret.0)
//@end
pub proof fn dot_zero(a: Seq<Torus<WORD>>, s: Seq<WORD>, n: int) requires forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).0 == 0 ensures sdot(a, s, n) == 0 decreases n { if n > 0 { dot_zero(a, s, n - 1); let x = s[n - 1] as int; assert(0 * x == 0); } }
} // verus!
