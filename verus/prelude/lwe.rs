//@include torus.rs
//@include ring.rs
//@noop assert_is_valid assert_valid
verus! {
#[derive(Copy, Clone)] pub struct LweDimension(pub usize);
pub struct LweDef { pub dim: LweDimension, pub std: Stddev }
pub struct LweCiphertextRef<S> { pub data: [Torus<S>] }
pub struct LweSecretKeyRef<S> { pub data: [S] }
/// sum_{i<n} a_i s_i over the integers
pub open spec fn sdot(a: Seq<Torus<WORD>>, s: Seq<WORD>, n: int) -> int decreases n { if n <= 0 { 0 } else { sdot(a, s, n - 1) + (a[n - 1].0 as int) * (s[n - 1] as int) } }
/// b - <a, s> modulo 2^64 of a flat LWE ciphertext a_0..a_{n-1} b
pub open spec fn phase(c: Seq<Torus<WORD>>, s: Seq<WORD>, n: int) -> WORD { md(c[n].0 as int - sdot(c, s, n)) }
pub proof fn dot_ext(a: Seq<Torus<WORD>>, b: Seq<Torus<WORD>>, s: Seq<WORD>, n: int) requires forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures sdot(a, s, n) == sdot(b, s, n) decreases n { if n > 0 { dot_ext(a, b, s, n - 1) } }
impl LweCiphertextRef<WORD> {
    pub open spec fn wf(&self, n: int) -> bool { self.data@.len() == n + 1 }
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: LweCiphertextRef::split_at_idx
        ensures ret == params.dim.0
//@end
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: LweCiphertextRef::a_b
        requires self.wf(params.dim.0 as int)
        ensures ret.0@ == self.data@.subrange(0, params.dim.0 as int), *ret.1 == self.data@[params.dim.0 as int]
//@end
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: LweCiphertextRef::a
        requires self.wf(params.dim.0 as int)
        ensures ret@ == self.data@.subrange(0, params.dim.0 as int)
//@end
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: LweCiphertextRef::b
        requires self.wf(params.dim.0 as int)
        ensures *ret == self.data@[params.dim.0 as int]
//@end
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: LweCiphertextRef::a_b_mut
        requires old(self).wf(params.dim.0 as int)
        ensures ret.0@ == old(self).data@.subrange(0, params.dim.0 as int), *ret.1 == old(self).data@[params.dim.0 as int],
            final(self).data@ == final(ret.0)@ + seq![*final(ret.1)]
//@end
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: LweCiphertextRef::a_mut
        requires old(self).wf(params.dim.0 as int)
        ensures ret@ == old(self).data@.subrange(0, params.dim.0 as int), final(self).data@ == final(ret)@ + seq![old(self).data@[params.dim.0 as int]]
//@end
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: LweCiphertextRef::b_mut
        requires old(self).wf(params.dim.0 as int)
        ensures *ret == old(self).data@[params.dim.0 as int], final(self).data@ == old(self).data@.subrange(0, params.dim.0 as int) + seq![*final(ret)]
//@end
}
impl LweSecretKeyRef<WORD> {
//@fn sunscreen_tfhe/src/entities/lwe_secret_key.rs :: LweSecretKeyRef::s
        ensures ret@ == self.data@
//@end
//@fn sunscreen_tfhe/src/entities/lwe_secret_key.rs :: LweSecretKeyRef::decrypt_without_decode
        requires ct.wf(params.dim.0 as int), self.data@.len() == params.dim.0
        ensures ret.0 == phase(ct.data@, self.data@, params.dim.0 as int)
//@at loop 0
    invariant __n0 == params.dim.0, __s0_0@.len() == __n0, __s0_0@ == ct.data@.subrange(0, params.dim.0 as int), __s0_1@ == self.data@, __s0_1@.len() == __n0, __i0 <= __n0, dot.0 == md(sdot(__s0_0@, __s0_1@, __i0 as int))
    decreases __n0 - __i0
//@at start 0
    proof { md_add(sdot(__s0_0@, __s0_1@, __j0 as int), (a_i.0 as int) * (*d_i as int)); }
//@at after 0
    proof { dot_ext(ct.data@, ct.data@.subrange(0, params.dim.0 as int), self.data@, params.dim.0 as int); md_sub(b.0 as int, sdot(ct.data@, self.data@, params.dim.0 as int)); }
//@end
}
} // verus!
