//@noop assert_is_valid assert_valid
verus! {
#[derive(Copy, Clone)] pub struct GlweSize(pub usize);
#[derive(Copy, Clone)] pub struct GlweDimension { pub polynomial_degree: PolynomialDegree, pub size: GlweSize }
pub struct GlweDef { pub dim: GlweDimension, pub std: Stddev }
pub struct GlweCiphertextRef<S> { pub data: [Torus<S>] }
pub struct GlweSecretKeyRef<S> { pub data: [S] }
impl GlweDef {
    pub open spec fn n(&self) -> int { self.dim.polynomial_degree.0 as int }
    pub open spec fn k(&self) -> int { self.dim.size.0 as int }
    pub open spec fn ok(&self) -> bool { self.n() >= 1 && self.n() * (self.k() + 1) <= isize::MAX }
}
// AVec/slice identity conversions
pub trait AsR<T> { spec fn rv(&self) -> Seq<T>; fn as_ref(&self) -> (r: &[T]) ensures r@ == self.rv(); fn as_mut(&mut self) -> (r: &mut [T]) ensures r@ == old(self).rv(), final(self).rv() == final(r)@; }
impl<T> AsR<T> for [T] { open spec fn rv(&self) -> Seq<T> { self@ } fn as_ref(&self) -> (r: &[T]) { self } fn as_mut(&mut self) -> (r: &mut [T]) { self } }
// dst! FromSlice / FromMutSlice: the transparent wrapper cast
impl<T> PolynomialRef<T> {
    #[verifier::external_body] pub fn from_slice(s: &[T]) -> (r: &PolynomialRef<T>) ensures r.data@ == s@ { unsafe { &*(s as *const [T] as *const PolynomialRef<T>) } }
    #[verifier::external_body] pub fn from_mut_slice(s: &mut [T]) -> (r: &mut PolynomialRef<T>) ensures r.data@ == old(s)@, final(s)@ == final(r).data@ { unsafe { &mut *(s as *mut [T] as *mut PolynomialRef<T>) } }
}
impl PolynomialRef<Torus<WORD>> {
//@fn sunscreen_tfhe/src/dst.rs :: PolynomialRef::clone_from_ref
//@macro dst(Polynomial, PolynomialRef, NoWrapper)
//@sig fn clone_from_ref(&mut self, rhs: &PolynomialRef<Torus<WORD>>)
    requires old(self).data@.len() == rhs.data@.len()
    ensures final(self).data@ == rhs.data@
//@at loop 0
    invariant __n0 == rhs.data@.len(), __i0 <= __n0, __s0_0@.len() == __n0, __s0_1@ == rhs.data@, forall|i: int| 0 <= i < __i0 ==> __s0_0@[i] == rhs.data@[i]
    decreases __n0 - __i0
//@at end
    proof { assert(self.data@ =~= rhs.data@); }
//@end
}
// dst_iter! iterators as a sequence of components: component i is the i-th chunk of `stride` elements (T13 proves next/next_back/len)
pub struct PolynomialIterator<'a, T> { pub data: &'a [T], pub stride: usize }
impl<'a, T> PolynomialIterator<'a, T> {
    #[verifier::external_body] pub fn new(data: &'a [T], stride: usize) -> (r: Self) requires stride >= 1, data@.len() % stride as nat == 0 ensures r.data@ == data@, r.stride == stride { PolynomialIterator { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.data@.len() / self.stride as nat { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&self, i: usize) -> (r: &'a PolynomialRef<T>) requires (i + 1) * self.stride <= self.data@.len() ensures r.data@ == self.data@.subrange(i * self.stride, (i + 1) * self.stride) { unimplemented!() }
}
pub struct PolynomialIteratorMut<'a, T> { pub data: &'a mut [T], pub stride: usize }
impl<'a, T> PolynomialIteratorMut<'a, T> {
    pub open spec fn cur(&self) -> Seq<T> { self.data@ }
    pub open spec fn cnt(&self) -> nat { self.data@.len() / self.stride as nat }
    #[verifier::external_body] pub fn new(data: &'a mut [T], stride: usize) -> (r: Self) requires stride >= 1, old(data)@.len() % stride as nat == 0 ensures r.data@ == old(data)@, final(r.data)@ == final(data)@, r.stride == stride { PolynomialIteratorMut { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.cnt() { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&mut self, i: usize) -> (r: &mut PolynomialRef<T>) requires (i + 1) * old(self).stride <= old(self).data@.len()
        ensures r.data@ == old(self).data@.subrange(i * old(self).stride, (i + 1) * old(self).stride), final(self).stride == old(self).stride, final(final(self).data)@ == final(old(self).data)@,
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * old(self).stride) + final(r).data@ + old(self).data@.subrange((i + 1) * old(self).stride, old(self).data@.len() as int)
    { unimplemented!() }
}
impl<'a, T> PolynomialIteratorMut<'a, T> {
    #[verifier::external_body] pub fn into_chunk(self, i: usize) -> (r: &'a mut PolynomialRef<T>) requires (i + 1) * self.stride <= self.cur().len()
        ensures r.data@ == self.cur().subrange(i * self.stride, (i + 1) * self.stride),
            final(r).data@.len() == r.data@.len() ==> final(self.data)@ == self.cur().subrange(0, i * self.stride) + final(r).data@ + self.cur().subrange((i + 1) * self.stride, self.cur().len() as int)
    { unimplemented!() }
}
pub proof fn div_mul(n: int, k: int) requires n >= 1, k >= 0 ensures (n * k) % n == 0, (n * k) / n == k, (k * n) % n == 0, (k * n) / n == k, n * k == k * n { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, n); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, n); assert(n * k == k * n) by (nonlinear_arith); }
/// the chunk of index x
pub proof fn chunk_bounds(i: int, n: int, k: int) requires 0 <= i < k, n >= 1 ensures 0 <= i * n, (i + 1) * n <= n * k, (i + 1) * n == i * n + n { assert((i + 1) * n <= n * k) by (nonlinear_arith) requires i + 1 <= k, n >= 1; assert((i + 1) * n == i * n + n) by (nonlinear_arith); assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n >= 1; }
/// the component containing flat index x, and its position in it
pub open spec fn comp(s: Seq<Torus<WORD>>, i: int, n: int) -> Seq<Torus<WORD>> { s.subrange(i * n, (i + 1) * n) }
pub proof fn comp_ix(x: int, n: int, j: int) requires n >= 1, j * n <= x < j * n + n ensures x / n == j, x % n == x - j * n { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, n, j, x - j * n); }
impl GlweCiphertextRef<WORD> {
    pub open spec fn wf(&self, p: &GlweDef) -> bool { self.data@.len() == p.n() * p.k() + p.n() }
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::split_idx
        requires params.ok()
        ensures ret == params.n() * params.k()
//@at start
        proof { assert(params.dim.size.0 * params.dim.polynomial_degree.0 == params.n() * params.k()) by (nonlinear_arith) requires params.n() == params.dim.polynomial_degree.0, params.k() == params.dim.size.0; assert(params.n() * (params.k() + 1) == params.n() * params.k() + params.n()) by (nonlinear_arith); }
//@end
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::a_b
//@sig fn a_b(&self, params: &GlweDef) -> (ret: (PolynomialIterator<'_, Torus<WORD>>, &PolynomialRef<Torus<WORD>>))
//@sub "self.data.as_ref()" => "self.data" optional
        requires params.ok(), self.wf(params)
        ensures ret.0.stride == params.n(), ret.0.data@ == self.data@.subrange(0, params.n() * params.k()), ret.1.data@ == self.data@.subrange(params.n() * params.k(), params.n() * params.k() + params.n())
//@at start
        proof { div_mul(params.n(), params.k()); }
//@end
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::a
//@sig fn a(&self, params: &GlweDef) -> (ret: PolynomialIterator<'_, Torus<WORD>>)
        requires params.ok(), self.wf(params)
        ensures ret.stride == params.n(), ret.data@ == self.data@.subrange(0, params.n() * params.k())
//@end
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::b
        requires params.ok(), self.wf(params)
        ensures ret.data@ == self.data@.subrange(params.n() * params.k(), params.n() * params.k() + params.n())
//@end
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::a_b_mut
//@sig fn a_b_mut(&mut self, params: &GlweDef) -> (ret: (PolynomialIteratorMut<'_, Torus<WORD>>, &mut PolynomialRef<Torus<WORD>>))
//@sub "self.data.as_mut()" => "self.data" optional
        requires params.ok(), old(self).wf(params)
        ensures ret.0.stride == params.n(), ret.0.data@ == old(self).data@.subrange(0, params.n() * params.k()), ret.1.data@ == old(self).data@.subrange(params.n() * params.k(), params.n() * params.k() + params.n()),
            final(self).data@ == final(ret.0.data)@ + final(ret.1).data@
//@at start
        proof { div_mul(params.n(), params.k()); }
//@end
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::a_mut
//@sig fn a_mut(&mut self, params: &GlweDef) -> (ret: PolynomialIteratorMut<'_, Torus<WORD>>)
        requires params.ok(), old(self).wf(params)
        ensures ret.stride == params.n(), ret.data@ == old(self).data@.subrange(0, params.n() * params.k()), final(self).data@ == final(ret.data)@ + old(self).data@.subrange(params.n() * params.k(), params.n() * params.k() + params.n())
//@end
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::b_mut
        requires params.ok(), old(self).wf(params)
        ensures ret.data@ == old(self).data@.subrange(params.n() * params.k(), params.n() * params.k() + params.n()), final(self).data@ == old(self).data@.subrange(0, params.n() * params.k()) + final(ret).data@
//@end
    // component i of `for p in ct.a(params)` / `for p in ct.a_mut(params)`
    pub fn a_count(&self, params: &GlweDef) -> (r: usize) requires params.ok(), self.wf(params) ensures r == params.k() { proof { div_mul(params.n(), params.k()); } self.a(params).len() }
    pub fn a_at(&self, params: &GlweDef, i: usize) -> (r: &PolynomialRef<Torus<WORD>>) requires params.ok(), self.wf(params), i < params.k() ensures r.data@ == self.data@.subrange(i * params.n(), (i + 1) * params.n())
    { proof { chunk_bounds(i as int, params.n(), params.k()); } let r = self.a(params).chunk(i); proof { assert(r.data@ =~= self.data@.subrange(i * params.n(), (i + 1) * params.n())); } r }
    pub fn a_mut_at(&mut self, params: &GlweDef, i: usize) -> (r: &mut PolynomialRef<Torus<WORD>>) requires params.ok(), old(self).wf(params), i < params.k()
        ensures r.data@ == old(self).data@.subrange(i * params.n(), (i + 1) * params.n()),
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * params.n()) + final(r).data@ + old(self).data@.subrange((i + 1) * params.n(), params.n() * params.k() + params.n())
    {
        proof { chunk_bounds(i as int, params.n(), params.k()); } let ghost d = self.data@; let ghost (n, k, nk) = (params.n(), params.k(), params.n() * params.k());
        let it = self.a_mut(params); let r = it.into_chunk(i);
        proof { assert(r.data@ =~= d.subrange(i * n, (i + 1) * n)); assert(d.subrange(0, nk).subrange(0, i * n) =~= d.subrange(0, i * n)); assert(d.subrange(0, nk).subrange((i + 1) * n, nk) + d.subrange(nk, nk + n) =~= d.subrange((i + 1) * n, nk + n));
            let f = final(r).data@; assert((d.subrange(0, i * n) + f + d.subrange(0, nk).subrange((i + 1) * n, nk)) + d.subrange(nk, nk + n) =~= d.subrange(0, i * n) + f + d.subrange((i + 1) * n, nk + n)); }
        r
    }
}
} // verus!
