//@scratch PolynomialRef scratch_polynomial
//@scratch GlweCiphertextRef scratch_glwe
// generated by verus/gen/entities.py
verus! {
pub open spec fn gsz(d: GlweDimension) -> int { d.polynomial_degree.0 * d.size.0 + d.polynomial_degree.0 }
impl GlweDef { pub open spec fn sz(&self) -> int { self.n() * self.k() + self.n() } }
pub proof fn sz_facts(p: GlweDef) requires p.ok() ensures p.sz() == gsz(p.dim), p.sz() >= 1, p.n() * p.k() >= 0, p.sz() <= isize::MAX, p.sz() == p.n() * (p.k() + 1) { assert(p.n() * (p.k() + 1) == p.n() * p.k() + p.n()) by (nonlinear_arith); assert(p.n() * p.k() >= 0) by (nonlinear_arith) requires p.n() >= 1, p.k() >= 0; }
impl<T> PolynomialRef<T> {
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: <OverlaySize for PolynomialRef>::size
//@sig pub fn size(t: PolynomialDegree) -> (ret: usize)
    ensures ret == t.0
//@end
}
impl GlweSecretKeyRef<WORD> {
//@fn sunscreen_tfhe/src/entities/glwe_secret_key.rs :: <OverlaySize for GlweSecretKeyRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
//@sub "PolynomialRef::size" => "PolynomialRef::<WORD>::size" optional
    requires gsz(t) <= usize::MAX
    ensures ret == t.polynomial_degree.0 * t.size.0
//@end
}
impl GlweCiphertextRef<WORD> {
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: <OverlaySize for GlweCiphertextRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
    requires gsz(t) <= usize::MAX
    ensures ret == gsz(t)
//@end
}
pub struct GlevCiphertextRef<S> { pub data: [Torus<S>] }
 pub struct GgswCiphertextRef<S> { pub data: [Torus<S>] }
 pub struct GlweKeyswitchKeyRef<S> { pub data: [Torus<S>] }
 pub struct SchemeSwitchKeyRef<S> { pub data: [Torus<S>] }

/// dst_iter! iterators over GlweCiphertext: component i is the i-th chunk of `stride` words (next/next_back/len are property T13)
pub struct GlweCiphertextIterator<'a, S> { pub data: &'a [Torus<S>], pub stride: usize }
impl<'a, S> GlweCiphertextIterator<'a, S> {
    #[verifier::external_body] pub fn new(data: &'a [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, data@.len() % stride as nat == 0 ensures r.data@ == data@, r.stride == stride { GlweCiphertextIterator { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.data@.len() / self.stride as nat { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&self, i: usize) -> (r: &'a GlweCiphertextRef<S>) requires (i + 1) * self.stride <= self.data@.len() ensures r.data@ == self.data@.subrange(i * self.stride, (i + 1) * self.stride) { unimplemented!() }
}
pub struct GlweCiphertextIteratorMut<'a, S> { pub data: &'a mut [Torus<S>], pub stride: usize }
impl<'a, S> GlweCiphertextIteratorMut<'a, S> {
    pub open spec fn cur(&self) -> Seq<Torus<S>> { self.data@ }
    pub open spec fn cnt(&self) -> nat { self.data@.len() / self.stride as nat }
    #[verifier::external_body] pub fn new(data: &'a mut [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, old(data)@.len() % stride as nat == 0 ensures r.data@ == old(data)@, final(r.data)@ == final(data)@, r.stride == stride { GlweCiphertextIteratorMut { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.cnt() { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&mut self, i: usize) -> (r: &mut GlweCiphertextRef<S>) requires (i + 1) * old(self).stride <= old(self).data@.len()
        ensures r.data@ == old(self).data@.subrange(i * old(self).stride, (i + 1) * old(self).stride), final(self).stride == old(self).stride, final(final(self).data)@ == final(old(self).data)@,
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * old(self).stride) + final(r).data@ + old(self).data@.subrange((i + 1) * old(self).stride, old(self).data@.len() as int)
    { unimplemented!() }
    #[verifier::external_body] pub fn into_chunk(self, i: usize) -> (r: &'a mut GlweCiphertextRef<S>) requires (i + 1) * self.stride <= self.cur().len()
        ensures r.data@ == self.cur().subrange(i * self.stride, (i + 1) * self.stride),
            final(r).data@.len() == r.data@.len() ==> final(self.data)@ == self.cur().subrange(0, i * self.stride) + final(r).data@ + self.cur().subrange((i + 1) * self.stride, self.cur().len() as int)
    { unimplemented!() }
}

/// dst_iter! iterators over GlevCiphertext: component i is the i-th chunk of `stride` words (next/next_back/len are property T13)
pub struct GlevCiphertextIterator<'a, S> { pub data: &'a [Torus<S>], pub stride: usize }
impl<'a, S> GlevCiphertextIterator<'a, S> {
    #[verifier::external_body] pub fn new(data: &'a [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, data@.len() % stride as nat == 0 ensures r.data@ == data@, r.stride == stride { GlevCiphertextIterator { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.data@.len() / self.stride as nat { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&self, i: usize) -> (r: &'a GlevCiphertextRef<S>) requires (i + 1) * self.stride <= self.data@.len() ensures r.data@ == self.data@.subrange(i * self.stride, (i + 1) * self.stride) { unimplemented!() }
}
pub struct GlevCiphertextIteratorMut<'a, S> { pub data: &'a mut [Torus<S>], pub stride: usize }
impl<'a, S> GlevCiphertextIteratorMut<'a, S> {
    pub open spec fn cur(&self) -> Seq<Torus<S>> { self.data@ }
    pub open spec fn cnt(&self) -> nat { self.data@.len() / self.stride as nat }
    #[verifier::external_body] pub fn new(data: &'a mut [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, old(data)@.len() % stride as nat == 0 ensures r.data@ == old(data)@, final(r.data)@ == final(data)@, r.stride == stride { GlevCiphertextIteratorMut { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.cnt() { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&mut self, i: usize) -> (r: &mut GlevCiphertextRef<S>) requires (i + 1) * old(self).stride <= old(self).data@.len()
        ensures r.data@ == old(self).data@.subrange(i * old(self).stride, (i + 1) * old(self).stride), final(self).stride == old(self).stride, final(final(self).data)@ == final(old(self).data)@,
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * old(self).stride) + final(r).data@ + old(self).data@.subrange((i + 1) * old(self).stride, old(self).data@.len() as int)
    { unimplemented!() }
    #[verifier::external_body] pub fn into_chunk(self, i: usize) -> (r: &'a mut GlevCiphertextRef<S>) requires (i + 1) * self.stride <= self.cur().len()
        ensures r.data@ == self.cur().subrange(i * self.stride, (i + 1) * self.stride),
            final(r).data@.len() == r.data@.len() ==> final(self.data)@ == self.cur().subrange(0, i * self.stride) + final(r).data@ + self.cur().subrange((i + 1) * self.stride, self.cur().len() as int)
    { unimplemented!() }
}
// dst! FromSlice / AsSlice of GlevCiphertext: the transparent wrapper cast
impl<S> GlevCiphertextRef<S> { pub fn as_slice(&self) -> (r: &[Torus<S>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<S>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
// dst! FromSlice / AsSlice of GgswCiphertext: the transparent wrapper cast
impl<S> GgswCiphertextRef<S> { pub fn as_slice(&self) -> (r: &[Torus<S>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<S>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
// dst! FromSlice / AsSlice of GlweCiphertext: the transparent wrapper cast
impl<S> GlweCiphertextRef<S> { pub fn as_slice(&self) -> (r: &[Torus<S>]) ensures r@ == self.data@ { &self.data } pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<S>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data } }
impl GlevCiphertextRef<WORD> {
//@fn sunscreen_tfhe/src/entities/glev_ciphertext.rs :: <OverlaySize for GlevCiphertextRef>::size
//@sig pub fn size(t: (GlweDimension, RadixCount)) -> (ret: usize)
    requires gsz(t.0) <= usize::MAX, gsz(t.0) * t.1.0 <= usize::MAX
    ensures ret == gsz(t.0) * t.1.0
//@end
    pub open spec fn wf(&self, p: &GlweDef, cnt: int) -> bool { self.data@.len() == p.sz() * cnt && p.sz() * cnt <= usize::MAX && cnt >= 0 }
//@fn sunscreen_tfhe/src/entities/glev_ciphertext.rs :: GlevCiphertextRef::glwe_ciphertexts
//@sig fn glwe_ciphertexts(&self, params: &GlweDef) -> (ret: GlweCiphertextIterator<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires params.ok(), self.wf(params, self.data@.len() as int / params.sz())
    ensures ret.stride == params.sz(), ret.data@ == self.data@
//@at start
    proof { sz_facts(*params); div_mul(params.sz(), self.data@.len() as int / params.sz()); }
//@end
//@fn sunscreen_tfhe/src/entities/glev_ciphertext.rs :: GlevCiphertextRef::glwe_ciphertexts_mut
//@sig fn glwe_ciphertexts_mut(&mut self, params: &GlweDef) -> (ret: GlweCiphertextIteratorMut<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires params.ok(), old(self).wf(params, old(self).data@.len() as int / params.sz())
    ensures ret.stride == params.sz(), ret.data@ == old(self).data@, final(ret.data)@ == final(self).data@
//@at start
    proof { sz_facts(*params); div_mul(params.sz(), self.data@.len() as int / params.sz()); }
//@end
    // component i of `for x in v.glwe_ciphertexts(params)` / `glwe_ciphertexts_mut`
    pub fn glwe_ciphertexts_count(&self, params: &GlweDef) -> (ret: usize) requires params.ok(), self.wf(params, self.data@.len() as int / params.sz()) ensures ret == self.data@.len() as int / (params.sz()) { proof { sz_facts(*params); div_mul(params.sz(), self.data@.len() as int / params.sz()); } self.glwe_ciphertexts(params).len() }
    pub fn glwe_ciphertexts_at(&self, params: &GlweDef, i: usize) -> (r: &GlweCiphertextRef<WORD>) requires params.ok(), self.wf(params, self.data@.len() as int / params.sz()), i < self.data@.len() as int / (params.sz()) ensures r.data@ == self.data@.subrange(i * (params.sz()), (i + 1) * (params.sz()))
    { proof { sz_facts(*params); div_mul(params.sz(), self.data@.len() as int / params.sz()); chunk_bounds(i as int, params.sz(), self.data@.len() as int / (params.sz())); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.sz()); } self.glwe_ciphertexts(params).chunk(i) }
    pub fn glwe_ciphertexts_mut_at(&mut self, params: &GlweDef, i: usize) -> (r: &mut GlweCiphertextRef<WORD>) requires params.ok(), old(self).wf(params, old(self).data@.len() as int / params.sz()), i < old(self).data@.len() as int / (params.sz())
        ensures r.data@ == old(self).data@.subrange(i * (params.sz()), (i + 1) * (params.sz())),
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * (params.sz())) + final(r).data@ + old(self).data@.subrange((i + 1) * (params.sz()), old(self).data@.len() as int)
    { proof { sz_facts(*params); div_mul(params.sz(), self.data@.len() as int / params.sz()); chunk_bounds(i as int, params.sz(), self.data@.len() as int / (params.sz())); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.sz()); } self.glwe_ciphertexts_mut(params).into_chunk(i) }
}
impl GgswCiphertextRef<WORD> {
    pub open spec fn wf(&self, p: &GlweDef, cnt: int) -> bool { self.data@.len() == (p.sz() * cnt) * (p.k() + 1) && (p.sz() * cnt) * (p.k() + 1) <= usize::MAX && p.sz() * cnt <= usize::MAX }
//@fn sunscreen_tfhe/src/entities/ggsw_ciphertext.rs :: GgswCiphertextRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIterator<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int)
    ensures ret.stride == params.sz() * radix.count.0, ret.data@ == self.data@
//@at start
    proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k() + 1); }
//@end
//@fn sunscreen_tfhe/src/entities/ggsw_ciphertext.rs :: GgswCiphertextRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIteratorMut<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, old(self).wf(params, radix.count.0 as int)
    ensures ret.stride == params.sz() * radix.count.0, ret.data@ == old(self).data@, final(ret.data)@ == final(self).data@
//@at start
    proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k() + 1); }
//@end
    // component i of `for x in v.rows(params, radix)` / `rows_mut`
    pub fn rows_count(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: usize) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int) ensures ret == self.data@.len() as int / (params.sz() * radix.count.0) { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k() + 1); } self.rows(params, radix).len() }
    pub fn rows_at(&self, params: &GlweDef, radix: &RadixDecomposition, i: usize) -> (r: &GlevCiphertextRef<WORD>) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int), i < self.data@.len() as int / (params.sz() * radix.count.0) ensures r.data@ == self.data@.subrange(i * (params.sz() * radix.count.0), (i + 1) * (params.sz() * radix.count.0))
    { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k() + 1); chunk_bounds(i as int, params.sz() * radix.count.0, self.data@.len() as int / (params.sz() * radix.count.0)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.sz() * radix.count.0); } self.rows(params, radix).chunk(i) }
    pub fn rows_mut_at(&mut self, params: &GlweDef, radix: &RadixDecomposition, i: usize) -> (r: &mut GlevCiphertextRef<WORD>) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, old(self).wf(params, radix.count.0 as int), i < old(self).data@.len() as int / (params.sz() * radix.count.0)
        ensures r.data@ == old(self).data@.subrange(i * (params.sz() * radix.count.0), (i + 1) * (params.sz() * radix.count.0)),
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * (params.sz() * radix.count.0)) + final(r).data@ + old(self).data@.subrange((i + 1) * (params.sz() * radix.count.0), old(self).data@.len() as int)
    { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k() + 1); chunk_bounds(i as int, params.sz() * radix.count.0, self.data@.len() as int / (params.sz() * radix.count.0)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.sz() * radix.count.0); } self.rows_mut(params, radix).into_chunk(i) }
}
impl GlweKeyswitchKeyRef<WORD> {
    pub open spec fn wf(&self, p: &GlweDef, cnt: int) -> bool { self.data@.len() == (p.sz() * cnt) * (p.k()) && (p.sz() * cnt) * (p.k()) <= usize::MAX && p.sz() * cnt <= usize::MAX }
//@fn sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs :: GlweKeyswitchKeyRef::rows
//@sig fn rows(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIterator<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int)
    ensures ret.stride == params.sz() * radix.count.0, ret.data@ == self.data@
//@at start
    proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k()); }
//@end
//@fn sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs :: GlweKeyswitchKeyRef::rows_mut
//@sig fn rows_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIteratorMut<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, old(self).wf(params, radix.count.0 as int)
    ensures ret.stride == params.sz() * radix.count.0, ret.data@ == old(self).data@, final(ret.data)@ == final(self).data@
//@at start
    proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k()); }
//@end
    // component i of `for x in v.rows(params, radix)` / `rows_mut`
    pub fn rows_count(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: usize) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int) ensures ret == self.data@.len() as int / (params.sz() * radix.count.0) { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k()); } self.rows(params, radix).len() }
    pub fn rows_at(&self, params: &GlweDef, radix: &RadixDecomposition, i: usize) -> (r: &GlevCiphertextRef<WORD>) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int), i < self.data@.len() as int / (params.sz() * radix.count.0) ensures r.data@ == self.data@.subrange(i * (params.sz() * radix.count.0), (i + 1) * (params.sz() * radix.count.0))
    { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k()); chunk_bounds(i as int, params.sz() * radix.count.0, self.data@.len() as int / (params.sz() * radix.count.0)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.sz() * radix.count.0); } self.rows(params, radix).chunk(i) }
    pub fn rows_mut_at(&mut self, params: &GlweDef, radix: &RadixDecomposition, i: usize) -> (r: &mut GlevCiphertextRef<WORD>) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, old(self).wf(params, radix.count.0 as int), i < old(self).data@.len() as int / (params.sz() * radix.count.0)
        ensures r.data@ == old(self).data@.subrange(i * (params.sz() * radix.count.0), (i + 1) * (params.sz() * radix.count.0)),
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * (params.sz() * radix.count.0)) + final(r).data@ + old(self).data@.subrange((i + 1) * (params.sz() * radix.count.0), old(self).data@.len() as int)
    { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1;  div_mul(st, params.k()); chunk_bounds(i as int, params.sz() * radix.count.0, self.data@.len() as int / (params.sz() * radix.count.0)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.sz() * radix.count.0); } self.rows_mut(params, radix).into_chunk(i) }
}
pub open spec fn tri(k: int) -> int { (k * (k + 1)) / 2 }
pub proof fn tri_nn(k: int) requires k >= 0 ensures tri(k) >= 0, k * (k + 1) >= 0 { assert(k * (k + 1) >= 0) by (nonlinear_arith) requires k >= 0; }
impl SchemeSwitchKeyRef<WORD> {
    pub open spec fn wf(&self, p: &GlweDef, cnt: int) -> bool { self.data@.len() == (p.sz() * cnt) * (tri(p.k())) && (p.sz() * cnt) * (tri(p.k())) <= usize::MAX && p.sz() * cnt <= usize::MAX }
//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: SchemeSwitchKeyRef::glev_ciphertexts
//@sig fn glev_ciphertexts(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIterator<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int)
    ensures ret.stride == params.sz() * radix.count.0, ret.data@ == self.data@
//@at start
    proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1; tri_nn(params.k()); div_mul(st, tri(params.k())); }
//@end
//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: SchemeSwitchKeyRef::glev_ciphertexts_mut
//@sig fn glev_ciphertexts_mut(&mut self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: GlevCiphertextIteratorMut<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, old(self).wf(params, radix.count.0 as int)
    ensures ret.stride == params.sz() * radix.count.0, ret.data@ == old(self).data@, final(ret.data)@ == final(self).data@
//@at start
    proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1; tri_nn(params.k()); div_mul(st, tri(params.k())); }
//@end
    // component i of `for x in v.glev_ciphertexts(params, radix)` / `glev_ciphertexts_mut`
    pub fn glev_ciphertexts_count(&self, params: &GlweDef, radix: &RadixDecomposition) -> (ret: usize) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int) ensures ret == self.data@.len() as int / (params.sz() * radix.count.0) { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1; tri_nn(params.k()); div_mul(st, tri(params.k())); } self.glev_ciphertexts(params, radix).len() }
    pub fn glev_ciphertexts_at(&self, params: &GlweDef, radix: &RadixDecomposition, i: usize) -> (r: &GlevCiphertextRef<WORD>) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, self.wf(params, radix.count.0 as int), i < self.data@.len() as int / (params.sz() * radix.count.0) ensures r.data@ == self.data@.subrange(i * (params.sz() * radix.count.0), (i + 1) * (params.sz() * radix.count.0))
    { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1; tri_nn(params.k()); div_mul(st, tri(params.k())); chunk_bounds(i as int, params.sz() * radix.count.0, self.data@.len() as int / (params.sz() * radix.count.0)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.sz() * radix.count.0); } self.glev_ciphertexts(params, radix).chunk(i) }
    pub fn glev_ciphertexts_mut_at(&mut self, params: &GlweDef, radix: &RadixDecomposition, i: usize) -> (r: &mut GlevCiphertextRef<WORD>) requires params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, old(self).wf(params, radix.count.0 as int), i < old(self).data@.len() as int / (params.sz() * radix.count.0)
        ensures r.data@ == old(self).data@.subrange(i * (params.sz() * radix.count.0), (i + 1) * (params.sz() * radix.count.0)),
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * (params.sz() * radix.count.0)) + final(r).data@ + old(self).data@.subrange((i + 1) * (params.sz() * radix.count.0), old(self).data@.len() as int)
    { proof { sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1; tri_nn(params.k()); div_mul(st, tri(params.k())); chunk_bounds(i as int, params.sz() * radix.count.0, self.data@.len() as int / (params.sz() * radix.count.0)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.sz() * radix.count.0); } self.glev_ciphertexts_mut(params, radix).into_chunk(i) }
}
// scratch buffers: some contents of the requested length
#[verifier::external_body] pub fn scratch_poly<T>(n: usize) -> (r: &'static mut PolynomialRef<T>) ensures r.data@.len() == n { unimplemented!() }
pub fn scratch_polynomial<T>(d: PolynomialDegree) -> (r: &'static mut PolynomialRef<T>) ensures r.data@.len() == d.0 { scratch_poly(PolynomialRef::<T>::size(d)) }
#[verifier::external_body] pub fn scratch_glwe_n(n: usize) -> (r: &'static mut GlweCiphertextRef<WORD>) ensures r.data@.len() == n { unimplemented!() }
pub fn scratch_glwe(d: GlweDimension) -> (r: &'static mut GlweCiphertextRef<WORD>) requires gsz(d) <= usize::MAX ensures r.data@.len() == gsz(d) { scratch_glwe_n(GlweCiphertextRef::<WORD>::size(d)) }
// owned, zeroed values
#[verifier::external_body] pub fn zero_digits(n: usize) -> (r: &'static mut PolynomialRef<WORD>) ensures r.data@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r.data@[i] == 0 { unimplemented!() }
#[verifier::external_body] pub fn zero_glwe(p: &GlweDef) -> (r: &'static mut GlweCiphertextRef<WORD>) requires p.ok() ensures r.wf(p), forall|i: int| 0 <= i < r.data@.len() ==> (#[trigger] r.data@[i]).0 == 0 { unimplemented!() }
} // verus!
