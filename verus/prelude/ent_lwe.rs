// generated by verus/gen/entities.py
verus! {
impl LweCiphertextRef<WORD> {
//@fn sunscreen_tfhe/src/entities/lwe_ciphertext.rs :: <OverlaySize for LweCiphertextRef>::size
//@sig pub fn size(t: LweDimension) -> (ret: usize)
    requires t.0 < usize::MAX
    ensures ret == t.0 + 1
//@end
}
pub struct LevCiphertextRef<S> { pub data: [Torus<S>] }
 pub struct LweKeyswitchKeyRef<S> { pub data: [Torus<S>] }

/// dst_iter! iterators over LweCiphertext: component i is the i-th chunk of `stride` words (next/next_back/len are property T13)
pub struct LweCiphertextIterator<'a, S> { pub data: &'a [Torus<S>], pub stride: usize }
impl<'a, S> LweCiphertextIterator<'a, S> {
    #[verifier::external_body] pub fn new(data: &'a [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, data@.len() % stride as nat == 0 ensures r.data@ == data@, r.stride == stride { LweCiphertextIterator { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.data@.len() / self.stride as nat { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&self, i: usize) -> (r: &'a LweCiphertextRef<S>) requires (i + 1) * self.stride <= self.data@.len() ensures r.data@ == self.data@.subrange(i * self.stride, (i + 1) * self.stride) { unimplemented!() }
}
pub struct LweCiphertextIteratorMut<'a, S> { pub data: &'a mut [Torus<S>], pub stride: usize }
impl<'a, S> LweCiphertextIteratorMut<'a, S> {
    pub open spec fn cur(&self) -> Seq<Torus<S>> { self.data@ }
    pub open spec fn cnt(&self) -> nat { self.data@.len() / self.stride as nat }
    #[verifier::external_body] pub fn new(data: &'a mut [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, old(data)@.len() % stride as nat == 0 ensures r.data@ == old(data)@, final(r.data)@ == final(data)@, r.stride == stride { LweCiphertextIteratorMut { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.cnt() { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&mut self, i: usize) -> (r: &mut LweCiphertextRef<S>) requires (i + 1) * old(self).stride <= old(self).data@.len()
        ensures r.data@ == old(self).data@.subrange(i * old(self).stride, (i + 1) * old(self).stride), final(self).stride == old(self).stride, final(final(self).data)@ == final(old(self).data)@,
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * old(self).stride) + final(r).data@ + old(self).data@.subrange((i + 1) * old(self).stride, old(self).data@.len() as int)
    { unimplemented!() }
    #[verifier::external_body] pub fn into_chunk(self, i: usize) -> (r: &'a mut LweCiphertextRef<S>) requires (i + 1) * self.stride <= self.cur().len()
        ensures r.data@ == self.cur().subrange(i * self.stride, (i + 1) * self.stride),
            final(r).data@.len() == r.data@.len() ==> final(self.data)@ == self.cur().subrange(0, i * self.stride) + final(r).data@ + self.cur().subrange((i + 1) * self.stride, self.cur().len() as int)
    { unimplemented!() }
}

/// dst_iter! iterators over LevCiphertext: component i is the i-th chunk of `stride` words (next/next_back/len are property T13)
pub struct LevCiphertextIterator<'a, S> { pub data: &'a [Torus<S>], pub stride: usize }
impl<'a, S> LevCiphertextIterator<'a, S> {
    #[verifier::external_body] pub fn new(data: &'a [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, data@.len() % stride as nat == 0 ensures r.data@ == data@, r.stride == stride { LevCiphertextIterator { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.data@.len() / self.stride as nat { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&self, i: usize) -> (r: &'a LevCiphertextRef<S>) requires (i + 1) * self.stride <= self.data@.len() ensures r.data@ == self.data@.subrange(i * self.stride, (i + 1) * self.stride) { unimplemented!() }
}
pub struct LevCiphertextIteratorMut<'a, S> { pub data: &'a mut [Torus<S>], pub stride: usize }
impl<'a, S> LevCiphertextIteratorMut<'a, S> {
    pub open spec fn cur(&self) -> Seq<Torus<S>> { self.data@ }
    pub open spec fn cnt(&self) -> nat { self.data@.len() / self.stride as nat }
    #[verifier::external_body] pub fn new(data: &'a mut [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, old(data)@.len() % stride as nat == 0 ensures r.data@ == old(data)@, final(r.data)@ == final(data)@, r.stride == stride { LevCiphertextIteratorMut { data, stride } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.cnt() { self.data.len() / self.stride }
    #[verifier::external_body] pub fn chunk(&mut self, i: usize) -> (r: &mut LevCiphertextRef<S>) requires (i + 1) * old(self).stride <= old(self).data@.len()
        ensures r.data@ == old(self).data@.subrange(i * old(self).stride, (i + 1) * old(self).stride), final(self).stride == old(self).stride, final(final(self).data)@ == final(old(self).data)@,
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * old(self).stride) + final(r).data@ + old(self).data@.subrange((i + 1) * old(self).stride, old(self).data@.len() as int)
    { unimplemented!() }
    #[verifier::external_body] pub fn into_chunk(self, i: usize) -> (r: &'a mut LevCiphertextRef<S>) requires (i + 1) * self.stride <= self.cur().len()
        ensures r.data@ == self.cur().subrange(i * self.stride, (i + 1) * self.stride),
            final(r).data@.len() == r.data@.len() ==> final(self.data)@ == self.cur().subrange(0, i * self.stride) + final(r).data@ + self.cur().subrange((i + 1) * self.stride, self.cur().len() as int)
    { unimplemented!() }
}
impl LevCiphertextRef<WORD> {
//@fn sunscreen_tfhe/src/entities/lev_ciphertext.rs :: <OverlaySize for LevCiphertextRef>::size
//@sig pub fn size(t: (LweDimension, RadixCount)) -> (ret: usize)
    requires t.0.0 < usize::MAX, (t.0.0 + 1) * t.1.0 <= usize::MAX
    ensures ret == (t.0.0 + 1) * t.1.0
//@end
    pub open spec fn wf(&self, p: &LweDef, cnt: int) -> bool { self.data@.len() == (p.dim.0 + 1) * cnt && cnt >= 0 && p.dim.0 < usize::MAX }
//@fn sunscreen_tfhe/src/entities/lev_ciphertext.rs :: LevCiphertextRef::lwe_ciphertexts
//@sig fn lwe_ciphertexts(&self, params: &LweDef) -> (ret: LweCiphertextIterator<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires self.wf(params, self.data@.len() as int / (params.dim.0 + 1))
    ensures ret.stride == params.dim.0 + 1, ret.data@ == self.data@
//@at start
    proof { div_mul(params.dim.0 + 1, self.data@.len() as int / (params.dim.0 + 1)); }
//@end
//@fn sunscreen_tfhe/src/entities/lev_ciphertext.rs :: LevCiphertextRef::lwe_ciphertexts_mut
//@sig fn lwe_ciphertexts_mut(&mut self, params: &LweDef) -> (ret: LweCiphertextIteratorMut<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires old(self).wf(params, old(self).data@.len() as int / (params.dim.0 + 1))
    ensures ret.stride == params.dim.0 + 1, ret.data@ == old(self).data@, final(ret.data)@ == final(self).data@
//@at start
    proof { div_mul(params.dim.0 + 1, self.data@.len() as int / (params.dim.0 + 1)); }
//@end
    // component i of `for x in v.lwe_ciphertexts(params)` / `lwe_ciphertexts_mut`
    pub fn lwe_ciphertexts_count(&self, params: &LweDef) -> (ret: usize) requires self.wf(params, self.data@.len() as int / (params.dim.0 + 1)) ensures ret == self.data@.len() as int / (params.dim.0 + 1) { proof { div_mul(params.dim.0 + 1, self.data@.len() as int / (params.dim.0 + 1)); } self.lwe_ciphertexts(params).len() }
    pub fn lwe_ciphertexts_at(&self, params: &LweDef, i: usize) -> (r: &LweCiphertextRef<WORD>) requires self.wf(params, self.data@.len() as int / (params.dim.0 + 1)), i < self.data@.len() as int / (params.dim.0 + 1) ensures r.data@ == self.data@.subrange(i * (params.dim.0 + 1), (i + 1) * (params.dim.0 + 1))
    { proof { div_mul(params.dim.0 + 1, self.data@.len() as int / (params.dim.0 + 1)); chunk_bounds(i as int, params.dim.0 + 1, self.data@.len() as int / (params.dim.0 + 1)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.dim.0 + 1); } self.lwe_ciphertexts(params).chunk(i) }
    pub fn lwe_ciphertexts_mut_at(&mut self, params: &LweDef, i: usize) -> (r: &mut LweCiphertextRef<WORD>) requires old(self).wf(params, old(self).data@.len() as int / (params.dim.0 + 1)), i < old(self).data@.len() as int / (params.dim.0 + 1)
        ensures r.data@ == old(self).data@.subrange(i * (params.dim.0 + 1), (i + 1) * (params.dim.0 + 1)),
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * (params.dim.0 + 1)) + final(r).data@ + old(self).data@.subrange((i + 1) * (params.dim.0 + 1), old(self).data@.len() as int)
    { proof { div_mul(params.dim.0 + 1, self.data@.len() as int / (params.dim.0 + 1)); chunk_bounds(i as int, params.dim.0 + 1, self.data@.len() as int / (params.dim.0 + 1)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, params.dim.0 + 1); } self.lwe_ciphertexts_mut(params).into_chunk(i) }
}
impl LweKeyswitchKeyRef<WORD> {
    pub open spec fn wf(&self, rows: int, p: &LweDef, cnt: int) -> bool { self.data@.len() == ((p.dim.0 + 1) * cnt) * rows && rows >= 0 && p.dim.0 < usize::MAX && (p.dim.0 + 1) * cnt <= usize::MAX }
//@fn sunscreen_tfhe/src/entities/lwe_keyswitch_key.rs :: LweKeyswitchKeyRef::rows
//@sig fn rows(&self, new_params: &LweDef, radix: &RadixDecomposition) -> (ret: LevCiphertextIterator<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires radix.count.0 >= 1, self.wf(self.data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0), new_params, radix.count.0 as int)
    ensures ret.stride == (new_params.dim.0 + 1) * radix.count.0, ret.data@ == self.data@
//@at start
    proof { let st = (new_params.dim.0 + 1) * radix.count.0; assert(st >= 1) by (nonlinear_arith) requires st == (new_params.dim.0 + 1) * radix.count.0, radix.count.0 >= 1; div_mul(st, self.data@.len() as int / st); }
//@end
//@fn sunscreen_tfhe/src/entities/lwe_keyswitch_key.rs :: LweKeyswitchKeyRef::rows_mut
//@sig fn rows_mut(&mut self, new_params: &LweDef, radix: &RadixDecomposition) -> (ret: LevCiphertextIteratorMut<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires radix.count.0 >= 1, old(self).wf(old(self).data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0), new_params, radix.count.0 as int)
    ensures ret.stride == (new_params.dim.0 + 1) * radix.count.0, ret.data@ == old(self).data@, final(ret.data)@ == final(self).data@
//@at start
    proof { let st = (new_params.dim.0 + 1) * radix.count.0; assert(st >= 1) by (nonlinear_arith) requires st == (new_params.dim.0 + 1) * radix.count.0, radix.count.0 >= 1; div_mul(st, self.data@.len() as int / st); }
//@end
    // component i of `for x in v.rows(new_params, radix)` / `rows_mut`
    pub fn rows_count(&self, new_params: &LweDef, radix: &RadixDecomposition) -> (ret: usize) requires radix.count.0 >= 1, self.wf(self.data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0), new_params, radix.count.0 as int) ensures ret == self.data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0) { proof { let st = (new_params.dim.0 + 1) * radix.count.0; assert(st >= 1) by (nonlinear_arith) requires st == (new_params.dim.0 + 1) * radix.count.0, radix.count.0 >= 1; div_mul(st, self.data@.len() as int / st); } self.rows(new_params, radix).len() }
    pub fn rows_at(&self, new_params: &LweDef, radix: &RadixDecomposition, i: usize) -> (r: &LevCiphertextRef<WORD>) requires radix.count.0 >= 1, self.wf(self.data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0), new_params, radix.count.0 as int), i < self.data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0) ensures r.data@ == self.data@.subrange(i * ((new_params.dim.0 + 1) * radix.count.0), (i + 1) * ((new_params.dim.0 + 1) * radix.count.0))
    { proof { let st = (new_params.dim.0 + 1) * radix.count.0; assert(st >= 1) by (nonlinear_arith) requires st == (new_params.dim.0 + 1) * radix.count.0, radix.count.0 >= 1; div_mul(st, self.data@.len() as int / st); chunk_bounds(i as int, (new_params.dim.0 + 1) * radix.count.0, self.data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, (new_params.dim.0 + 1) * radix.count.0); } self.rows(new_params, radix).chunk(i) }
    pub fn rows_mut_at(&mut self, new_params: &LweDef, radix: &RadixDecomposition, i: usize) -> (r: &mut LevCiphertextRef<WORD>) requires radix.count.0 >= 1, old(self).wf(old(self).data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0), new_params, radix.count.0 as int), i < old(self).data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0)
        ensures r.data@ == old(self).data@.subrange(i * ((new_params.dim.0 + 1) * radix.count.0), (i + 1) * ((new_params.dim.0 + 1) * radix.count.0)),
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * ((new_params.dim.0 + 1) * radix.count.0)) + final(r).data@ + old(self).data@.subrange((i + 1) * ((new_params.dim.0 + 1) * radix.count.0), old(self).data@.len() as int)
    { proof { let st = (new_params.dim.0 + 1) * radix.count.0; assert(st >= 1) by (nonlinear_arith) requires st == (new_params.dim.0 + 1) * radix.count.0, radix.count.0 >= 1; div_mul(st, self.data@.len() as int / st); chunk_bounds(i as int, (new_params.dim.0 + 1) * radix.count.0, self.data@.len() as int / ((new_params.dim.0 + 1) * radix.count.0)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, (new_params.dim.0 + 1) * radix.count.0); } self.rows_mut(new_params, radix).into_chunk(i) }
}
} // verus!
