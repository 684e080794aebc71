//@iter chunks chunk_at n_chunks
verus! {
// shared encrypted bits: Vec<Arc<AtomicRefCell<..>>> operations, trusted to move the handles they name
impl CtBits {
    /// the shared encrypted bits, by name
    pub open spec fn bits(&self) -> Seq<int> { self.b@ }
    pub fn new() -> (r: CtBits) ensures r.bits() == Seq::<int>::empty() { CtBits { b: Ghost(Seq::empty()) } }
    #[verifier::external_body] pub fn clone(&self) -> (r: CtBits) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: CtBits) ensures r == *self { unimplemented!() }
    pub fn append(&mut self, o: &mut CtBits) ensures final(self).bits() == old(self).bits() + old(o).bits(), final(o).bits() == Seq::<int>::empty() { self.b = Ghost(self.b@ + o.b@); o.b = Ghost(Seq::empty()); }
    pub fn slice(&self, lo: usize, hi: usize) -> (r: CtBits) requires lo <= hi <= self.bits().len() ensures r.bits() == self.bits().subrange(lo as int, hi as int) { CtBits { b: Ghost(self.b@.subrange(lo as int, hi as int)) } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.bits().len() { unimplemented!() }
    /// slice::chunks, whose last chunk may be shorter
    #[verifier::external_body] pub fn n_chunks(&self, k: usize) -> (r: usize) requires k > 0 ensures r == (self.bits().len() + k - 1) / (k as int) { unimplemented!() }
    #[verifier::external_body] pub fn chunk_at(&self, k: usize, i: usize) -> (r: CtBits) requires k > 0, 0 <= i < (self.bits().len() + k - 1) / (k as int) ensures r.bits() == self.bits().subrange(i * k, if i * k + k <= self.bits().len() { i * k + k } else { self.bits().len() as int }) { unimplemented!() }
}
impl Byte {
    /// a byte has eight bits
//@fn parasol_cpu/src/memory/mod.rs :: <TryFrom<Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>> for Byte>::try_from
//@sig pub fn try_from(value: CtBits) -> (ret: Result<Byte>)
//@sub "Self::Ciphertext(value)" => "Byte::Ciphertext(value)"
    ensures ret is Ok <==> value.bits().len() == 8, ret is Ok ==> ret->Ok_0 == Byte::Ciphertext(value)
//@end
}
} // verus!
