//@include ../prelude/base.rs
use core::mem::size_of;
use core::mem::align_of;
verus! {
global size_of usize == 8;
use vstd::arithmetic::power2::*;
pub open spec fn ispow2(n: int) -> bool { exists|m: nat| #[trigger] pow2(m) == n }
/// every alignment is a power of two
#[verifier::external_body] pub proof fn align_pow2<T>() ensures ispow2(vstd::layout::align_of::<T>() as int), vstd::layout::align_of::<T>() >= 1, vstd::layout::align_of::<T>() <= usize::MAX { }
pub proof fn pow2_multiple(a: int, b: int) requires ispow2(a), ispow2(b), a <= b ensures a >= 1, b % a == 0
{
    let m = choose|m: nat| pow2(m) == a; let k = choose|k: nat| pow2(k) == b; lemma_pow2_pos(m);
    if k < m { lemma_pow2_strictly_increases(k, m); }
    lemma_pow2_adds(m, (k - m) as nat); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(pow2((k - m) as nat) as int, a); assert(b == pow2((k - m) as nat) * a) by (nonlinear_arith) requires b == a * pow2((k - m) as nat);
}
pub proof fn aligned_down(x: int, a: int, b: int) requires ispow2(a), ispow2(b), a <= b, x >= 0, x % b == 0 ensures a >= 1, x % a == 0
{
    pow2_multiple(a, b); let q = x / b; let r = b / a; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, a);
    assert(x == (r * q) * a) by (nonlinear_arith) requires x == b * q, b == a * r; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(r * q, a);
}
pub const SIMD_ALIGN: usize = 64; // align_of::<__m512d>()
/// a raw pointer to an Allocation
#[derive(Copy, Clone)] pub struct Ptr(pub usize);
/// AVec<u8, RuntimeAlign>: where it lies, how long it is, what it is aligned to
pub struct AVecM { pub base: usize, pub length: usize, pub align: usize }
impl AVecM {
    pub open spec fn ok(&self) -> bool { ispow2(self.align as int) && self.align >= 1 && self.base as int % self.align as int == 0 && self.base + self.length <= usize::MAX }
    pub open spec fn apart(&self, o: &AVecM) -> bool { self.length == 0 || o.length == 0 || self.base + self.length <= o.base || o.base + o.length <= self.base }
    pub fn alignment(&self) -> (r: usize) ensures r == self.align { self.align }
    pub fn len(&self) -> (r: usize) ensures r == self.length { self.length }
    pub fn as_slice(&self) -> (r: &AVecM) ensures *r == *self { self }
    pub fn as_mut_slice(&self) -> (r: &AVecM) ensures *r == *self { self }
    pub fn as_mut_ptr(&self) -> (r: &AVecM) ensures *r == *self { self }
    pub fn as_ptr(&self) -> (r: &AVecM) ensures *r == *self { self }
    pub fn cast(&self) -> (r: &AVecM) ensures *r == *self { self }
}
pub struct Allocation { pub data: AVecM }
/// the heap: which allocations exist, and which of them the pool holds (in order)
pub struct Mem { pub heap: Ghost<Map<usize, AVecM>>, pub free: Ghost<Seq<usize>> }
impl Mem {
    /// allocations are well formed and pairwise apart (the allocator's promise); the pool holds existing ones, each once
    pub open spec fn inv(&self) -> bool {
        &&& forall|p: usize| self.heap@.contains_key(p) ==> (#[trigger] self.heap@[p]).ok()
        &&& forall|p: usize, q: usize| self.heap@.contains_key(p) && self.heap@.contains_key(q) && p != q ==> (#[trigger] self.heap@[p]).apart(#[trigger] &self.heap@[q])
        &&& forall|i: int| 0 <= i < self.free@.len() ==> self.heap@.contains_key(#[trigger] self.free@[i])
        &&& forall|i: int, j: int| 0 <= i < j < self.free@.len() ==> #[trigger] self.free@[i] != #[trigger] self.free@[j]
    }
    pub open spec fn pooled(&self, p: usize) -> bool { exists|i: int| 0 <= i < self.free@.len() && #[trigger] self.free@[i] == p }
    /// p is in use: it exists and the pool does not hold it
    pub open spec fn live(&self, p: usize) -> bool { self.heap@.contains_key(p) && !self.pooled(p) }
    // LinkedList::pop_back / push_back
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<Ptr>)
        ensures final(self).heap@ == old(self).heap@, match r { None => old(self).free@.len() == 0 && final(self).free@ == old(self).free@, Some(p) => old(self).free@.len() > 0 && p.0 == old(self).free@.last() && final(self).free@ == old(self).free@.drop_last() } { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, p: Ptr) ensures final(self).heap@ == old(self).heap@, final(self).free@ == old(self).free@.push(p.0) { unimplemented!() }
    // dereference of a raw pointer: only to an allocation that exists
    #[verifier::external_body] pub fn at(&self, p: Ptr) -> (r: &Allocation) requires self.heap@.contains_key(p.0) ensures r.data == self.heap@[p.0] { unimplemented!() }
    // avec_rt!([align]| 0u8; len): the allocator hands out a region apart from every existing one
    #[verifier::external_body] pub fn avec(&mut self, align: usize, len: usize) -> (r: AVecM) requires ispow2(align as int) ensures *final(self) == *old(self), r.ok(), r.align == align, r.length == len, forall|q: usize| old(self).heap@.contains_key(q) ==> r.apart(#[trigger] &old(self).heap@[q]) && old(self).heap@[q].apart(&r) { unimplemented!() }
    #[verifier::external_body] pub fn into_raw(&mut self, a: Allocation) -> (r: Ptr) ensures !old(self).heap@.contains_key(r.0), final(self).heap@ == old(self).heap@.insert(r.0, a.data), final(self).free@ == old(self).free@ { unimplemented!() }
    // Box::from_raw gives up the pointer: nobody may use it any more
    #[verifier::external_body] pub fn from_raw(&mut self, p: Ptr) -> (r: Allocation) requires old(self).heap@.contains_key(p.0), !old(self).pooled(p.0) ensures final(self).heap@ == old(self).heap@.remove(p.0), final(self).free@ == old(self).free@ { unimplemented!() }
}
pub fn drop_it(a: Allocation) { }
pub fn boxed(a: Allocation) -> (r: Allocation) ensures r == a { a }
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
/// &[T] over raw memory
pub struct SliceM { pub base: usize, pub count: usize }
#[verifier::external_body] pub fn raw_slice<T>(d: &AVecM, n: usize) -> (r: SliceM) requires n * vstd::layout::size_of::<T>() <= d.length, d.base as nat % vstd::layout::align_of::<T>() == 0 ensures r.base == d.base, r.count == n { unimplemented!() }
pub proof fn p64() ensures ispow2(64) { lemma2_to64(); assert(pow2(6) == 64); }
pub struct Scratch { }
pub struct ScratchBuffer<T> { pub allocation: Ptr, pub requested_len: usize, pub ph: core::marker::PhantomData<T> }
impl<T> ScratchBuffer<T> {
    /// the buffer owns a live allocation large enough and aligned for its elements and for vector instructions
    pub open spec fn inv(&self, mem: &Mem) -> bool {
        let d = mem.heap@[self.allocation.0];
        mem.live(self.allocation.0) && self.requested_len * vstd::layout::size_of::<T>() <= d.length && d.base as nat % vstd::layout::align_of::<T>() == 0 && d.base % SIMD_ALIGN == 0 && vstd::layout::size_of::<T>() > 0
    }
//@fn sunscreen_tfhe/src/scratch.rs :: ScratchBuffer::as_slice
//@sig fn as_slice(&self, mem: &Mem) -> (ret: SliceM)
//@presub "(*self.allocation).data" => "mem.at(self.allocation).data"
//@presub "std::slice::from_raw_parts(" => "raw_slice::<T>("
    requires mem.inv(), self.inv(mem)
    ensures ret.count == self.requested_len, ret.base == mem.heap@[self.allocation.0].base
//@at start
    proof { let d = mem.heap@[self.allocation.0]; let z = vstd::layout::size_of::<T>() as int; vstd::arithmetic::div_mod::lemma_div_is_ordered(self.requested_len * z, d.length as int, z); vstd::arithmetic::div_mod::lemma_div_by_multiple(self.requested_len as int, z); }
//@end
//@fn sunscreen_tfhe/src/scratch.rs :: ScratchBuffer::as_mut_slice
//@sig fn as_mut_slice(&mut self, mem: &mut Mem) -> (ret: SliceM)
//@presub "(*self.allocation).data" => "mem.at(self.allocation).data"
//@presub "std::slice::from_raw_parts_mut(" => "raw_slice::<T>("
    requires old(mem).inv(), old(self).inv(&*old(mem))
    ensures ret.count == final(self).requested_len, ret.base == old(mem).heap@[old(self).allocation.0].base, *final(mem) == *old(mem), *final(self) == *old(self)
//@at start
    proof { let d = mem.heap@[self.allocation.0]; let z = vstd::layout::size_of::<T>() as int; vstd::arithmetic::div_mod::lemma_div_is_ordered(self.requested_len * z, d.length as int, z); vstd::arithmetic::div_mod::lemma_div_by_multiple(self.requested_len as int, z); }
//@end
//@fn sunscreen_tfhe/src/scratch.rs :: <Drop for ScratchBuffer>::drop
//@rename drop_buffer
//@sig fn drop_buffer(self, mem: &mut Mem)
//@presub "self.pool.borrow_mut()" => "mem"
    requires old(mem).inv(), self.inv(&*old(mem))
    ensures final(mem).inv(), final(mem).heap@ == old(mem).heap@, forall|p: usize| final(mem).live(p) <==> old(mem).live(p) && p != self.allocation.0
//@at end
    proof { let f0 = old(mem).free@; let f1 = mem.free@; assert(f1[f0.len() as int] == self.allocation.0);
        assert forall|p: usize| old(mem).live(p) && p != self.allocation.0 implies #[trigger] mem.live(p) by {}
        assert forall|p: usize| #[trigger] mem.live(p) implies old(mem).live(p) && p != self.allocation.0 by { if old(mem).pooled(p) { let i = choose|i: int| 0 <= i < f0.len() && f0[i] == p; assert(f1[i] == p); } } }
//@end
}
impl Scratch {
//@fn sunscreen_tfhe/src/scratch.rs :: Scratch::allocate
//@sig fn allocate<T>(&mut self, mem: &mut Mem, count: usize) -> (ret: ScratchBuffer<T>)
//@presub "avec_rt!([alignment]| u8::default(); u8_len)" => "mem.avec(alignment, u8_len)"
//@presub "self.stack.borrow_mut().pop_back()" => "mem.pop_back()"
//@presub "(*allocation.unwrap()).data" => "mem.at(allocation.unwrap()).data"
//@presub "Box::into_raw(allocation)" => "mem.into_raw(allocation)"
//@presub "Box::from_raw(allocation)" => "mem.from_raw(allocation)"
//@presub "Box::new(allocation)" => "boxed(allocation)"
//@presub "std::mem::drop(" => "drop_it("
//@presub "usize::max(" => "usize_max("
//@sub "pool: self.stack.clone()," => ""
//@sub "_phantom: PhantomData," => "ph: core::marker::PhantomData,"
    requires old(mem).inv(), vstd::layout::size_of::<T>() > 0, count * vstd::layout::size_of::<T>() <= isize::MAX
    ensures final(mem).inv(), ret.inv(&*final(mem)), ret.requested_len == count, !old(mem).live(ret.allocation.0),
        forall|p: usize| old(mem).live(p) ==> #[trigger] final(mem).live(p) && final(mem).heap@[p] == old(mem).heap@[p], forall|p: usize| #[trigger] final(mem).live(p) ==> old(mem).live(p) || p == ret.allocation.0
//@at start
    proof { align_pow2::<T>(); p64(); lemma_pow2_pos(6); lemma2_to64(); }
//@at end-bind
    proof { let d = mem.heap@[__r.allocation.0]; aligned_down(d.base as int, vstd::layout::align_of::<T>() as int, d.align as int); aligned_down(d.base as int, 64, d.align as int);
        let f0 = old(mem).free@; assert forall|p: usize| #[trigger] mem.live(p) && p != __r.allocation.0 implies old(mem).live(p) by { if old(mem).pooled(p) { let i = choose|i: int| 0 <= i < f0.len() && f0[i] == p; if i < f0.len() - 1 { assert(mem.free@[i] == p); } } } }
//@end
}
} // verus!
fn main() {}
