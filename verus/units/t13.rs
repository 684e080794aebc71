// T13: component iterators (dst_iter!), entity sizes and component accessors
//@include ../prelude/base.rs
verus! {
global size_of usize == 8;
pub type NoWrapper<T> = T;
pub struct PolynomialRef<T> { pub data: [T] }
/// dst! FromSlice / FromMutSlice: the transparent wrapper cast. A mutable component is the range of the storage it names.
pub struct Part { pub lo: Ghost<int>, pub len: Ghost<int> }
pub mod dst { use super::*;
    pub trait FromSlice<T> { spec fn sv(&self) -> Seq<T>; fn from_slice(s: &[T]) -> (r: &Self) ensures r.sv() == s@; }
    pub trait FromMutSlice<T> { fn from_mut_slice(s: Part) -> (r: Part) ensures r == s; }
}
impl<T> dst::FromSlice<T> for PolynomialRef<T> { open spec fn sv(&self) -> Seq<T> { self.data@ }
    #[verifier::external_body] fn from_slice(s: &[T]) -> (r: &PolynomialRef<T>) { unsafe { &*(s as *const [T] as *const PolynomialRef<T>) } } }
impl<T> dst::FromMutSlice<T> for PolynomialRef<T> { fn from_mut_slice(s: Part) -> (r: Part) { s } }
pub open spec fn chunk<T>(d: Seq<T>, s: int, i: int) -> Seq<T> { d.subrange(i * s, (i + 1) * s) }
// ---- shared iterator
pub struct ComponentIterator<'a, T> { pub data: &'a [T], pub stride: usize, pub front_idx: usize, pub back_idx: i64 }
impl<'a, T> ComponentIterator<'a, T> {
    /// number of components of the storage, and the components still to come: [f, b)
    pub open spec fn n(&self) -> int { self.data@.len() as int / self.stride as int }
    pub open spec fn f(&self) -> int { self.front_idx as int / self.stride as int }
    pub open spec fn b(&self) -> int { (self.back_idx + self.stride) / self.stride as int }
    pub open spec fn wf(&self) -> bool { self.stride >= 1 && self.data@.len() <= i64::MAX && self.stride <= i64::MAX
        && self.data@.len() == self.n() * self.stride && self.front_idx == self.f() * self.stride && self.back_idx + self.stride == self.b() * self.stride
        && 0 <= self.f() <= self.b() <= self.n() }
//@fn sunscreen_tfhe/src/dst.rs :: ComponentIterator::new
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig fn new(data: &'a [T], stride: usize) -> (ret: Self)
    requires stride >= 1, stride <= i64::MAX, data@.len() <= i64::MAX, data@.len() % stride as nat == 0
    ensures ret.wf(), ret.data@ == data@, ret.stride == stride, ret.f() == 0, ret.b() == ret.n(), ret.n() == data@.len() as int / stride as int
//@at start
    proof { ix_new(data@.len() as int, stride as int); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <ExactSizeIterator for ComponentIterator>::len
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
    requires self.wf()
    ensures ret == self.b() - self.f()
//@at start
    proof { ix_len(self.f(), self.b(), self.n(), self.stride as int); assert(self.back_idx + self.stride - self.front_idx == self.b() * self.stride - self.f() * self.stride); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <Iterator for ComponentIterator>::next
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig pub fn next(&mut self) -> (ret: Option<&'a PolynomialRef<T>>)
    requires old(self).wf()
    ensures final(self).wf(), final(self).data@ == old(self).data@, final(self).stride == old(self).stride, final(self).b() == old(self).b(),
        ret.is_some() == (old(self).f() < old(self).b()), final(self).f() == old(self).f() + if ret.is_some() { 1int } else { 0 },
        ret.is_some() ==> dst::FromSlice::<T>::sv(ret.unwrap()) == chunk(old(self).data@, old(self).stride as int, old(self).f())
//@at start
    proof { ix_step(self.f(), self.b(), self.n(), self.stride as int); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <DoubleEndedIterator for ComponentIterator>::next_back
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig pub fn next_back(&mut self) -> (ret: Option<&'a PolynomialRef<T>>)
    requires old(self).wf()
    ensures final(self).wf(), final(self).data@ == old(self).data@, final(self).stride == old(self).stride, final(self).f() == old(self).f(),
        ret.is_some() == (old(self).f() < old(self).b()), final(self).b() == old(self).b() - if ret.is_some() { 1int } else { 0 },
        ret.is_some() ==> dst::FromSlice::<T>::sv(ret.unwrap()) == chunk(old(self).data@, old(self).stride as int, old(self).b() - 1)
//@at start
    let ghost (d0, b0, s0) = (self.data@, self.b(), self.stride as int);
    proof { ix_step(self.f(), self.b(), self.n(), self.stride as int); }
//@at end
    proof { assert(dst::FromSlice::<T>::sv(data) =~= chunk(d0, s0, b0 - 1)); }
//@end
}
// ---- mutable iterator: raw pointer arithmetic over the storage [0, cap)
/// a pointer into the storage: its offset from the start, and the length of the storage
pub struct RPtr { pub off: Ghost<int>, pub cap: Ghost<int> }
impl RPtr {
    #[verifier::external_body] pub fn of<T>(d: &mut [T]) -> (r: RPtr) ensures r.off@ == 0, r.cap@ == old(d)@.len(), final(d)@ == old(d)@ { unimplemented!() }
    // the pointer must stay inside the storage (or one past its end)
    #[verifier::external_body] pub fn offset(&self, d: isize) -> (r: RPtr) requires 0 <= self.off@ + d <= self.cap@ ensures r.off@ == self.off@ + d, r.cap@ == self.cap@ { unimplemented!() }
}
/// a component handed out mutably: storage positions [lo, lo + len)
#[verifier::external_body] pub fn raw_parts_mut(p: RPtr, n: usize) -> (r: Part) requires 0 <= p.off@, p.off@ + n <= p.cap@ ensures r.lo@ == p.off@, r.len@ == n { unimplemented!() }
pub open spec fn is_part(p: Part, s: int, i: int) -> bool { p.lo@ == i * s && p.len@ == s }
pub struct ComponentIteratorMut<'a, T> { pub start: RPtr, pub front: isize, pub back: isize, pub stride: usize, pub _phantom: std::marker::PhantomData<&'a T> }
impl<'a, T> ComponentIteratorMut<'a, T> {
    pub open spec fn n(&self) -> int { self.start.cap@ / self.stride as int }
    pub open spec fn f(&self) -> int { self.front as int / self.stride as int }
    pub open spec fn b(&self) -> int { (self.back + self.stride) / self.stride as int }
    pub open spec fn wf(&self) -> bool { self.stride >= 1 && 0 <= self.start.cap@ <= isize::MAX && self.start.off@ == 0 && self.stride <= isize::MAX
        && self.start.cap@ == self.n() * self.stride && self.front == self.f() * self.stride && self.back + self.stride == self.b() * self.stride
        && 0 <= self.f() <= self.b() <= self.n() }
//@fn sunscreen_tfhe/src/dst.rs :: ComponentIteratorMut::new
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig fn new(data: &'a mut [T], stride: usize) -> (ret: Self)
//@sub "data.as_mut_ptr()" => "RPtr::of(data)"
    requires stride >= 1, stride <= isize::MAX, old(data)@.len() <= isize::MAX, old(data)@.len() % stride as nat == 0
    ensures ret.wf(), ret.start.cap@ == old(data)@.len(), ret.stride == stride, ret.f() == 0, ret.b() == ret.n(), ret.n() == old(data)@.len() as int / stride as int
//@at start
    proof { ix_new(data@.len() as int, stride as int); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <ExactSizeIterator for ComponentIteratorMut>::len
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
    requires self.wf()
    ensures ret == self.b() - self.f()
//@at start
    proof { ix_len(self.f(), self.b(), self.n(), self.stride as int); assert(self.back + self.stride - self.front == self.b() * self.stride - self.f() * self.stride); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <Iterator for ComponentIteratorMut>::next
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig pub fn next(&mut self) -> (ret: Option<Part>)
//@sub "std::slice::from_raw_parts_mut" => "raw_parts_mut"
    requires old(self).wf()
    ensures final(self).wf(), final(self).start == old(self).start, final(self).stride == old(self).stride, final(self).b() == old(self).b(),
        ret.is_some() == (old(self).f() < old(self).b()), final(self).f() == old(self).f() + if ret.is_some() { 1int } else { 0 },
        ret.is_some() ==> is_part(ret.unwrap(), old(self).stride as int, old(self).f())
//@at start
    proof { ix_step(self.f(), self.b(), self.n(), self.stride as int); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <DoubleEndedIterator for ComponentIteratorMut>::next_back
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig pub fn next_back(&mut self) -> (ret: Option<Part>)
//@sub "std::slice::from_raw_parts_mut" => "raw_parts_mut"
    requires old(self).wf()
    ensures final(self).wf(), final(self).start == old(self).start, final(self).stride == old(self).stride, final(self).f() == old(self).f(),
        ret.is_some() == (old(self).f() < old(self).b()), final(self).b() == old(self).b() - if ret.is_some() { 1int } else { 0 },
        ret.is_some() ==> is_part(ret.unwrap(), old(self).stride as int, old(self).b() - 1)
//@at start
    proof { ix_step(self.f(), self.b(), self.n(), self.stride as int); }
//@end
}
// ---- parallel producers
pub struct ParallelComponentIterator<'a, T> { pub data: &'a [T], pub stride: usize, pub count: usize }
impl<'a, T> ParallelComponentIterator<'a, T> {
    pub open spec fn wf(&self) -> bool { self.stride >= 1 && self.stride <= isize::MAX && self.data@.len() <= isize::MAX && self.data@.len() == self.count * self.stride }
//@fn sunscreen_tfhe/src/dst.rs :: ParallelComponentIterator::new
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig fn new(data: &'a [T], stride: usize) -> (ret: Self)
    requires stride >= 1, stride <= isize::MAX, data@.len() <= isize::MAX, data@.len() % stride as nat == 0
    ensures ret.wf(), ret.data@ == data@, ret.stride == stride, ret.count == data@.len() as int / stride as int
//@at start
    proof { ix_new(data@.len() as int, stride as int); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <IndexedParallelIterator for ParallelComponentIterator>::len
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
    requires self.wf()
    ensures ret == self.count
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <Producer for ParallelComponentIterator>::split_at
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig pub fn split_at(self, index: usize) -> (ret: (Self, Self))
//@sub "<Self as rayon::iter::IndexedParallelIterator>::len(&self)" => "self.len()"
    requires self.wf(), index <= self.count
    ensures ret.0.wf(), ret.1.wf(), ret.0.count == index, ret.1.count == self.count - index, ret.0.stride == self.stride, ret.1.stride == self.stride, ret.0.data@ + ret.1.data@ == self.data@
//@at start
    proof { assert(index * self.stride <= self.count * self.stride) by (nonlinear_arith) requires index <= self.count; assert((self.count - index) * self.stride == self.count * self.stride - index * self.stride) by (nonlinear_arith); assert(self.data@.subrange(0, index * self.stride) + self.data@.subrange(index * self.stride, self.data@.len() as int) =~= self.data@); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <Producer for ParallelComponentIterator>::into_iter
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig pub fn into_iter(self) -> (ret: ComponentIterator<'a, T>)
    requires self.wf()
    ensures ret.wf(), ret.data@ == self.data@, ret.stride == self.stride, ret.f() == 0, ret.b() == self.count
//@at start
    proof { dm(self.count as int, self.stride as int); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(self.count as int, self.stride as int); }
//@end
}
pub struct ParallelComponentIteratorMut<'a, T> { pub data: &'a mut [T], pub stride: usize, pub count: usize }
impl<'a, T> ParallelComponentIteratorMut<'a, T> {
    pub open spec fn cur(&self) -> Seq<T> { self.data@ }
    pub open spec fn wf(&self) -> bool { self.stride >= 1 && self.stride <= isize::MAX && self.data@.len() <= isize::MAX && self.data@.len() == self.count * self.stride }
//@fn sunscreen_tfhe/src/dst.rs :: ParallelComponentIteratorMut::new
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig fn new(data: &'a mut [T], stride: usize) -> (ret: Self)
    requires stride >= 1, stride <= isize::MAX, old(data)@.len() <= isize::MAX, old(data)@.len() % stride as nat == 0
    ensures ret.wf(), ret.cur() == old(data)@, ret.stride == stride, ret.count == old(data)@.len() as int / stride as int
//@at start
    proof { ix_new(data@.len() as int, stride as int); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <IndexedParallelIterator for ParallelComponentIteratorMut>::len
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
    requires self.wf()
    ensures ret == self.count
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <Producer for ParallelComponentIteratorMut>::split_at
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig pub fn split_at(self, index: usize) -> (ret: (Self, Self))
//@sub "<Self as rayon::iter::IndexedParallelIterator>::len(&self)" => "self.len()"
    requires self.wf(), index <= self.count
    ensures ret.0.wf(), ret.1.wf(), ret.0.count == index, ret.1.count == self.count - index, ret.0.stride == self.stride, ret.1.stride == self.stride, ret.0.cur() + ret.1.cur() == self.cur()
//@at start
    proof { assert(index * self.stride <= self.count * self.stride) by (nonlinear_arith) requires index <= self.count; assert((self.count - index) * self.stride == self.count * self.stride - index * self.stride) by (nonlinear_arith); assert(self.data@.subrange(0, index * self.stride) + self.data@.subrange(index * self.stride, self.data@.len() as int) =~= self.data@); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: <Producer for ParallelComponentIteratorMut>::into_iter
//@macro dst_iter(ComponentIterator, ComponentIteratorMut, ParallelComponentIterator, ParallelComponentIteratorMut, NoWrapper, PolynomialRef)
//@sig pub fn into_iter(self) -> (ret: ComponentIteratorMut<'a, T>)
    requires self.wf()
    ensures ret.wf(), ret.start.cap@ == self.cur().len(), ret.stride == self.stride, ret.f() == 0, ret.b() == self.count
//@at start
    proof { dm(self.count as int, self.stride as int); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(self.count as int, self.stride as int); }
//@end
}
} // verus!
verus! {
pub proof fn ix_new(len: int, s: int) requires s >= 1, len >= 0, len % s == 0 ensures len == (len / s) * s, 0int / s == 0, len / s >= 0, 0 * s == 0, (len - s + s) / s == len / s { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len, s); assert(s * (len / s) == (len / s) * s) by (nonlinear_arith); assert(0int / s == 0) by (nonlinear_arith) requires s >= 1; assert(len / s >= 0) by (nonlinear_arith) requires s >= 1, len >= 0; }
pub proof fn ix_len(f: int, b: int, n: int, s: int) requires s >= 1, 0 <= f <= b <= n ensures (b * s - f * s) / s == b - f, 0 <= f * s <= b * s <= n * s { assert(b * s - f * s == (b - f) * s) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(b - f, s); assert((b - f) * s == s * (b - f)) by (nonlinear_arith); assert(0 <= f * s <= b * s <= n * s) by (nonlinear_arith) requires s >= 1, 0 <= f <= b <= n; }
pub proof fn ix_step(f: int, b: int, n: int, s: int) requires s >= 1, 0 <= f <= b <= n
    ensures f < b ==> f * s < b * s, f == b ==> f * s == b * s, 0 <= f * s <= b * s <= n * s, (f + 1) * s == f * s + s, (b - 1) * s == b * s - s, ((b - 1) + 1) * s == b * s, (f * s + s) / s == f + 1, (b * s - s) / s == b - 1, (b * s) / s == b, (f * s) / s == f, f < b ==> f * s + s <= b * s, b > 0 ==> b * s >= s
{ ix_len(f, b, n, s); assert((f + 1) * s == f * s + s) by (nonlinear_arith); assert((b - 1) + 1 == b); assert((b - 1) * s == b * s - s) by (nonlinear_arith); dm(f + 1, s); dm(b - 1, s); dm(b, s); dm(f, s);
  if f < b { assert(f * s + s <= b * s) by (nonlinear_arith) requires f + 1 <= b, s >= 1; } if b > 0 { assert(b * s >= s) by (nonlinear_arith) requires b >= 1, s >= 1; } }
/// what a sequence of next (false) / next_back (true) calls yields, by the contracts above
pub open spec fn yields(h: Seq<bool>, f: int, b: int) -> Seq<int> decreases h.len() { if h.len() == 0 || f >= b { Seq::empty() } else if h[0] { seq![b - 1] + yields(h.skip(1), f, b - 1) } else { seq![f] + yields(h.skip(1), f + 1, b) } }
/// any mix of both directions yields every component exactly once
pub proof fn each_once(h: Seq<bool>, f: int, b: int) requires f <= b
    ensures yields(h, f, b).len() == if h.len() <= b - f { h.len() as int } else { b - f }, yields(h, f, b).no_duplicates(), forall|i: int| #![auto] yields(h, f, b).contains(i) ==> f <= i < b, h.len() >= b - f ==> forall|i: int| f <= i < b ==> #[trigger] yields(h, f, b).contains(i)
    decreases h.len()
{
    let y = yields(h, f, b);
    if h.len() > 0 && f < b {
        let (x, f1, b1) = if h[0] { (b - 1, f, b - 1) } else { (f, f + 1, b) };
        let t = yields(h.skip(1), f1, b1);
        each_once(h.skip(1), f1, b1);
        assert(y == seq![x] + t);
        assert forall|i: int| #![auto] y.contains(i) implies f <= i < b by { let k = choose|k: int| 0 <= k < y.len() && y[k] == i; if k > 0 { assert(t[k - 1] == i); assert(t.contains(i)); } }
        assert forall|p: int, q: int| 0 <= p < y.len() && 0 <= q < y.len() && p != q implies y[p] != y[q] by { if p > 0 { assert(t[p - 1] == y[p]); assert(t.contains(y[p])); } if q > 0 { assert(t[q - 1] == y[q]); assert(t.contains(y[q])); } }
        if h.len() >= b - f { assert forall|i: int| f <= i < b implies #[trigger] y.contains(i) by { if i == x { assert(y[0] == i); } else { assert(t.contains(i)); let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(y[k + 1] == i); } } }
    } else { assert(y =~= Seq::<int>::empty()); }
}
pub proof fn dm(x: int, s: int) requires s >= 1 ensures (x * s) / s == x { assert(x * s == s * x) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(x, s); }
} // verus!
//@include ../prelude/layout.rs
fn main() {}
