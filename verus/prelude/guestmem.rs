verus! {
//@item parasol_cpu/src/memory/mod.rs :: LOG2_PAGE_SIZE
//@item parasol_cpu/src/memory/mod.rs :: PAGE_SIZE
//@item parasol_cpu/src/memory/mod.rs :: PAGE_OFFSET_MASK
//@item parasol_cpu/src/memory/mod.rs :: PAGE_ID_MASK
//@item parasol_cpu/src/memory/mod.rs :: TOTAL_PAGES
//@item parasol_cpu/src/memory/mod.rs :: WORD_SIZE
//@item parasol_cpu/src/memory/mod.rs :: DOUBLE_WORD_SIZE
//@item parasol_cpu/src/memory/mod.rs :: Page
//@item parasol_cpu/src/memory/mod.rs :: Allocation
//@item parasol_cpu/src/proc/args.rs :: Arg
#[derive(Copy, Clone)] pub struct Ptr32(pub u32);
pub struct Memory { pub pages: Mutex<Vec<Option<Page>>>, pub stack_ptr: Mutex<Ptr32> }
pub open spec fn PS() -> int { 4096 }
pub open spec fn NP() -> int { 0x100000 }
pub open spec fn AS() -> int { 0x1_0000_0000 }
pub proof fn consts() ensures PAGE_SIZE == PS(), TOTAL_PAGES == NP(), PAGE_OFFSET_MASK == 4095, PAGE_ID_MASK == 0xFFFFF000, LOG2_PAGE_SIZE == 12, WORD_SIZE == 4, DOUBLE_WORD_SIZE == 8
{}
impl Memory {
    pub open spec fn page(&self, i: int) -> Option<Page> { self.pages.v@[i] }
    pub open spec fn wf(&self) -> bool { self.pages.v@.len() == NP() && forall|i: int| 0 <= i < NP() ==> ((#[trigger] self.page(i)) matches Some(p) ==> p.data@.len() == PS()) }
    /// is the address mapped, and what byte is there
    pub open spec fn mapped(&self, a: int) -> bool { self.page(a / PS()) is Some }
    pub open spec fn at(&self, a: int) -> Byte { self.page(a / PS())->Some_0.data@[a % PS()] }
    pub open spec fn all_mapped(&self, a: int, n: int) -> bool { forall|b: int| a <= b < a + n ==> #[trigger] self.mapped(b) }
    pub open spec fn unmapped(&self, a: int, n: int) -> bool { forall|b: int| a <= b < a + n ==> !#[trigger] self.mapped(b) }
    /// the same memory as `o` except for the bytes a .. a + n
    pub open spec fn same_but(&self, o: &Memory, a: int, n: int) -> bool { (forall|b: int| 0 <= b < AS() ==> #[trigger] self.mapped(b) == o.mapped(b)) && (forall|b: int| 0 <= b < AS() && o.mapped(b) && !(a <= b < a + n) ==> #[trigger] self.at(b) == o.at(b)) }
    pub open spec fn same(&self, o: &Memory) -> bool { self.same_but(o, 0, 0) && self.stack_ptr == o.stack_ptr }
}
pub proof fn pageof(a: int) requires 0 <= a < AS() ensures 0 <= a / PS() < NP(), 0 <= a % PS() < PS(), a == PS() * (a / PS()) + a % PS() {}
impl vstd::std_specs::convert::FromSpecImpl<u32> for Ptr32 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> Self { Ptr32(v) } }
impl From<u32> for Ptr32 {
//@fn parasol_cpu/src/memory/mod.rs :: <From<u32> for Ptr32>::from
//@sub "Self(value)" => "Ptr32(value)" optional
//@end
}
pub assume_specification[ u32::div_ceil ](x: u32, y: u32) -> (r: u32) requires y > 0 ensures r == (x + y - 1) / (y as int);
impl Ptr32 {
//@fn parasol_cpu/src/memory/mod.rs :: Ptr32::try_offset
    ensures ret is Ok ==> ret->Ok_0.0 == self.0 + val, ret is Err <==> self.0 + val >= AS()
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Ptr32::try_signed_offset
    ensures ret is Ok ==> ret->Ok_0.0 == self.0 + val, ret is Err <==> !(0 <= self.0 + val < AS())
//@end
}
#[verifier::external_body] pub fn zero_page(n: usize) -> (r: Vec<Byte>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == Byte::Plaintext(0) { unimplemented!() }
impl Page {
//@fn parasol_cpu/src/memory/mod.rs :: Page::allocate
//@presub "vec![Byte::Plaintext(0); PAGE_SIZE as usize]" => "zero_page(PAGE_SIZE as usize)"
    ensures ret.data@.len() == PS(), forall|i: int| 0 <= i < PS() ==> #[trigger] ret.data@[i] == Byte::Plaintext(0)
//@at start
    proof { consts(); }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Page::load_byte
    requires offset < self.data@.len() ensures *ret == self.data@[offset as int]
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Page::store_byte
    requires offset < old(self).data@.len() ensures final(self).data@ == old(self).data@.update(offset as int, data)
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Page::page_id_from_pointer
    ensures ret == ptr.0 as int / PS()
//@at start
    proof { let p = ptr.0; assert((p & PAGE_ID_MASK) >> LOG2_PAGE_SIZE == p / 4096) by { consts(); assert((p & 0xFFFFF000u32) >> 12u32 == p / 4096u32) by (bit_vector); } consts(); }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Page::offset_from_pointer
    ensures ret == ptr.0 as int % PS()
//@at start
    proof { let p = ptr.0; consts(); assert((p & 4095u32) == p % 4096u32) by (bit_vector); }
//@end
}
impl Memory {
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_load
//@sub "pages.lock()" => "pages.peek()"
    requires self.wf()
    ensures self.mapped(virtual_address.0 as int) ==> ret == Ok::<Byte, Error>(self.at(virtual_address.0 as int)), !self.mapped(virtual_address.0 as int) ==> ret == Err::<Byte, Error>(Error::AccessViolation(virtual_address.0))
//@at start
    proof { pageof(virtual_address.0 as int); }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_store
//@sig fn try_store(&mut self, virtual_address: Ptr32, data: Byte) -> (ret: Result<(), Error>)
    requires old(self).wf()
    ensures final(self).wf(), old(self).mapped(virtual_address.0 as int) ==> ret is Ok && final(self).same_but(old(self), virtual_address.0 as int, 1) && final(self).at(virtual_address.0 as int) == data,
        !old(self).mapped(virtual_address.0 as int) ==> ret == Err::<(), Error>(Error::AccessViolation(virtual_address.0)) && final(self).same(old(self)), final(self).stack_ptr == old(self).stack_ptr
//@at start
    proof { pageof(virtual_address.0 as int); let q = self.page(virtual_address.0 as int / PS()); assert(q matches Some(p) ==> p.data@.len() == PS()); }
    let ghost old_self = *self; let ghost a = virtual_address.0 as int;
//@at end-bind
    proof {
        assert(old_self.wf());
        assert forall|i: int| 0 <= i < NP() implies ((#[trigger] self.page(i)) matches Some(p) ==> p.data@.len() == PS()) by { assert(old_self.page(i) matches Some(p) ==> p.data@.len() == PS()); }
        assert forall|b: int| 0 <= b < AS() implies #[trigger] self.mapped(b) == old_self.mapped(b) by { pageof(b); }
        assert forall|b: int| 0 <= b < AS() && old_self.mapped(b) && b != a implies #[trigger] self.at(b) == old_self.at(b) by { pageof(b); }
    }
//@end
    pub open spec fn holds(&self, a: int, s: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> self.has(a + i, #[trigger] s[i]) }
    pub open spec fn has(&self, a: int, v: u8) -> bool { self.mapped(a) && self.at(a) == Byte::Plaintext(v) }
}
pub open spec fn le(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * le(s.subrange(1, s.len() as int)) } }
} // verus!
