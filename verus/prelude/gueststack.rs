//@include guestargs.rs
verus! {
impl Memory {
//@fn parasol_cpu/src/memory/mod.rs :: Memory::check_range_is_mapped
//@sub "pages.lock()" => "pages.peek()"
    requires self.wf()
    ensures ret is Ok <==> (len == 0 || (ptr.0 + len <= AS() && self.all_mapped(ptr.0 as int, len as int)))
//@at start
    proof { consts(); if len > 0 { pageof(ptr.0 as int); if ptr.0 + len <= AS() { pageof(ptr.0 + len - 1); } } }
    let ghost lo = ptr.0 as int; let ghost n = len as int;
//@at loop 0
    invariant PAGE_SIZE == PS(), self.wf(), *pages == self.pages.v, len > 0, ptr.0 + len <= AS(), lo == ptr.0, n == len, __lo0_0 == lo / PS(), __hi0_1 == (lo + n - 1) / PS() + 1, __lo0_0 <= __i0 <= __hi0_1, __hi0_1 <= NP(), forall|p: int| __lo0_0 <= p < __i0 ==> #[trigger] self.page(p) is Some
    decreases __hi0_1 - __i0
//@at start 0
    let ghost bad = if (i as int) * PS() < lo { lo } else { i as int * PS() };
    proof { assert(bad / PS() == i && lo <= bad < lo + n) by (nonlinear_arith) requires bad == (if (i as int) * PS() < lo { lo } else { i as int * PS() }), lo / PS() <= i <= (lo + n - 1) / PS(), n > 0, lo >= 0; if self.page(i as int) is None { assert(!self.mapped(bad)); } }
//@at after 0
    proof { assert forall|b: int| lo <= b < lo + n implies #[trigger] self.mapped(b) by { assert(lo / PS() <= b / PS() <= (lo + n - 1) / PS()); assert(self.page(b / PS()) is Some); } }
//@end
    /// these bytes stand at address a
    pub open spec fn bytes_at(&self, a: int, s: Seq<Byte>) -> bool { forall|i: int| 0 <= i < s.len() ==> self.has_byte(a + i, #[trigger] s[i]) }
    pub open spec fn has_byte(&self, a: int, b: Byte) -> bool { self.mapped(a) && self.at(a) == b }
    pub open spec fn zero_at(&self, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> #[trigger] self.has_byte(i, Byte::Plaintext(0)) }
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_push_arg_onto_stack
//@sig fn try_push_arg_onto_stack(&mut self, data: &Arg) -> (ret: Result<Ptr32>)
//@sub "let mut stack_ptr = self.stack_ptr.lock().unwrap();" => "" optional
//@sub "let mut stack_ptr = &mut *stack_ptr;" => "" optional
//@sub "*stack_ptr = arg_ptr" => "self.stack_ptr.v = arg_ptr"
//@sub "stack_ptr.0" => "self.stack_ptr.v.0"
    requires old(self).wf(), 0 < data.alignment < AS()
    ensures final(self).wf(), ({
        let sp = old(self).stack_ptr.v.0 as int; let n = data.bytes@.len() as int; let p = (sp - n) - (sp - n) % (data.alignment as int);
        &&& (ret is Ok <==> (sp > 0 && n <= sp && old(self).all_mapped(p, sp - p)))
        &&& (ret is Err ==> *final(self) == *old(self))
        &&& (ret is Ok ==> ret->Ok_0.0 == p && final(self).stack_ptr.v.0 == p && p % (data.alignment as int) == 0 && p + n <= sp && final(self).same_but(old(self), p, sp - p))
        &&& (ret is Ok ==> final(self).bytes_at(p, data.bytes@) && final(self).zero_at(p + n, sp)) })
//@at start
    let ghost o = *self; let ghost sp = self.stack_ptr.v.0 as int; let ghost n = data.bytes@.len() as int; let ghost p = (sp - n) - (sp - n) % (data.alignment as int);
    proof { if n <= sp { lemma_down(sp - n, data.alignment as int); } }
//@at loop 0
    invariant __s0_0@ == data.bytes@, __n0 == n, n == data.bytes@.len(), 0 <= __i0 <= n, self.wf(), o.wf(), self.stack_ptr == o.stack_ptr, sp == o.stack_ptr.v.0, arg_ptr.0 == p, 0 <= p, p + n <= sp, o.all_mapped(p, sp - p), self.same_but(&o, p, __i0 as int), forall|k: int| 0 <= k < __i0 ==> self.has_byte(p + k, #[trigger] data.bytes@[k])
    decreases n - __i0
//@at start 0
    let ghost w = *self; proof { assert(o.mapped(p + i)); assert(w.mapped(p + i)); }
//@at end 0
    proof { lemma_step(&o, &w, self, p, i as int); assert forall|k: int| 0 <= k < __i0 implies self.has_byte(p + k, #[trigger] data.bytes@[k]) by { if k < i { assert(w.has_byte(p + k, data.bytes@[k])); assert(self.mapped(p + k) && self.at(p + k) == w.at(p + k)); } else { assert(self.at(p + k) == data.bytes@[k]); } } }
//@at loop 1
    invariant __lo1_0 == p + n, __hi1_1 == sp, p + n <= __i1 <= sp, n == data.bytes@.len(), self.wf(), o.wf(), self.stack_ptr == o.stack_ptr, sp == o.stack_ptr.v.0, arg_ptr.0 == p, 0 <= p, p + n <= sp, o.all_mapped(p, sp - p), self.same_but(&o, p, __i1 - p), self.bytes_at(p, data.bytes@), self.zero_at(p + n, __i1 as int)
    decreases sp - __i1
//@at start 1
    let ghost w = *self; proof { assert(o.mapped(i as int)); assert(w.mapped(i as int)); }
//@at end 1
    proof { lemma_step(&o, &w, self, p, i - p);
        assert forall|k: int| 0 <= k < data.bytes@.len() implies self.has_byte(p + k, #[trigger] data.bytes@[k]) by { assert(w.has_byte(p + k, data.bytes@[k])); assert(self.mapped(p + k) && self.at(p + k) == w.at(p + k)); }
        assert forall|k: int| p + n <= k < __i1 implies #[trigger] self.has_byte(k, Byte::Plaintext(0)) by { if k < i { assert(w.has_byte(k, Byte::Plaintext(0))); assert(self.mapped(k) && self.at(k) == w.at(k)); } } }
//@at after 1
    let ghost w = *self;
//@at end
    proof { lemma_sp(&o, &w, self, p, sp - p);
        assert forall|k: int| 0 <= k < data.bytes@.len() implies self.has_byte(p + k, #[trigger] data.bytes@[k]) by { assert(w.has_byte(p + k, data.bytes@[k])); }
        assert forall|k: int| p + n <= k < sp implies #[trigger] self.has_byte(k, Byte::Plaintext(0)) by { assert(w.has_byte(k, Byte::Plaintext(0))); } }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::stack_ptr
//@sub "stack_ptr.lock()" => "stack_ptr.peek()"
    ensures ret == self.stack_ptr.v
//@end
}
pub proof fn lemma_down(x: int, a: int) requires x >= 0, a > 0 ensures 0 <= x - x % a <= x, (x - x % a) % a == 0 { assert(x - x % a == a * (x / a) && (a * (x / a)) % a == 0 && 0 <= x % a && 0 <= x / a) by (nonlinear_arith) requires x >= 0, a > 0; assert(a * (x / a) >= 0) by (nonlinear_arith) requires x / a >= 0, a > 0; }
/// only the stack pointer changed
pub proof fn lemma_sp(o: &Memory, w: &Memory, m: &Memory, a: int, n: int) requires w.same_but(o, a, n), m.pages == w.pages, w.wf() ensures m.wf(), m.same_but(o, a, n)
{
    assert forall|i: int| 0 <= i < NP() implies ((#[trigger] m.page(i)) matches Some(p) ==> p.data@.len() == PS()) by { assert(m.page(i) == w.page(i)); }
    assert forall|b: int| 0 <= b < AS() implies #[trigger] m.mapped(b) == o.mapped(b) by { assert(m.mapped(b) == w.mapped(b)); }
    assert forall|b: int| 0 <= b < AS() && o.mapped(b) && !(a <= b < a + n) implies #[trigger] m.at(b) == o.at(b) by { assert(w.mapped(b) == o.mapped(b)); assert(m.at(b) == w.at(b)); }
}
/// one more byte of a range written
pub proof fn lemma_step(o: &Memory, w: &Memory, m: &Memory, a: int, n: int) requires w.same_but(o, a, n), m.same_but(w, a + n, 1), n >= 0 ensures m.same_but(o, a, n + 1)
{
    assert forall|b: int| 0 <= b < AS() implies #[trigger] m.mapped(b) == o.mapped(b) by { assert(m.mapped(b) == w.mapped(b)); assert(w.mapped(b) == o.mapped(b)); }
    assert forall|b: int| 0 <= b < AS() && o.mapped(b) && !(a <= b < a + n + 1) implies #[trigger] m.at(b) == o.at(b) by { assert(w.mapped(b) == o.mapped(b)); assert(m.at(b) == w.at(b)); assert(w.at(b) == o.at(b)); }
}
} // verus!
