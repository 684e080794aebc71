//@include ../prelude/base.rs
//@include ../prelude/guest.rs
//@include ../prelude/guestmem.rs
//@include ../prelude/gueststack.rs
verus! {
/// u32::from_le_bytes and u64::from_le_bytes
#[verifier::external_body] pub fn le32(b: [u8; 4]) -> (r: u32) ensures r == le(b@) { u32::from_le_bytes(b) }
#[verifier::external_body] pub fn le64(b: [u8; 8]) -> (r: u64) ensures r == le(b@) { u64::from_le_bytes(b) }
pub open spec fn pages_for(len: int) -> int { (len + PS() - 1) / PS() }
pub open spec fn room(p: Seq<Option<Page>>, b: int, n: int) -> bool { forall|k: int| b <= k < b + n ==> #[trigger] p[k] is None }
pub open spec fn no_room(p: Seq<Option<Page>>, n: int) -> bool { forall|b: int| 1 <= b && b + n <= NP() ==> !#[trigger] room(p, b, n) }
proof fn lemma_holds(m: &Memory, a: int, g: Seq<u8>, h: Seq<u8>, n: int, v: u8)
    requires m.holds(a, g, n), 0 <= n < g.len(), h == g.update(n, v), m.has(a + n, v)
    ensures m.holds(a, h, n + 1)
{
    assert forall|k: int| 0 <= k < n + 1 implies m.has(a + k, #[trigger] h[k]) by { if k < n { assert(h[k] == g[k]); } }
}
pub open spec fn zeros(p: Option<Page>) -> bool { p matches Some(q) && q.data@.len() == PS() && forall|i: int| 0 <= i < PS() ==> #[trigger] q.data@[i] == Byte::Plaintext(0) }
/// pages lo .. hi: the ones that were there kept, the others zeroed; all other pages kept
pub open spec fn filled(p0: Seq<Option<Page>>, p1: Seq<Option<Page>>, lo: int, hi: int) -> bool { p1.len() == p0.len() && forall|i: int| 0 <= i < p0.len() ==> if lo <= i < hi && p0[i] is None { zeros(#[trigger] p1[i]) } else { p1[i] == p0[i] } }
impl Memory {
    /// what an allocation of the pages lo .. hi does: nothing that was mapped changes, and the rest of these pages appears as zeros
    pub open spec fn grown(&self, o: &Memory, lo: int, hi: int) -> bool {
        self.stack_ptr == o.stack_ptr && forall|b: int| 0 <= b < AS() ==> if o.mapped(b) { self.mapped(b) && self.at(b) == o.at(b) } else if lo <= b / PS() < hi { self.mapped(b) && self.at(b) == Byte::Plaintext(0) } else { !(#[trigger] self.mapped(b)) }
    }
}
proof fn lemma_grown(o: &Memory, m: &Memory, lo: int, hi: int) requires o.wf(), filled(o.pages.v@, m.pages.v@, lo, hi), m.stack_ptr == o.stack_ptr, 0 <= lo, hi <= NP() ensures m.wf(), m.grown(o, lo, hi)
{
    assert forall|i: int| 0 <= i < NP() implies ((#[trigger] m.page(i)) matches Some(p) ==> p.data@.len() == PS()) by { let q = o.page(i); assert(q matches Some(p) ==> p.data@.len() == PS()); assert(m.pages.v@[i] == m.page(i)); }
    assert forall|b: int| 0 <= b < AS() implies if o.mapped(b) { m.mapped(b) && m.at(b) == o.at(b) } else if lo <= b / PS() < hi { m.mapped(b) && m.at(b) == Byte::Plaintext(0) } else { !(#[trigger] m.mapped(b)) } by { pageof(b); let i = b / PS(); assert(m.pages.v@[i] == m.page(i)); assert(o.pages.v@[i] == o.page(i)); if m.page(i) is Some { let p = m.page(i)->Some_0; if lo <= i < hi && o.page(i) is None { assert(p.data@[b % PS()] == Byte::Plaintext(0)); } } }
}
impl Memory {
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_load_plaintext_byte
    requires self.wf()
    ensures ret is Ok ==> self.mapped(virtual_address.0 as int) && self.at(virtual_address.0 as int) == Byte::Plaintext(ret->Ok_0), ret is Err ==> !self.mapped(virtual_address.0 as int) || self.at(virtual_address.0 as int) is Ciphertext
//@end
    /// the first n of these bytes stand at address a
    pub open spec fn plain(&self, a: int) -> bool { self.mapped(a) && self.at(a) is Plaintext }
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_load_n_bytes
//@slice bytes own
    requires self.wf(), N <= 16
    ensures ret is Ok ==> virtual_address.0 + N <= AS() && self.holds(virtual_address.0 as int, ret->Ok_0@, N as int),
        ret is Err ==> exists|i: int| 0 <= i < N && (virtual_address.0 + i >= AS() || !#[trigger] self.plain(virtual_address.0 + i))
//@at loop 0
    invariant self.wf(), N <= 16, __n0 == N, __i0 <= N, __s0_0@.len() == N, (__i0 > 0 ==> virtual_address.0 + __i0 <= AS()), self.holds(virtual_address.0 as int, __s0_0@, __i0 as int)
    decreases __n0 - __i0
//@at first 0
    let ghost g = __s0_0@; let ghost ok = self.plain(virtual_address.0 + __j0);
//@at end 0
    proof { assert(addr.0 == virtual_address.0 + i); let ghost v = __s0_0@[i as int]; assert(self.at(addr.0 as int) == Byte::Plaintext(v)); assert(__s0_0@ == g.update(i as int, v));
        let ghost h = __s0_0@; lemma_holds(self, virtual_address.0 as int, g, h, i as int, v); }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_load_plaintext_word
//@sub "u32::from_le_bytes(bytes)" => "le32(bytes)"
    requires self.wf()
    ensures ret is Ok ==> virtual_address.0 as int % 4 == 0 && exists|s: Seq<u8>| s.len() == 4 && self.holds(virtual_address.0 as int, s, 4) && ret->Ok_0 == #[trigger] le(s),
        ret is Err ==> virtual_address.0 as int % 4 != 0 || exists|i: int| 0 <= i < 4 && !#[trigger] self.plain(virtual_address.0 + i)
//@at start
    proof { consts(); }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_load_plaintext_dword
//@sub "u64::from_le_bytes(bytes)" => "le64(bytes)"
    requires self.wf()
    ensures ret is Ok ==> virtual_address.0 as int % 8 == 0 && exists|s: Seq<u8>| s.len() == 8 && self.holds(virtual_address.0 as int, s, 8) && ret->Ok_0 == #[trigger] le(s),
        ret is Err ==> virtual_address.0 as int % 8 != 0 || exists|i: int| 0 <= i < 8 && !#[trigger] self.plain(virtual_address.0 + i)
//@at start
    proof { consts(); }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_allocate_at
//@sig fn try_allocate_at(&mut self, virtual_address: Ptr32, len: u32) -> (ret: Result<()>)
    requires old(self).wf()
    ensures final(self).wf(), ret is Err <==> (len == 0 || virtual_address.0 + len > AS()), ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).grown(old(self), virtual_address.0 as int / PS(), (virtual_address.0 + len - 1) / PS() + 1) && final(self).all_mapped(virtual_address.0 as int, len as int)
//@at start
    proof { if len > 0 && virtual_address.0 + len <= AS() { pageof(virtual_address.0 as int); pageof(virtual_address.0 + len - 1); } }
    let ghost o = *self; let ghost lo = virtual_address.0 as int / PS(); let ghost hi = (virtual_address.0 + len - 1) / PS() + 1;
//@at loop 0
    invariant o.wf(), o.pages.v@.len() == NP(), pages@.len() == NP(), len > 0, virtual_address.0 + len <= AS(), 0 <= lo <= __i0 <= hi <= NP(), __hi0_1 == hi, filled(o.pages.v@, pages@, lo, __i0 as int)
    decreases __hi0_1 - __i0
//@at end
    proof { lemma_grown(&o, self, lo, hi); assert forall|b: int| virtual_address.0 <= b < virtual_address.0 + len implies #[trigger] self.mapped(b) by { pageof(b); assert(lo <= b / PS() < hi); } }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_allocate
//@sig #[verifier::loop_isolation(false)] fn try_allocate(&mut self, len: u32) -> (ret: Result<Ptr32>)
    requires old(self).wf()
    ensures final(self).wf(), ret is Err ==> *final(self) == *old(self) && (len == 0 || no_room(old(self).pages.v@, pages_for(len as int))),
        ret is Ok ==> len > 0 && ret->Ok_0.0 > 0 && ret->Ok_0.0 as int % PS() == 0,
        ret is Ok ==> ret->Ok_0.0 + PS() * pages_for(len as int) <= AS(),
        ret is Ok ==> final(self).grown(old(self), ret->Ok_0.0 as int / PS(), ret->Ok_0.0 as int / PS() + pages_for(len as int)),
        ret is Ok ==> old(self).unmapped(ret->Ok_0.0 as int, PS() * pages_for(len as int)) && final(self).all_mapped(ret->Ok_0.0 as int, PS() * pages_for(len as int))
//@at start
    proof { consts(); }
    let ghost o = *self; let ghost n = pages_for(len as int);
//@at loop 0
    invariant n == pages_for(len as int), o == *old(self), o.wf(), *pages == o.pages.v, o.pages.v@.len() == NP(), len > 0, num_pages == n, 0 < n <= NP(), PAGE_SIZE == PS(), TOTAL_PAGES == NP(), LOG2_PAGE_SIZE == 12, 1 <= base_id <= NP() + 1, forall|b: int| 1 <= b < base_id && b + n <= NP() ==> !#[trigger] room(o.pages.v@, b, n)
    decreases NP() + 1 - base_id
//@at loop 1
    invariant __lo1_0 == base_id, __hi1_1 == base_id + num_pages, *pages == o.pages.v, o.pages.v@.len() == NP(), __hi1_1 <= NP(), __lo1_0 <= __i1 <= __hi1_1, __f1 matches Some(x) ==> base_id <= x < __i1 && o.pages.v@[x as int] is Some, __f1 is None ==> forall|k: int| base_id <= k < __i1 ==> #[trigger] o.pages.v@[k] is None
    decreases __hi1_1 - __i1
//@at loop 2
    invariant o.wf(), __lo2_0 == base_id, __hi2_1 == base_id + num_pages, pages@.len() == NP(), o.pages.v@.len() == NP(), __hi2_1 <= NP(), __lo2_0 <= __i2 <= __hi2_1, filled(o.pages.v@, pages@, base_id as int, __i2 as int), forall|k: int| base_id <= k < __hi2_1 ==> #[trigger] o.pages.v@[k] is None
    decreases __hi2_1 - __i2
//@at after 2
    let ghost pv = pages@; proof { assert(filled(o.pages.v@, pv, base_id as int, __i2 as int)); }
    proof {
        assert(self.pages.v@ == pv);
        let b = base_id; let b0 = base_id as int; assert(b << 12u32 == b * 4096u32) by (bit_vector) requires b < 0x100000u32;
        assert(__i2 == b0 + n);
        lemma_grown(&o, self, b0, b0 + n);
        let q = base_id << LOG2_PAGE_SIZE; assert(q == PS() * b0); assert(b0 + n <= NP()); assert(q + PS() * n <= AS());
        assert(PS() * b0 / PS() == b0) by (nonlinear_arith); assert(PS() * b0 % PS() == 0) by (nonlinear_arith);
        assert forall|a: int| PS() * b0 <= a < PS() * b0 + PS() * n implies !#[trigger] o.mapped(a) by {
            assert(b0 <= a / PS() < b0 + n) by (nonlinear_arith) requires PS() * b0 <= a < PS() * b0 + PS() * n; pageof(a); assert(o.pages.v@[a / PS()] is None); assert(o.page(a / PS()) is None);
        }
        assert(q > 0); assert(len > 0); assert(q as int % PS() == 0);
        assert(self.grown(&o, q as int / PS(), q as int / PS() + n)); assert forall|a: int| q <= a < q + PS() * n implies #[trigger] self.mapped(a) by { assert(b0 <= a / PS() < b0 + n) by (nonlinear_arith) requires PS() * b0 <= a < PS() * b0 + PS() * n; pageof(a); } assert(q as int % PS() == 0);
    }
//@end
}
impl Memory {
    /// what writing the bytes b at a does, and when it does it
    pub open spec fn wrote(&self, o: &Memory, a: int, al: int, b: Seq<Byte>, ok: bool) -> bool {
        &&& ok <==> a % al == 0 && (b.len() == 0 || (a + b.len() <= AS() && o.all_mapped(a, b.len() as int)))
        &&& !ok ==> *self == *o
        &&& ok ==> self.wf() && self.stack_ptr == o.stack_ptr && self.same_but(o, a, b.len() as int) && self.bytes_at(a, b)
    }
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_write_type
//@sig fn try_write_type<T: ToArg>(&mut self, ptr: Ptr32, x: &T) -> (ret: Result<()>)
    requires T::okt(), x.ok(), old(self).wf(), 0 < T::al() < AS(), 0 <= T::sz() < AS()
    ensures final(self).wf(), x.bytes().len() == T::sz() ==> final(self).wrote(old(self), ptr.0 as int, T::al(), x.bytes(), ret is Ok)
//@at start
    let ghost o = *self; let ghost a = ptr.0 as int; let ghost n = T::sz(); let ghost gb = x.bytes();
//@at loop 0
    invariant __s0_0@ == gb, gb == x.bytes(), gb.len() == n, __n0 == n, a == ptr.0, n < AS(), 0 <= __i0 <= n, self.wf(), o.wf(), self.stack_ptr == o.stack_ptr, n == 0 || (a + n <= AS() && o.all_mapped(a, n)), self.same_but(&o, a, __i0 as int), forall|k: int| 0 <= k < __i0 ==> self.has_byte(a + k, #[trigger] gb[k])
    decreases n - __i0
//@at start 0
    let ghost w = *self; proof { assert(o.mapped(a + i)); assert(w.mapped(a + i)); }
//@at end 0
    proof { lemma_step(&o, &w, self, a, i as int); assert forall|k: int| 0 <= k < __i0 implies self.has_byte(a + k, #[trigger] gb[k]) by { if k < i { assert(w.has_byte(a + k, gb[k])); assert(self.mapped(a + k) && self.at(a + k) == w.at(a + k)); } else { assert(self.at(a + k) == gb[k]); } } }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_write_type_dyn
//@sig fn try_write_type_dyn<T: DynamicToArg>(&mut self, ptr: Ptr32, x: &T) -> (ret: Result<()>)
    requires x.ok(), old(self).wf(), 0 < x.al() < AS(), 0 <= x.sz() < AS()
    ensures final(self).wf(), x.bytes().len() == x.sz() ==> final(self).wrote(old(self), ptr.0 as int, x.al(), x.bytes(), ret is Ok)
//@at start
    let ghost o = *self; let ghost a = ptr.0 as int; let ghost n = x.sz(); let ghost gb = x.bytes();
//@at loop 0
    invariant __s0_0@ == gb, gb == x.bytes(), gb.len() == n, __n0 == n, a == ptr.0, n < AS(), 0 <= __i0 <= n, self.wf(), o.wf(), self.stack_ptr == o.stack_ptr, n == 0 || (a + n <= AS() && o.all_mapped(a, n)), self.same_but(&o, a, __i0 as int), forall|k: int| 0 <= k < __i0 ==> self.has_byte(a + k, #[trigger] gb[k])
    decreases n - __i0
//@at start 0
    let ghost w = *self; proof { assert(o.mapped(a + i)); assert(w.mapped(a + i)); }
//@at end 0
    proof { lemma_step(&o, &w, self, a, i as int); assert forall|k: int| 0 <= k < __i0 implies self.has_byte(a + k, #[trigger] gb[k]) by { if k < i { assert(w.has_byte(a + k, gb[k])); assert(self.mapped(a + k) && self.at(a + k) == w.at(a + k)); } else { assert(self.at(a + k) == gb[k]); } } }
//@end
    pub open spec fn slice(&self, a: int, n: int) -> Seq<Byte> { Seq::new(n as nat, |k: int| self.at(a + k)) }
    pub open spec fn can_load(&self, a: int, al: int, n: int) -> bool { a % al == 0 && (n == 0 || (a + n <= AS() && self.all_mapped(a, n))) }
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_load_type
//@sig fn try_load_type<T: ToArg>(&self, ptr: Ptr32) -> (ret: Result<T>)
    requires T::okt(), self.wf(), 0 < T::al() < AS(), 0 <= T::sz() < AS()
    ensures self.can_load(ptr.0 as int, T::al(), T::sz()) ==> T::back(self.slice(ptr.0 as int, T::sz()), ret), !self.can_load(ptr.0 as int, T::al(), T::sz()) ==> ret is Err
//@at start
    let ghost a = ptr.0 as int; let ghost n = T::sz();
//@at loop 0
    invariant self.wf(), a == ptr.0, 0 <= n < AS(), 0 <= __i0 <= n, __hi0_1 == n, self.can_load(a, T::al(), n), n == T::sz(), data@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] data@[k] == self.at(a + k)
    decreases n - __i0
//@at start 0
    proof { assert(self.mapped(a + i)); }
//@at after 0
    proof { assert(data@ =~= self.slice(a, n)); }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_load_type_dyn
//@sig fn try_load_type_dyn<T: DynamicToArg>(&self, ptr: Ptr32, align: usize, num_bytes: usize) -> (ret: Result<T>)
    requires self.wf(), 0 < align < AS(), 0 <= num_bytes < AS()
    ensures self.can_load(ptr.0 as int, align as int, num_bytes as int) ==> T::back(self.slice(ptr.0 as int, num_bytes as int), ret), !self.can_load(ptr.0 as int, align as int, num_bytes as int) ==> ret is Err
//@at start
    let ghost a = ptr.0 as int; let ghost n = num_bytes as int;
//@at loop 0
    invariant self.wf(), a == ptr.0, 0 <= n < AS(), 0 <= __i0 <= n, __hi0_1 == n, self.can_load(a, align as int, n), n == num_bytes as int, data@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] data@[k] == self.at(a + k)
    decreases n - __i0
//@at start 0
    proof { assert(self.mapped(a + i)); }
//@at after 0
    proof { assert(data@ =~= self.slice(a, n)); }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::try_allocate_type
//@sig fn try_allocate_type<T: ToArg>(&mut self, x: &T) -> (ret: Result<Ptr32>)
    requires T::okt(), x.ok(), old(self).wf(), 0 < T::al() < AS(), PS() % T::al() == 0, 0 <= T::sz() < AS()
    ensures final(self).wf(), ret is Ok && x.bytes().len() == T::sz() ==> ret->Ok_0.0 > 0 && ret->Ok_0.0 as int % T::al() == 0 && old(self).unmapped(ret->Ok_0.0 as int, T::sz()) && final(self).bytes_at(ret->Ok_0.0 as int, x.bytes()),
        ret is Ok && x.bytes().len() == T::sz() ==> forall|b: int| 0 <= b < AS() && old(self).mapped(b) ==> final(self).mapped(b) && #[trigger] final(self).at(b) == old(self).at(b)
//@at start
    let ghost o = *self; let ghost n = T::sz();
//@at end
    proof { if x.bytes().len() == n {
        lemma_mod(ptr.0 as int, T::al()); lemma_pages(n); let q = ptr.0 as int;
        assert forall|b: int| q <= b < q + n implies !#[trigger] o.mapped(b) by {}
        assert forall|b: int| 0 <= b < AS() && o.mapped(b) implies self.mapped(b) && #[trigger] self.at(b) == o.at(b) by { assert(!(q <= b < q + n)); }
    } }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Memory::new
//@presub "vec![None; TOTAL_PAGES as usize]" => "no_pages(TOTAL_PAGES as usize)"
//@presub "symbols: HashMap::new()," => ""
//@sub "let memory = Self" => "let mut memory = Memory"
    requires 0 < stack_size, stack_start.0 + stack_size < AS()
    ensures ret.wf(), ret.stack_ptr.v.0 == stack_start.0 + stack_size, ret.all_mapped(stack_start.0 as int, stack_size as int), forall|b: int| 0 <= b < AS() && #[trigger] ret.mapped(b) ==> ret.at(b) == Byte::Plaintext(0)
//@at start
    proof { consts(); }
//@at end
    proof { assert forall|b: int| 0 <= b < AS() && #[trigger] memory.mapped(b) implies memory.at(b) == Byte::Plaintext(0) by { pageof(b); } }
//@end
}
#[verifier::external_body] pub fn no_pages(n: usize) -> (r: Vec<Option<Page>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] is None { unimplemented!() }
pub proof fn lemma_pages(n: int) requires 0 <= n ensures n <= PS() * pages_for(n) < n + PS() {}
pub proof fn lemma_mod(q: int, a: int) requires q % PS() == 0, a > 0, PS() % a == 0, q >= 0 ensures q % a == 0 { let k = q / PS(); let j = PS() / a; assert(q == PS() * k); assert(PS() == a * j) by (nonlinear_arith) requires PS() % a == 0, a > 0, j == PS() / a; assert(q == a * (j * k)) by (nonlinear_arith) requires q == PS() * k, PS() == a * j; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(j * k, a); assert(a * (j * k) == (j * k) * a) by (nonlinear_arith); }
// ---- sub-allocation: one allocation handed out in pieces ----
impl Allocation {
    /// the pages of the allocation are mapped, and the part before next_free has been handed out
    pub open spec fn ok(&self, m: &Memory) -> bool { self.base.0 > 0 && self.base.0 as int % PS() == 0 && self.next_free <= self.size && self.base.0 + self.size <= AS() && m.all_mapped(self.base.0 as int, self.size as int) }
//@fn parasol_cpu/src/memory/mod.rs :: Allocation::new
//@sig fn new(memory: &mut Memory, len: u32) -> (ret: Result<(Self, Ptr32)>)
    requires old(memory).wf()
    ensures final(memory).wf(), ret is Err ==> *final(memory) == *old(memory), ret is Ok ==> fresh(old(memory), final(memory), ret->Ok_0.0, ret->Ok_0.1.0 as int, len as int)
//@at start
    let ghost o = *memory;
    proof { consts(); lemma_pages(len as int); }
//@at end
    proof { lemma_up(len as int, PS()); assert(allocation.size <= PS() * pages_for(len as int)); assert forall|b: int| base.0 <= b < base.0 + allocation.size implies #[trigger] memory.mapped(b) && !o.mapped(b) by { assert(!o.mapped(b)); } }
//@end
//@fn parasol_cpu/src/memory/mod.rs :: Allocation::try_allocate
//@sig fn try_allocate(existing: Option<Self>, memory: &mut Memory, len: u32, alignment: u32) -> (ret: Result<(Allocation, Ptr32)>)
    requires old(memory).wf(), alignment > 0, PS() % (alignment as int) == 0, existing matches Some(e) ==> e.ok(old(memory))
    ensures final(memory).wf(), ret is Err ==> *final(memory) == *old(memory),
        ret is Ok ==> ret->Ok_0.1.0 as int % (alignment as int) == 0 && (fresh(old(memory), final(memory), ret->Ok_0.0, ret->Ok_0.1.0 as int, len as int)
            || (*final(memory) == *old(memory) && (existing matches Some(e) && reused(&e, &ret->Ok_0.0, ret->Ok_0.1.0 as int, len as int)) && ret->Ok_0.0.ok(final(memory)))),
        // an allocation with room left is used
        ret is Ok ==> (existing matches Some(e) && e.next_free + alignment + len <= e.size ==> *final(memory) == *old(memory))
//@at start
    proof { consts(); if existing is Some { lemma_up(existing->0.next_free as int, alignment as int); lemma_mod(existing->0.base.0 as int, alignment as int); } assert forall|q: int| q >= 0 && q % PS() == 0 implies #[trigger] (q % (alignment as int)) == 0 by { lemma_mod(q, alignment as int); } }
//@at end
    proof { lemma_addmod(existing.base.0 as int, padded as int, alignment as int); }
//@end
}
/// a new allocation: memory that was not mapped before, inside the allocation, and nothing else changed
pub open spec fn fresh(o: &Memory, m: &Memory, a: Allocation, p: int, len: int) -> bool { len > 0 && a.ok(m) && p == a.base.0 && a.next_free == len && o.unmapped(p, a.size as int) && m.grown(o, p / PS(), p / PS() + pages_for(len)) }
/// a piece of an existing allocation: behind everything handed out of it so far, and inside it
pub open spec fn reused(e: &Allocation, a: &Allocation, p: int, len: int) -> bool { a.base == e.base && a.size == e.size && p >= e.base.0 + e.next_free && p + len == a.base.0 + a.next_free }
pub proof fn lemma_up(x: int, a: int) requires x >= 0, a > 0 ensures x % a != 0 ==> (x + (a - x % a)) % a == 0, 0 <= x % a < a { let k = x / a; assert(x == a * k + x % a && 0 <= x % a < a) by (nonlinear_arith) requires a > 0, x >= 0, k == x / a; assert(x + (a - x % a) == a * (k + 1)) by (nonlinear_arith) requires x == a * k + x % a; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k + 1, a); assert(a * (k + 1) == (k + 1) * a) by (nonlinear_arith); }
pub proof fn lemma_addmod(x: int, y: int, a: int) requires x >= 0, y >= 0, a > 0, x % a == 0, y % a == 0 ensures (x + y) % a == 0 { assert(x == a * (x / a) && y == a * (y / a)) by (nonlinear_arith) requires x % a == 0, y % a == 0, a > 0; assert(x + y == a * (x / a + y / a)) by (nonlinear_arith) requires x == a * (x / a), y == a * (y / a); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x / a + y / a, a); assert(a * (x / a + y / a) == (x / a + y / a) * a) by (nonlinear_arith); }
// ---- what the contracts give for histories of operations ----
/// a byte keeps the last value stored at its address, whatever is stored elsewhere, allocated or loaded in between
fn last_store_wins(m: &mut Memory, a: Ptr32, b: Ptr32, x: Byte, y: Byte, len: u32) -> (r: Result<Byte>)
    requires old(m).wf(), a.0 != b.0, old(m).mapped(a.0 as int), old(m).mapped(b.0 as int)
    ensures final(m).wf(), r == Ok::<Byte, Error>(x)
{
    let s = m.try_store(a, x);
    proof { assert(m.mapped(a.0 as int) && m.mapped(b.0 as int)); }
    let ghost m1 = *m;
    let t = m.try_store(b, y);
    proof { assert(m.mapped(a.0 as int) && m.at(a.0 as int) == m1.at(a.0 as int)); }
    let ghost m2 = *m;
    let u = m.try_allocate(len);
    proof { assert(m2.mapped(a.0 as int)); assert(m.mapped(a.0 as int) && m.at(a.0 as int) == m2.at(a.0 as int)); }
    m.try_load(a)
}
/// two allocations never overlap, and what the first holds survives the second
fn allocations_are_disjoint(m: &mut Memory, n1: u32, n2: u32, x: Byte)
    requires old(m).wf()
    ensures final(m).wf()
{
    let p = m.try_allocate(n1);
    if let Ok(p) = p {
        let ghost m1 = *m;
        proof { lemma_pages(n1 as int); lemma_pages(n2 as int); assert(m.mapped(p.0 as int)); }
        let s = m.try_store(p, x);
        let ghost m2 = *m;
        let q = m.try_allocate(n2);
        if let Ok(q) = q {
            proof {
                assert forall|i: int, j: int| 0 <= i < n1 && 0 <= j < n2 implies p.0 + i != #[trigger] (q.0 + j) + 0 * #[trigger] id(i) by {
                    if p.0 + i == q.0 + j { assert(m1.mapped(p.0 + i)); assert(m2.mapped(p.0 + i)); assert(!m2.mapped(q.0 + j)); }
                }
                assert(m2.mapped(p.0 as int)); assert(m2.at(p.0 as int) == x); assert(m.mapped(p.0 as int) && m.at(p.0 as int) == m2.at(p.0 as int));
            }
            let l = m.try_load(p);
            assert(l == Ok::<Byte, Error>(x));
        }
    }
}
pub open spec fn id(i: int) -> int { i }
fn main() {}
}
