//@include ../prelude/base.rs
//@include ../prelude/bits.rs
//@include ../prelude/wordbits.rs
//@include ../prelude/words.rs
//@include ../prelude/guest.rs
//@include ../prelude/guestmem.rs
//@include ../prelude/ctbits.rs
//@all "FheProcessor::retire(&retirement_info, " => "retirement_info.retire("
verus! {
// ---- the load and store instructions ------------------------------------------------------------
pub enum Ciphertext { L0Lwe { data: CtBits }, L1Lwe { data: CtBits }, L1Glwe { data: CtBits }, L1Ggsw { data: CtBits } }
impl Ciphertext {
//@fn parasol_cpu/src/proc/mod.rs :: Ciphertext::len
    ensures match *self { Ciphertext::L1Glwe { data } => ret == data.bits().len(), _ => true }
//@end
//@fn parasol_cpu/src/proc/mod.rs :: Ciphertext::try_into_l1glwe
//@sig fn try_into_l1glwe(&self) -> (ret: Result<&CtBits>)
    ensures match *self { Ciphertext::L1Glwe { data } => ret is Ok && *(ret->Ok_0) == data, _ => ret is Err }
//@end
}
pub enum Register { Plaintext { val: u128, width: u32 }, Ciphertext(Ciphertext) }
impl Register {
//@fn parasol_cpu/src/proc/mod.rs :: Register::width
    ensures match *self { Register::Ciphertext(Ciphertext::L1Glwe { data }) => ret == data.bits().len(), Register::Plaintext { width, .. } => ret == width, _ => true }
//@end
//@fn parasol_cpu/src/proc/mod.rs :: Register::is_ciphertext
//@presub "matches!(self, Self::Ciphertext(_))" => "match self { Self::Ciphertext(_) => true, _ => false }"
    ensures ret == (*self is Ciphertext)
//@end
}
impl Error {
//@fn parasol_cpu/src/error.rs :: Error::buffer_not_a_plaintext
    ensures ret == Error::BufferNotAPlaintext
//@end
//@fn parasol_cpu/src/error.rs :: Error::buffer_not_a_ciphertext
    ensures ret == Error::BufferNotACiphertext
//@end
}
pub struct Retirement { pub done: Option<Result<()>> }
impl Retirement {
    pub open spec fn ok(&self) -> bool { self.done is Some && self.done->0 is Ok }
    pub open spec fn err(&self) -> bool { self.done is Some && self.done->0 is Err }
    pub fn retire(&mut self, r: Result<()>) requires old(self).done is None ensures final(self).done == Some(r) { self.done = Some(r); }
}
pub struct FheProcessor { pub z: u8 }
pub assume_specification[ u32::is_power_of_two ](x: u32) -> (r: bool) ensures x <= 16 ==> r == (x == 1 || x == 2 || x == 4 || x == 8 || x == 16);
pub open spec fn size_ok(n: int) -> bool { n == 1 || n == 2 || n == 4 || n == 8 || n == 16 }
pub open spec fn misaligned(a: int, n: int) -> bool { !size_ok(n) || a % n != 0 }
//@fn parasol_cpu/src/proc/ops/mod.rs :: is_invalid_load_store_alignment
    ensures ret == misaligned(addr.0 as int, num_bytes as int)
//@end
pub proof fn page_at(a: int, n: int, i: int) requires 0 <= a < AS(), n == 1 || n == 2 || n == 4 || n == 8 || n == 16, a % n == 0, 0 <= i < n ensures a + i < AS(), (a + i) / PS() == a / PS() {
    let x = a as u32; let k = n as u32; let j = i as u32; assert(PS() == 4096); assert(AS() == 0x1_0000_0000int);
    if n == 1 { } else if n == 2 { assert(x % 2 == 0 && j < 2 ==> x <= 0xffff_ffff - j && (x + j) / 4096 == x / 4096) by (bit_vector); }
    else if n == 4 { assert(x % 4 == 0 && j < 4 ==> x <= 0xffff_ffff - j && (x + j) / 4096 == x / 4096) by (bit_vector); }
    else if n == 8 { assert(x % 8 == 0 && j < 8 ==> x <= 0xffff_ffff - j && (x + j) / 4096 == x / 4096) by (bit_vector); }
    else { assert(x % 16 == 0 && j < 16 ==> x <= 0xffff_ffff - j && (x + j) / 4096 == x / 4096) by (bit_vector); }
}
/// an aligned access stays within one page
pub proof fn one_page(a: int, n: int, i: int) requires 0 <= a < AS(), !misaligned(a, n), 0 <= i < n ensures a + i < AS(), (a + i) / PS() == a / PS() {
    if n == 1 { page_at(a, 1, i); } else if n == 2 { page_at(a, 2, i); } else if n == 4 { page_at(a, 4, i); } else if n == 8 { page_at(a, 8, i); } else { page_at(a, 16, i); }
}
impl Memory {
    /// the number whose k little-endian bytes stand at address a
    pub open spec fn num(&self, a: int, k: nat) -> int decreases k { if k == 0 { 0 } else { self.num(a, (k - 1) as nat) + self.byte(a + k - 1) * p2((8 * (k - 1)) as nat) } }
    pub open spec fn byte(&self, a: int) -> int { match self.at(a) { Byte::Plaintext(b) => b as int, _ => 0 } }
    pub open spec fn plains(&self, a: int, n: int) -> bool { forall|b: int| a <= b < a + n ==> #[trigger] self.at(b) is Plaintext }
    pub open spec fn ciphers(&self, a: int, n: int) -> bool { forall|b: int| a <= b < a + n ==> #[trigger] self.at(b) is Ciphertext }
    /// the encrypted bits that stand at address a, in order
    pub open spec fn enc(&self, a: int, k: nat) -> Seq<int> decreases k { if k == 0 { Seq::empty() } else { self.enc(a, (k - 1) as nat) + (match self.at(a + k - 1) { Byte::Ciphertext(c) => c.bits(), _ => Seq::empty() }) } }
}
pub proof fn num_bound(m: &Memory, a: int, k: nat) ensures 0 <= m.num(a, k) < p2(8 * k) decreases k {
    if k == 0 { assert(p2(0) == 1); } else { let j = (k - 1) as nat; num_bound(m, a, j); p2pos(8 * j); p2add(8 * j, 8); byte_p2(); assert(8 * j + 8 == 8 * k); let b = m.byte(a + k - 1); let P = p2(8 * j) as int; assert(m.num(a, j) + b * P < P * 256 && b * P >= 0) by (nonlinear_arith) requires m.num(a, j) < P, 0 <= b <= 255, P > 0; }
}
pub proof fn byte_p2() ensures p2(8) == 256 { shl64(8); assert(1u64 << 8usize == 256) by (bit_vector); }
/// putting a byte above what is there
pub proof fn put(r: u128, b: u8, i: u32) requires i < 16, r < p2((8 * i) as nat) ensures (r | ((b as u128) << ((8 * i) as u32))) as int == r + b * p2((8 * i) as nat), 8 * i < 128 {
    let n = (8 * i) as nat; let s = (8 * i) as u32; let x = b as u128; let s2 = s as u128; shl_is(x, s2); p2pos(n); p2add(n, 8); byte_p2(); p2mono(n + 8, 128); p2_128();
    assert(x * p2(n) < M128() && x * p2(n) >= 0) by (nonlinear_arith) requires 0 <= x <= 255, p2(n) * 256 <= M128(), p2(n) > 0; vstd::arithmetic::div_mod::lemma_small_mod((x * p2(n)) as nat, M128() as nat);
    let y = x << s; assert(y == x << s2) by (bit_vector) requires s2 == s as u128, y == x << s, s < 128; maskid(r, n); shl128(n); let m = ((1u128 << s) - 1) as u128; assert(r & m == r);
    assert(y & m == 0) by (bit_vector) requires y == x << s, m == sub(1u128 << s, 1), s < 128, x <= 255; assert(r & y == 0) by (bit_vector) requires r & m == r, y & m == 0; assert(r | y == add(r, y)) by (bit_vector) requires r & y == 0;
    assert(r + y < M128()) by (nonlinear_arith) requires r < p2(n), y == x * p2(n), 0 <= x <= 255, p2(n) * 256 <= M128();
}
pub proof fn byte_of(v: u128, i: u32) requires i < 16 ensures (v >> ((8 * i) as u32)) as u8 == (v as int / (p2((8 * i) as nat) as int)) % 256 {
    let s = (8 * i) as u32; let k = s as u128; shr128(v, (8 * i) as nat); assert((v >> s) == (v >> k)) by (bit_vector) requires k == s as u128, s < 128; let y = v >> s; assert((y as u8) as u128 == y % 256) by (bit_vector);
}
pub open spec fn addr(r: Register, offset: i32) -> int { match r { Register::Plaintext { val, .. } => (val as u32) + offset, _ => -1 } }
/// what a load of n bytes at a puts in a register
pub open spec fn loaded(m: &Memory, a: int, n: int, width: u32, d: Register) -> bool { match d {
    Register::Plaintext { val, width: w } => m.plains(a, n) && w == width && val == m.num(a, n as nat),
    Register::Ciphertext(Ciphertext::L1Glwe { data }) => m.ciphers(a, n) && data.bits() == m.enc(a, n as nat),
    _ => false } }
pub open spec fn can_load(m: &Memory, r: Register, offset: i32, n: int) -> bool { let a = addr(r, offset); r is Plaintext && 0 <= a < AS() && !misaligned(a, n) && m.mapped(a) && (m.plains(a, n) || m.ciphers(a, n)) }
/// byte k of a register
pub open spec fn reg_byte(r: Register, k: int) -> Byte { match r { Register::Plaintext { val, .. } => Byte::Plaintext(((val as int / (p2((8 * k) as nat) as int)) % 256) as u8), _ => Byte::Plaintext(0) } }
pub open spec fn is_byte(r: Register, k: int, b: Byte) -> bool { match r {
    Register::Ciphertext(Ciphertext::L1Glwe { data }) => b is Ciphertext && b->Ciphertext_0.bits() == data.bits().subrange(8 * k, 8 * k + 8),
    _ => b == reg_byte(r, k) } }
pub open spec fn storable(r: Register, width: u32) -> bool { match r { Register::Plaintext { .. } => true, Register::Ciphertext(Ciphertext::L1Glwe { data }) => data.bits().len() >= width, _ => false } }
pub open spec fn can_store(m: &Memory, d: Register, s: Register, offset: i32, width: u32) -> bool { let a = addr(d, offset); d is Plaintext && 0 <= a < AS() && !misaligned(a, width as int / 8) && m.mapped(a) && storable(s, width) }
/// the first k bytes of the register stand at a, and nothing else changed
pub open spec fn stored(m: &Memory, o: &Memory, a: int, k: int, s: Register) -> bool { m.same_but(o, a, k) && m.stack_ptr == o.stack_ptr && forall|i: int| 0 <= i < k ==> is_byte(s, i, #[trigger] m.at(a + i)) }
impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/load.rs :: FheProcessor::load >> closure
//@registers keep
//@sig fn load_impl(retirement_info: &mut Retirement, memory: &Memory, src: &Register, dst: &mut Register, offset: i32, width: u32, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, memory.wf(), width <= 128
    ensures can_load(memory, *src, offset, width as int / 8) ==> ret is Ok && final(retirement_info).ok() && loaded(memory, addr(*src, offset), width as int / 8, width, *final(dst)),
        !can_load(memory, *src, offset, width as int / 8) ==> ret is Err && final(retirement_info).done is None && *final(dst) == *old(dst)
//@at start
    let ghost a = addr(*src, offset); let ghost n = width as int / 8; let ghost can = can_load(memory, *src, offset, n);
    proof { if 0 <= a < AS() && !misaligned(a, n) { assert forall|b: int| a <= b < a + n implies #[trigger] memory.mapped(b) == memory.mapped(a) by { one_page(a, n, b - a); } }
        assert(p2(0) == 1); }
//@at init 0
    proof { assert(memory.num(a, 1) == memory.num(a, 0) + memory.byte(a + 0) * p2(0)); }
//@at loop 0
    invariant a == base_addr.0, 0 <= a < AS(), n == num_bytes, n == width as int / 8, !misaligned(a, n), memory.wf(), memory.mapped(a), forall|b: int| a <= b < a + n ==> #[trigger] memory.mapped(b) == memory.mapped(a), 1 <= __i0 <= __hi0_1 || __hi0_1 < 1, __hi0_1 == num_bytes, memory.plains(a, __i0 as int), result == memory.num(a, __i0 as nat), can == can_load(memory, *src, offset, n), src is Plaintext, a == addr(*src, offset), 
        old(retirement_info).done is None, *retirement_info == *old(retirement_info), *dst == *old(dst)
    decreases __hi0_1 - __i0
//@at start 0
    proof { one_page(a, n, i as int); num_bound(memory, a, i as nat); assert(memory.mapped(a + i)); if memory.at(a + i) is Plaintext { put(result, memory.at(a + i)->Plaintext_0, i); } else { assert(!memory.plains(a, n)) by { assert(a <= a + i < a + n); } assert(!memory.ciphers(a, n)) by { assert(memory.at(a) is Plaintext); } assert(!can_load(memory, *src, offset, n)); } }
//@at init 1
    proof { assert(memory.enc(a, 1) =~= memory.enc(a, 0) + result.bits()); }
//@at loop 1
    invariant a == base_addr.0, 0 <= a < AS(), n == num_bytes, n == width as int / 8, !misaligned(a, n), memory.wf(), memory.mapped(a), forall|b: int| a <= b < a + n ==> #[trigger] memory.mapped(b) == memory.mapped(a), 1 <= __i1 <= __hi1_1 || __hi1_1 < 1, __hi1_1 == num_bytes, memory.ciphers(a, __i1 as int), result.bits() == memory.enc(a, __i1 as nat), can == can_load(memory, *src, offset, n), src is Plaintext, a == addr(*src, offset),
        old(retirement_info).done is None, *retirement_info == *old(retirement_info), *dst == *old(dst)
    decreases __hi1_1 - __i1
//@at start 1
    proof { one_page(a, n, i as int); assert(memory.mapped(a + i)); if memory.at(a + i) is Ciphertext { } else { assert(!memory.ciphers(a, n)) by { assert(a <= a + i < a + n); } assert(!memory.plains(a, n)) by { assert(memory.at(a) is Ciphertext); } } }
//@end
//@fn parasol_cpu/src/proc/ops/load.rs :: FheProcessor::load
//@lift FheProcessor::load_impl(retirement_info, memory, src, dst, offset, width, instruction_id, pc)
//@sig fn load(&mut self, retirement_info: &mut Retirement, memory: &Memory, src: &Register, dst: &mut Register, offset: i32, width: u32, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, memory.wf(), width <= 128
    ensures can_load(memory, *src, offset, width as int / 8) ==> final(retirement_info).ok() && loaded(memory, addr(*src, offset), width as int / 8, width, *final(dst)),
        !can_load(memory, *src, offset, width as int / 8) ==> final(retirement_info).err() && *final(dst) == *old(dst)
//@end
//@fn parasol_cpu/src/proc/ops/store.rs :: FheProcessor::store >> closure
//@registers keep
//@sub "let mut dst = dst.entry_force_mut();" => ""
//@sub "let dst = &mut **dst;" => ""
//@presub "&val[8 * i as usize..8 * i as usize + 8]" => "val.slice(8 * i as usize, 8 * i as usize + 8)"
//@sig fn store_impl(retirement_info: &mut Retirement, memory: &mut Memory, src: &Register, dst: &Register, offset: i32, width: u32, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, old(memory).wf(), width <= 128
    ensures final(memory).wf(), can_store(old(memory), *dst, *src, offset, width) ==> ret is Ok && final(retirement_info).ok() && stored(final(memory), old(memory), addr(*dst, offset), width as int / 8, *src),
        !can_store(old(memory), *dst, *src, offset, width) ==> ret is Err && final(retirement_info).done is None && final(memory).same(old(memory))
//@at start
    let ghost a = addr(*dst, offset); let ghost n = width as int / 8; let ghost m0 = *memory;
    proof { if 0 <= a < AS() && !misaligned(a, n) { assert forall|b: int| a <= b < a + n implies #[trigger] memory.mapped(b) == memory.mapped(a) by { one_page(a, n, b - a); } } }
//@at loop 0
    invariant a == base_addr.0, 0 <= a < AS(), n == num_bytes, n == width as int / 8, !misaligned(a, n), memory.wf(), forall|b: int| a <= b < a + n ==> #[trigger] m0.mapped(b) == m0.mapped(a), 0 <= __i0 <= __hi0_1, __hi0_1 == num_bytes, stored(memory, &m0, a, __i0 as int, *src), __i0 > 0 ==> m0.mapped(a) && storable(*src, width), dst is Plaintext, a == addr(*dst, offset), m0 == *old(memory),
        src is Ciphertext ==> match *src { Register::Ciphertext(Ciphertext::L1Glwe { data }) => data.bits().len() >= width, _ => true },
        old(retirement_info).done is None, *retirement_info == *old(retirement_info)
    decreases __hi0_1 - __i0
//@at start 0
    let ghost m1 = *memory;
    proof { one_page(a, n, i as int); assert(m0.mapped(a + i) == m0.mapped(a)); assert(memory.mapped(a + i) == m0.mapped(a + i)); if src is Plaintext { byte_of(src->val, i); } }
//@at end 0
    proof { assert(stored(memory, &m0, a, i + 1, *src)) by { assert forall|k: int| 0 <= k < i + 1 implies is_byte(*src, k, #[trigger] memory.at(a + k)) by { one_page(a, n, k); assert(m0.mapped(a + k)); if k < i { assert(memory.at(a + k) == m1.at(a + k)); } } } }
//@end
//@fn parasol_cpu/src/proc/ops/store.rs :: FheProcessor::store
//@lift FheProcessor::store_impl(retirement_info, memory, src, dst, offset, width, instruction_id, pc)
//@sig fn store(&mut self, retirement_info: &mut Retirement, memory: &mut Memory, src: &Register, dst: &Register, offset: i32, width: u32, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, old(memory).wf(), width <= 128
    ensures final(memory).wf(), can_store(old(memory), *dst, *src, offset, width) ==> final(retirement_info).ok() && stored(final(memory), old(memory), addr(*dst, offset), width as int / 8, *src),
        !can_store(old(memory), *dst, *src, offset, width) ==> final(retirement_info).err() && final(memory).same(old(memory))
//@end
}
} // verus!
fn main() {}
