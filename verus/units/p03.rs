//@include ../prelude/base.rs
//@include ../prelude/guest.rs
//@include ../prelude/guestmem.rs
//@include ../prelude/gueststack.rs
//@all "max.max(" => "xmax(max, "
verus! {
// ---- the call data: where arguments and the return value go ---------------------------------------
use core::marker::PhantomData;
pub fn xmax(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub struct ReturnValue<T> { pub alignment: usize, pub size: usize, pub _phantom: PhantomData<T> }
pub struct CallData<T> { pub return_value: ReturnValue<T>, pub args: Vec<Arg> }
pub assume_specification[ usize::next_multiple_of ](x: usize, a: usize) -> (r: usize) requires a > 0, up(x as int, a as int) <= usize::MAX ensures r == up(x as int, a as int);
/// the next multiple of a
pub open spec fn up(x: int, a: int) -> int { x + (a - x % a) % a }
pub open spec fn ok_align(a: int) -> bool { a == 1 || a == 2 || a == 4 || a == 8 || a == 16 || a == 32 || a == 64 || a == 128 || a == 256 || a == 512 || a == 1024 || a == 2048 || a == 4096 }
/// where argument k starts, and how many bytes the first k arguments take
pub open spec fn start(s: Seq<Arg>, k: int) -> int { up(off(s, k), s[k].alignment as int) }
pub open spec fn off(s: Seq<Arg>, k: int) -> int decreases k { if k <= 0 { 0 } else { up(off(s, k - 1), s[k - 1].alignment as int) + s[k - 1].bytes@.len() } }
pub open spec fn ok_args(s: Seq<Arg>) -> bool { forall|k: int| 0 <= k < s.len() ==> ok_align(#[trigger] s[k].alignment as int) }
pub open spec fn max_al(s: Seq<Arg>, k: int, m: int) -> int decreases k { if k <= 0 { m } else { let r = max_al(s, k - 1, m); if r >= s[k - 1].alignment { r } else { s[k - 1].alignment as int } } }
pub proof fn up_is(x: int, a: int) requires x >= 0, a > 0 ensures x <= up(x, a) < x + a, up(x, a) % a == 0, up(x, a) >= 0 {
    let m = x % a; let q = x / a; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, a); assert(0 <= m < a) by (nonlinear_arith) requires x >= 0, a > 0, m == x % a;
    if m == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(a); assert((a - m) % a == 0); assert(up(x, a) == x); }
    else { vstd::arithmetic::div_mod::lemma_small_mod((a - m) as nat, a as nat); assert(up(x, a) == a * (q + 1)) by (nonlinear_arith) requires up(x, a) == x + a - m, x == a * q + m; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, a); assert((q + 1) * a == a * (q + 1)) by (nonlinear_arith); }
}
pub proof fn off_grows(s: Seq<Arg>, i: int, j: int) requires 0 <= i <= j <= s.len(), ok_args(s) ensures 0 <= off(s, i) <= off(s, j), i < j ==> off(s, i) <= start(s, i) && start(s, i) + s[i].bytes@.len() <= off(s, j) decreases j {
    if j == 0 {} else if i < j { off_grows(s, i, j - 1); off_grows(s, 0, j - 1); assert(ok_align(s[j - 1].alignment as int)); up_is(off(s, j - 1), s[j - 1].alignment as int); if i < j - 1 { } } else { off_grows(s, 0, j - 1); assert(ok_align(s[j - 1].alignment as int)); up_is(off(s, j - 1), s[j - 1].alignment as int); }
}
impl<T> CallData<T> {
    pub open spec fn n(&self) -> int { self.args@.len() as int }
    pub open spec fn has_ret(&self) -> bool { self.return_value.size > 0 }
    pub open spec fn ret_at(&self) -> int { up(off(self.args@, self.n()), self.return_value.alignment as int) }
    pub open spec fn total(&self) -> int { if self.has_ret() { self.ret_at() + self.return_value.size } else { off(self.args@, self.n()) } }
    pub open spec fn size(&self) -> int { up(self.total(), 16) }
    pub open spec fn align(&self) -> int { max_al(self.args@, self.n(), if self.has_ret() { self.return_value.alignment as int } else { 1 }) }
    pub open spec fn ok(&self) -> bool { ok_args(self.args@) && ok_align(self.return_value.alignment as int) && self.total() + 16 < AS() }
//@fn parasol_cpu/src/proc/args.rs :: CallData::max_alignment
    ensures ret == self.align()
//@at loop 0
    invariant __n0 == self.args@.len(), __s0_0@ == self.args@, __i0 <= __n0, max == max_al(self.args@, __i0 as int, if self.has_ret() { self.return_value.alignment as int } else { 1 })
    decreases __n0 - __i0
//@end
//@fn parasol_cpu/src/proc/args.rs :: CallData::alloc_size
    requires self.ok() ensures ret == self.size()
//@at loop 0
    invariant self.ok(), __n0 == self.args@.len(), __s0_0@ == self.args@, __i0 <= __n0, offset == off(self.args@, __i0 as int)
    decreases __n0 - __i0
//@at start 0
    proof { let s = self.args@; let i = __j0 as int; assert(ok_align(s[i].alignment as int)); off_grows(s, i, s.len() as int); off_grows(s, i + 1, s.len() as int); up_is(off(s, s.len() as int), self.return_value.alignment as int); up_is(off(s, i), s[i].alignment as int); }
//@at after 0
    proof { let s = self.args@; off_grows(s, 0, s.len() as int); up_is(off(s, s.len() as int), self.return_value.alignment as int); up_is(self.total(), 16); }
//@end
}
pub proof fn max_is(s: Seq<Arg>, k: int, m: int) requires 0 <= k <= s.len(), ok_args(s), ok_align(m) ensures ok_align(max_al(s, k, m)), max_al(s, k, m) >= m, forall|i: int| 0 <= i < k ==> max_al(s, k, m) >= #[trigger] s[i].alignment decreases k { if k > 0 { max_is(s, k - 1, m); assert(ok_align(s[k - 1].alignment as int)); assert forall|i: int| 0 <= i < k implies max_al(s, k, m) >= #[trigger] s[i].alignment by { if i < k - 1 { assert(max_al(s, k - 1, m) >= s[i].alignment); } } } }
/// an alignment divides every larger one
pub proof fn divides(a: int, b: int) requires ok_align(a), ok_align(b), a <= b ensures b % a == 0 {
    let x = a as u32; let y = b as u32; assert((x & sub(x, 1)) == 0 && (y & sub(y, 1)) == 0) by { assert(x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32 || x == 64 || x == 128 || x == 256 || x == 512 || x == 1024 || x == 2048 || x == 4096 ==> x & sub(x, 1) == 0) by (bit_vector); assert(y == 1 || y == 2 || y == 4 || y == 8 || y == 16 || y == 32 || y == 64 || y == 128 || y == 256 || y == 512 || y == 1024 || y == 2048 || y == 4096 ==> y & sub(y, 1) == 0) by (bit_vector); }
    assert(y % x == 0) by (bit_vector) requires x & sub(x, 1) == 0, y & sub(y, 1) == 0, 0 < x, x <= y, y <= 4096;
}
/// aligning an address above an aligned base is aligning the offset
pub proof fn up_base(b: int, x: int, a: int, m: int) requires b >= 0, x >= 0, ok_align(a), ok_align(m), a <= m, b % m == 0 ensures up(b + x, a) == b + up(x, a), (b + x) % a == x % a {
    divides(a, m); let q = b / m; let k = m / a; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, m); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, a);
    assert(b == a * (k * q)) by (nonlinear_arith) requires b == m * q, m == a * k; vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k * q, x, a); assert(a * (k * q) + x == b + x);
}
pub struct RegisterName { pub name: usize }
pub enum Register { Plaintext { val: u128, width: u32 }, Ciphertext(CtBits) }
/// the register file: what renaming a register and writing the new entry leaves in it
pub struct Entry { pub name: usize, pub val: Register }
pub struct RegisterFile { pub z: u8 }
impl RegisterFile { #[verifier::external_body] pub fn rename(&self, r: RegisterName, by: Option<u8>) -> (e: Entry) ensures e.name == r.name { unimplemented!() } }
pub const RP: RegisterName = RegisterName { name: 10 };
pub const SP: RegisterName = RegisterName { name: 2 };
pub struct FheProcessor { pub registers: RegisterFile }
pub open spec fn holds32(e: Entry, v: int) -> bool { e.val is Plaintext && e.val->val == v && e.val->width == 32 }
/// where the stack pointer goes: down by the size of the call data, then down to the alignment
pub open spec fn frame<T>(sp: int, c: &CallData<T>) -> int { let a = if c.align() >= 16 { c.align() } else { 16 }; (sp - c.size()) - (sp - c.size()) % a }
pub open spec fn can_call<T>(m: &Memory, c: &CallData<T>) -> bool { let sp = m.stack_ptr.v.0 as int; sp > 0 && c.size() <= sp && m.all_mapped(frame(sp, c), sp - frame(sp, c)) }
/// the first k arguments stand where the convention puts them
pub open spec fn laid(m: &Memory, p: int, s: Seq<Arg>, k: int) -> bool { forall|i: int| 0 <= i < k ==> m.bytes_at(p + start(s, i), #[trigger] s[i].bytes@) }
pub open spec fn first_bytes(m: &Memory, q: int, nb: Seq<Byte>, n: int) -> bool { forall|k: int| 0 <= k < n ==> m.has_byte(q + k, #[trigger] nb[k]) }
/// one more byte of an argument stored
pub proof fn one_byte(o: &Memory, m2: &Memory, w: &Memory, m: &Memory, p: int, len: int, q: int, j: int, nb: Seq<Byte>)
    requires 0 <= j < nb.len(), 0 <= p <= q, q + nb.len() <= p + len, p + len < AS(), o.all_mapped(p, len), w.same_but(m2, q, j), m2.same_but(o, p, len), w.same_but(o, p, len), m.same_but(w, q + j, 1), first_bytes(w, q, nb, j), m.at(q + j) == nb[j]
    ensures m.same_but(m2, q, j + 1), m.same_but(o, p, len), first_bytes(m, q, nb, j + 1)
{
    lemma_step(m2, w, m, q, j);
    assert forall|b: int| 0 <= b < AS() implies #[trigger] m.mapped(b) == o.mapped(b) by { assert(w.mapped(b) == o.mapped(b)); }
    assert forall|b: int| 0 <= b < AS() && o.mapped(b) && !(p <= b < p + len) implies #[trigger] m.at(b) == o.at(b) by { assert(w.mapped(b) == o.mapped(b)); assert(w.at(b) == o.at(b)); }
    assert forall|k: int| 0 <= k < j + 1 implies m.has_byte(q + k, #[trigger] nb[k]) by { assert(o.mapped(q + k)); if k < j { assert(w.has_byte(q + k, nb[k])); assert(m.mapped(q + k) && m.at(q + k) == w.at(q + k)); } }
}
/// one more argument laid out, where the bytes of the earlier ones are not touched
pub proof fn one_arg(m2: &Memory, m: &Memory, p: int, s: Seq<Arg>, i: int)
    requires 0 <= i < s.len(), ok_args(s), 0 <= p, p + off(s, i + 1) < AS(), m.same_but(m2, p + start(s, i), s[i].bytes@.len() as int), laid(m2, p, s, i), first_bytes(m, p + start(s, i), s[i].bytes@, s[i].bytes@.len() as int)
    ensures laid(m, p, s, i + 1)
{
    assert forall|k: int| 0 <= k < i + 1 implies m.bytes_at(p + start(s, k), #[trigger] s[k].bytes@) by {
        let b = s[k].bytes@; let u = p + start(s, k); assert(ok_align(s[k].alignment as int)); assert(ok_align(s[i].alignment as int)); off_grows(s, k, i); off_grows(s, 0, k); off_grows(s, i, i + 1); up_is(off(s, k), s[k].alignment as int); up_is(off(s, i), s[i].alignment as int);
        assert forall|z: int| 0 <= z < b.len() implies m.has_byte(u + z, #[trigger] b[z]) by { if k < i { assert(m2.bytes_at(u, b)); assert(m2.has_byte(u + z, b[z])); assert(m.mapped(u + z) == m2.mapped(u + z)); assert(m.at(u + z) == m2.at(u + z)); } } }
}
impl FheProcessor {
//@fn parasol_cpu/src/proc/fhe_processor.rs :: FheProcessor::set_up_function_call
//@sig fn set_up_function_call<T>(&mut self, memory: &mut Memory, args: &CallData<T>) -> (ret: Result<Ptr32>)
//@presub "bytes: vec![Byte::Plaintext(0); call_data_size]," => "bytes: zero_page(call_data_size),"
//@presub "args.max_alignment().max(16)" => "xmax(args.max_alignment(), 16)"
//@presub "unwrap_registers!((mut rob_a0));" => ""
//@presub "unwrap_registers!((mut rob_sp));" => ""
//@presub "let rob_a0 = " => "let mut rob_a0 = "
//@presub "let rob_sp = " => "let mut rob_sp = "
//@presub "*rob_a0 = " => "rob_a0.val = "
//@presub "*rob_sp = " => "rob_sp.val = "
    requires old(memory).wf(), args.ok()
    ensures final(memory).wf(), ({ let sp = old(memory).stack_ptr.v.0 as int; let p = frame(sp, args);
        &&& (ret is Ok <==> can_call(old(memory), args))
        &&& (ret is Err ==> *final(memory) == *old(memory))
        &&& (ret is Ok ==> final(memory).stack_ptr.v.0 == p && p % 16 == 0 && p + args.total() <= sp && final(memory).same_but(old(memory), p, sp - p))
        &&& (ret is Ok ==> laid(final(memory), p, args.args@, args.n()))
        &&& (ret is Ok ==> ret->Ok_0.0 == if args.has_ret() { p + args.ret_at() } else { 0 }) })
//@at start
    let ghost o = *memory; let ghost osp = memory.stack_ptr.v.0 as int; let ghost p = frame(osp, args); let ghost s = args.args@; let ghost n = args.n(); let ghost al = if args.align() >= 16 { args.align() } else { 16 };
    proof { let r = args.return_value.alignment as int; max_is(s, n, if args.has_ret() { r } else { 1 }); off_grows(s, 0, n); up_is(off(s, n), r); up_is(args.total(), 16); if args.size() <= osp { lemma_down(osp - args.size(), al); divides(16, al); up_base(p, 0, 16, al); } }
//@at init 0
    let ghost m1 = *memory;
//@at loop 0
    invariant __n0 == n, n == s.len(), s == args.args@, n == args.n(), __s0_0@ == s, __i0 <= n, args.ok(), memory.wf(), p == frame(osp, args), osp < AS(), can_call(&o, args), al == (if args.align() >= 16 { args.align() } else { 16 }), al >= args.align(), ok_align(al), p % al == 0, 0 <= p, p + args.size() <= osp, off(s, n) <= args.total() <= args.size(), max_al(s, n, if args.has_ret() { args.return_value.alignment as int } else { 1 }) <= al, o.all_mapped(p, osp - p), osp == o.stack_ptr.v.0,
        ok_align(if args.has_ret() { args.return_value.alignment as int } else { 1 }), sp.0 == p, memory.stack_ptr.v.0 == p, memory.same_but(&o, p, osp - p), after_call_data.0 == p + off(s, __i0 as int), laid(memory, p, s, __i0 as int)
    decreases n - __i0
//@at start 0
    let ghost i = __j0 as int; let ghost q = p + start(s, i); let ghost m2 = *memory; let ghost nb = arg.bytes@;
    proof { assert(ok_align(s[i].alignment as int)); max_is(s, n, if args.has_ret() { args.return_value.alignment as int } else { 1 }); off_grows(s, i, n); off_grows(s, 0, i); up_base(p, off(s, i), s[i].alignment as int, al); up_is(off(s, i), s[i].alignment as int); }
//@at loop 1
    invariant __n1 == nb.len(), __s1_0@ == nb, __i1 <= nb.len(), nb == s[i].bytes@, 0 <= i < n, n == s.len(), memory.wf(), 0 <= p <= q, q + nb.len() <= osp, osp < AS(), q == p + start(s, i), q >= p + off(s, i), after_call_data.0 == q + __i1, o.all_mapped(p, osp - p), memory.stack_ptr.v.0 == p, memory.same_but(&o, p, osp - p), ok_args(s), m2.wf(),
        memory.same_but(&m2, q, __i1 as int), laid(&m2, p, s, i), m2.same_but(&o, p, osp - p), first_bytes(memory, q, nb, __i1 as int)
    decreases nb.len() - __i1
//@at start 1
    let ghost w = *memory; let ghost j = __j1 as int; proof { assert(o.mapped(q + j)); assert(w.mapped(q + j)); }
//@at end 1
    proof { one_byte(&o, &m2, &w, memory, p, osp - p, q, j, nb); }
//@at end 0
    proof { one_arg(&m2, memory, p, s, i); }
//@at after 0
    proof { if args.has_ret() { up_base(p, off(s, n), args.return_value.alignment as int, al); } }
//@at end
    proof { assert(rob_a0.name == 10 && rob_sp.name == 2 && holds32(rob_a0, return_ptr.0 as int) && holds32(rob_sp, p)); }
//@end
//@fn parasol_cpu/src/proc/fhe_processor.rs :: FheProcessor::try_capture_return_value
//@sig fn try_capture_return_value<T: ToArg>(&self, memory: &Memory, args: &CallData<T>, return_value_ptr: Ptr32) -> (ret: Result<T>)
//@presub "T::try_from_bytes(vec![])" => "T::try_from_bytes(Vec::new())"
    requires T::okt(), memory.wf(), args.ok()
    ensures ({ let a = return_value_ptr.0 as int; let n = args.return_value.size as int; let ok = n == 0 || (a + n <= AS() && memory.all_mapped(a, n)); (ok ==> T::back(Seq::new(n as nat, |k: int| memory.at(a + k)), ret)) && (!ok ==> ret is Err) })
//@at start
    let ghost a = return_value_ptr.0 as int; let ghost n = args.return_value.size as int;
    proof { if n == 0 { assert(Seq::new(n as nat, |k: int| memory.at(a + k)) =~= Seq::<Byte>::empty()); } let s = args.args@; off_grows(s, 0, s.len() as int); up_is(off(s, s.len() as int), args.return_value.alignment as int); }
//@at loop 0
    invariant memory.wf(), a == return_value_ptr.0, 0 < n < AS(), 0 <= __i0 <= n, __hi0_1 == n, n == args.return_value.size, __i0 > 0 ==> a + __i0 <= AS(), data@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> memory.mapped(a + k) && #[trigger] data@[k] == memory.at(a + k)
    decreases n - __i0
//@at start 0
    proof { if n == 0 || (a + n <= AS() && memory.all_mapped(a, n)) { assert(memory.mapped(a + i)); } }
//@at after 0
    proof { assert(data@ =~= Seq::new(n as nat, |k: int| memory.at(a + k))); assert forall|b: int| a <= b < a + n implies #[trigger] memory.mapped(b) by { assert(data@[b - a] == memory.at(a + (b - a))); } }
//@end
}
/// the argument made from a value, and the request for a returned one
pub open spec fn arg_of<T: ToArg>(a: Arg, x: &T) -> bool { a.alignment == T::al() && a.bytes@ == x.bytes() && a.bytes@.len() == T::sz() }
//@fn parasol_cpu/src/proc/args.rs :: trait ToArg::bytes_to_arg
//@sig fn bytes_to_arg<T: ToArg>(bytes: Vec<Byte>) -> (ret: Arg)
//@sub "Self::" => "T::"
    requires T::okt() ensures ret.alignment == T::al(), ret.bytes@ == bytes@
//@end
//@fn parasol_cpu/src/proc/args.rs :: trait ToArg::to_arg
//@sig fn to_arg<T: ToArg>(this: &T) -> (ret: Arg)
//@sub "self." => "this."
//@sub "Self::bytes_to_arg(" => "bytes_to_arg::<T>(" optional
//@sub "Self::" => "T::" optional
    requires T::okt(), this.ok() ensures arg_of(ret, this)
//@end
//@fn parasol_cpu/src/proc/args.rs :: trait ToArg::to_return_value
//@sig fn to_return_value<T: ToArg>() -> (ret: ReturnValue<T>)
//@sub "Self::" => "T::"
    requires T::okt() ensures ret.alignment == T::al(), ret.size == T::sz()
//@end
//@fn parasol_cpu/src/proc/args.rs :: trait DynamicToArg::to_arg
//@sig fn to_arg_dyn<T: DynamicToArg>(this: &T) -> (ret: Arg)
//@sub "self." => "this."
    requires this.ok() ensures ret.alignment == this.al(), ret.bytes@ == this.bytes(), ret.bytes@.len() == this.sz()
//@end
pub struct ArgsBuilder { pub args: Vec<Arg> }
impl ArgsBuilder {
//@fn parasol_cpu/src/proc/args.rs :: ArgsBuilder::new
    ensures ret.args@.len() == 0
//@end
//@fn parasol_cpu/src/proc/args.rs :: ArgsBuilder::arg
//@sig fn arg<T: ToArg>(self, val: T) -> (ret: Self)
//@sub "val.to_arg()" => "to_arg(&val)"
//@sub "self" => "this"
//@sub "SELF" => "self"
    requires T::okt(), val.ok() ensures ret.args@.len() == self.args@.len() + 1, ret.args@.drop_last() == self.args@, arg_of(ret.args@.last(), &val)
//@at start
    let ghost s0 = SELF.args@; let mut this = SELF;
//@at end
    proof { assert(this.args@.drop_last() =~= s0); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: ArgsBuilder::arg_dyn
//@sig fn arg_dyn<T: DynamicToArg>(self, val: T) -> (ret: Self)
//@sub "val.to_arg()" => "to_arg_dyn(&val)"
//@sub "self" => "this"
//@sub "SELF" => "self"
    requires val.ok() ensures ret.args@.len() == self.args@.len() + 1, ret.args@.drop_last() == self.args@, ret.args@.last().alignment == val.al(), ret.args@.last().bytes@ == val.bytes()
//@at start
    let ghost s0 = SELF.args@; let mut this = SELF;
//@at end
    proof { assert(this.args@.drop_last() =~= s0); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: ArgsBuilder::return_value
//@sig fn return_value<T: ToArg>(self) -> (ret: CallData<T>)
//@sub "T::to_return_value()" => "to_return_value::<T>()"
    requires T::okt() ensures ret.args@ == self.args@, ret.return_value.alignment == T::al(), ret.return_value.size == T::sz()
//@end
//@fn parasol_cpu/src/proc/args.rs :: ArgsBuilder::return_value_raw
    ensures ret.args@ == self.args@, ret.return_value.alignment == align, ret.return_value.size == num_bytes
//@end
}
/// no two arguments overlap, none overlaps the return value, and each is aligned
pub proof fn apart<T>(c: &CallData<T>, i: int, j: int) requires c.ok(), 0 <= i < c.n() ensures
    start(c.args@, i) % (c.args@[i].alignment as int) == 0, 0 <= start(c.args@, i), i < j < c.n() ==> start(c.args@, i) + c.args@[i].bytes@.len() <= start(c.args@, j), start(c.args@, i) + c.args@[i].bytes@.len() <= c.total(), c.has_ret() ==> start(c.args@, i) + c.args@[i].bytes@.len() <= c.ret_at() {
    let s = c.args@; let n = c.n(); assert(ok_align(s[i].alignment as int)); off_grows(s, 0, i); up_is(off(s, i), s[i].alignment as int); off_grows(s, i, n); off_grows(s, 0, n); up_is(off(s, n), c.return_value.alignment as int); if i < j && j < n { assert(ok_align(s[j].alignment as int)); off_grows(s, i, j); off_grows(s, 0, j); up_is(off(s, j), s[j].alignment as int); }
}
/// what a program set up to be called finds: at every byte of every argument, the byte of the value the caller passed
pub proof fn called<T: ToArg, R>(o: &Memory, m: &Memory, c: &CallData<R>, k: int, val: &T, j: int) requires c.ok(), 0 <= k < c.n(), arg_of(c.args@[k], val), 0 <= j < T::sz(), laid(m, frame(o.stack_ptr.v.0 as int, c), c.args@, c.n())
    ensures m.has_byte(frame(o.stack_ptr.v.0 as int, c) + start(c.args@, k) + j, val.bytes()[j]) { let p = frame(o.stack_ptr.v.0 as int, c); let b = c.args@[k].bytes@; assert(m.bytes_at(p + start(c.args@, k), b)); assert(m.has_byte(p + start(c.args@, k) + j, b[j])); }
} // verus!
fn main() {}
