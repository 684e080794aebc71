//@include ../prelude/base.rs
//@include ../prelude/bits.rs
//@include ../prelude/wordbits.rs
//@include ../prelude/words.rs
//@all "FheProcessor::retire(&retirement_info, " => "retirement_info.retire("
//@all "FheProcessor::retire(& retirement_info, " => "retirement_info.retire("
verus! {
// ---- the machine's registers ------------------------------------------------------------------
/// an encrypted register: never looked at here
pub enum Ciphertext { L0Lwe { data: Vec<u8> }, L1Lwe { data: Vec<u8> }, L1Glwe { data: Vec<u8> }, L1Ggsw { data: Vec<u8> } }
impl Ciphertext { #[verifier::external_body] pub fn len(&self) -> usize { 0 } }
pub enum Error { WidthMismatch { inst_id: usize, pc: u32 }, UnsupportedWidth { inst_id: usize, pc: u32 }, OutOfRange { inst_id: usize, pc: u32 }, EncryptionMismatch, BranchConditionNotPlaintext, Halt }
impl Error {
//@fn parasol_cpu/src/error.rs :: Error::unsupported_width
//@ret r
    ensures r == (Error::UnsupportedWidth { inst_id, pc })
//@end
//@fn parasol_cpu/src/error.rs :: Error::out_of_range
//@ret r
    ensures r == (Error::OutOfRange { inst_id, pc })
//@end
}
pub type Result<T> = core::result::Result<T, Error>;
pub enum Register { Plaintext { val: u128, width: u32 }, Ciphertext(Ciphertext) }
pub open spec fn okv(v: u128, w: u32) -> bool { 1 <= w <= 128 && v < p2(w as nat) }
impl Register {
    /// a plaintext register of a width the machine has, holding a number of that width
    pub open spec fn ok(&self) -> bool { match self { Register::Plaintext { val, width } => okv(*val, *width), _ => false } }
    pub open spec fn rv(&self) -> u128 { match self { Register::Plaintext { val, .. } => *val, _ => 0 } }
    pub open spec fn rw(&self) -> u32 { match self { Register::Plaintext { width, .. } => *width, _ => 0 } }
    pub open spec fn v(&self) -> int { match self { Register::Plaintext { val, .. } => *val as int, _ => 0 } }
    pub open spec fn w(&self) -> nat { match self { Register::Plaintext { width, .. } => *width as nat, _ => 0 } }
    pub open spec fn is(&self, v: int, w: nat) -> bool { match self { Register::Plaintext { val, width } => val == v && width == w && okv(*val, *width), _ => false } }
}
impl Register {
//@fn parasol_cpu/src/proc/mod.rs :: Register::width
//@ret r
    ensures self.ok() ==> r == self.w()
//@end
}
/// what an instruction was retired with: `retire` may be called once
pub struct Retirement { pub done: Option<Result<()>> }
impl Retirement {
    pub open spec fn ok(&self) -> bool { self.done is Some && self.done->0 is Ok }
    pub open spec fn err(&self, e: Error) -> bool { self.done is Some && self.done->0 is Err && self.done->0->Err_0 == e }
    pub fn retire(&mut self, r: Result<()>) requires old(self).done is None ensures final(self).done == Some(r) { self.done = Some(r); }
}
/// code for encrypted operands stands behind this call: proved unreachable for plaintext operands
#[verifier::external_body]
pub fn encrypted() -> (r: Result<()>) requires false { loop {} }
pub struct FheProcessor { pub z: u8 }
pub struct Unused;
#[allow(non_camel_case_types)] pub struct compare_equal;
// ---- words of an arbitrary width ---------------------------------------------------------------
/// the value of a `w`-bit word read as two's complement
pub open spec fn sgn(v: int, w: nat) -> int { if v < p2((w - 1) as nat) { v } else { v - p2(w) } }
/// division rounding down
pub open spec fn rotr_spec(v: int, s: nat, w: nat) -> int { let k = s % w; v / (p2(k) as int) + (v % (p2(k) as int)) * (p2((w - k) as nat) as int) }
pub assume_specification[ u128::wrapping_neg ](a: u128) -> (r: u128) ensures r as int == (-(a as int)) % (u128::MAX as int + 1);
pub assume_specification[ u128::overflowing_add ](a: u128, b: u128) -> (r: (u128, bool)) ensures r.0 as int == (a + b) % (u128::MAX as int + 1), r.1 == (a + b >= (u128::MAX as int + 1));

/// what `m` keeps of any number is what it is modulo the power of two
pub open spec fn keeps(m: u128, w: nat) -> bool { forall|x: u128| #[trigger] (x & m) as int == (x as int) % (p2(w) as int) }
//@fn parasol_cpu/src/proc/mod.rs :: width_mask
//@ret r
    requires width <= 128
    ensures r as int == p2(width as nat) - 1, keeps(r, width as nat)
//@at start
    proof { p2le128(width as nat); p2_128(); shl128(if width < 128 { width as nat } else { 0 }); let m = (p2(width as nat) - 1) as u128; assert forall|x: u128| #[trigger] (x & m) as int == (x as int) % (p2(width as nat) as int) by { mask128(x, if width < 128 { width as nat } else { 0 }); bits_of(x as int, width as nat);
        if width == 128 { assert(x & 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff == x) by (bit_vector); vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p2(128)); } } }
//@end
//@fn parasol_cpu/src/proc/mod.rs :: check_register_width
//@ret r
    requires a.ok(), b.ok()
    ensures match r { Ok(_) => a.w() == b.w(), Err(e) => a.w() != b.w() && e == (Error::WidthMismatch { inst_id: instruction_id, pc }) }
//@end

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/add.rs :: FheProcessor::add >> closure
//@registers
//@sig fn add_impl(retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> ret is Ok && final(retirement_info).ok() && final(dst).is((a.v() + b.v()) % (p2(a.w()) as int), a.w()),
        !(a.w() == b.w()) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2le128(a.w()); mod128(a.v() + b.v(), a.w()); wrap128(a.v() + b.v()); vstd::arithmetic::div_mod::lemma_mod_bound(a.v() + b.v(), p2(a.w()) as int); }
//@end
//@fn parasol_cpu/src/proc/ops/add.rs :: FheProcessor::add
//@lift FheProcessor::add_impl(retirement_info, dst, a, b, instruction_id, pc)
//@sig fn add(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is((a.v() + b.v()) % (p2(a.w()) as int), a.w()),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

//@fn parasol_cpu/src/proc/ops/add.rs :: add_with_carry
//@ret r
//@sub "overflow1 | overflow2" => "overflow1 || overflow2" optional
    requires okv(a, width), okv(b, width), carry_in <= 1
    ensures r.0 as int == (a + b + carry_in) % (p2(width as nat) as int), r.1 as int == (a + b + carry_in) / (p2(width as nat) as int), r.1 <= 1
//@at end
    proof { let W = width as nat; let P = p2(W) as int; p2le128(W); let S = a + b + carry_in; mod128(S, W); p2_128();
        let M = M128(); vstd::arithmetic::div_mod::lemma_add_mod_noop(a + b, carry_in as int, M); vstd::arithmetic::div_mod::lemma_mod_twice(a + b, M); vstd::arithmetic::div_mod::lemma_add_mod_noop((a + b) % M, carry_in as int, M); assert(full_sum as int == S % M);
        assert(0 <= S < 2 * P); 
        assert(S / P == (if S < P { 0int } else { 1 })) by (nonlinear_arith) requires 0 <= S < 2 * P, P > 0;
        if width < 128 { p2mono(W, 127); p2dbl(128); vstd::arithmetic::div_mod::lemma_small_mod(S as nat, M as nat); shr128(full_sum, W); let k = width as u128; assert((full_sum >> width) == (full_sum >> k)) by (bit_vector) requires k == width as u128, width < 128; let y = full_sum >> width; assert(y <= 1); assert((y & 1) == y) by (bit_vector) requires y <= 1; }
        else { if a + b >= M { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, a + b - M, M); assert(M * 1 + (a + b - M) == a + b); vstd::arithmetic::div_mod::lemma_small_mod((a + b - M) as nat, M as nat); } else { vstd::arithmetic::div_mod::lemma_small_mod((a + b) as nat, M as nat); }
            let o1 = overflow1; let o2 = overflow2; assert(P == M); } }
//@end

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/add.rs :: FheProcessor::add_carry >> closure
//@registers
//@sig fn add_carry_impl(retirement_info: &mut Retirement, dst: &mut Register, carry_out: &mut Register, a: &Register, b: &Register, carry_in: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok(), carry_in.ok()
    ensures (a.w() == b.w() && carry_in.w() == 1) ==> ret is Ok && final(retirement_info).ok() && final(dst).is((a.v() + b.v() + carry_in.v()) % (p2(a.w()) as int), a.w()) && final(carry_out).is((a.v() + b.v() + carry_in.v()) / (p2(a.w()) as int), 1nat),
        !(a.w() == b.w() && carry_in.w() == 1) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && *final(carry_out) == *old(carry_out) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2le128(a.w()); p2dbl(1); assert(p2(0) == 1); vstd::arithmetic::div_mod::lemma_mod_bound(a.v() + b.v() + carry_in.v(), p2(a.w()) as int); }
//@end
//@fn parasol_cpu/src/proc/ops/add.rs :: FheProcessor::add_carry
//@lift FheProcessor::add_carry_impl(retirement_info, dst, carry_out, a, b, carry_in, instruction_id, pc)
//@sig fn add_carry(&mut self, retirement_info: &mut Retirement, dst: &mut Register, carry_out: &mut Register, a: &Register, b: &Register, carry_in: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok(), carry_in.ok()
    ensures (a.w() == b.w() && carry_in.w() == 1) ==> final(retirement_info).ok() && final(dst).is((a.v() + b.v() + carry_in.v()) % (p2(a.w()) as int), a.w()) && final(carry_out).is((a.v() + b.v() + carry_in.v()) / (p2(a.w()) as int), 1nat),
        !(a.w() == b.w() && carry_in.w() == 1) ==> *final(dst) == *old(dst) && *final(carry_out) == *old(carry_out) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/sub.rs :: FheProcessor::sub >> closure
//@registers
//@sig fn sub_impl(retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> ret is Ok && final(retirement_info).ok() && final(dst).is((a.v() - b.v()) % (p2(a.w()) as int), a.w()),
        !(a.w() == b.w()) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2le128(a.w()); mod128(a.v() - b.v(), a.w()); wrap128(a.v() - b.v()); vstd::arithmetic::div_mod::lemma_mod_bound(a.v() - b.v(), p2(a.w()) as int); }
//@end
//@fn parasol_cpu/src/proc/ops/sub.rs :: FheProcessor::sub
//@lift FheProcessor::sub_impl(retirement_info, dst, a, b, instruction_id, pc)
//@sig fn sub(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is((a.v() - b.v()) % (p2(a.w()) as int), a.w()),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/sub.rs :: FheProcessor::sub_borrow >> closure
//@registers
//@sig fn sub_borrow_impl(retirement_info: &mut Retirement, dst: &mut Register, borrow_out: &mut Register, a: &Register, b: &Register, borrow_in: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok(), borrow_in.ok()
    ensures (a.w() == b.w() && borrow_in.w() == 1) ==> ret is Ok && final(retirement_info).ok() && final(dst).is((a.v() - b.v() - borrow_in.v()) % (p2(a.w()) as int), a.w()) && final(borrow_out).is(b2n(a.v() < b.v() + borrow_in.v()) as int, 1nat),
        !(a.w() == b.w() && borrow_in.w() == 1) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && *final(borrow_out) == *old(borrow_out) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2le128(a.w()); p2dbl(1); assert(p2(0) == 1); vstd::arithmetic::div_mod::lemma_mod_bound(a.v() - b.v() - borrow_in.v(), p2(a.w()) as int); }
//@end
//@fn parasol_cpu/src/proc/ops/sub.rs :: FheProcessor::sub_borrow
//@lift FheProcessor::sub_borrow_impl(retirement_info, dst, borrow_out, a, b, borrow_in, instruction_id, pc)
//@sig fn sub_borrow(&mut self, retirement_info: &mut Retirement, dst: &mut Register, borrow_out: &mut Register, a: &Register, b: &Register, borrow_in: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok(), borrow_in.ok()
    ensures (a.w() == b.w() && borrow_in.w() == 1) ==> final(retirement_info).ok() && final(dst).is((a.v() - b.v() - borrow_in.v()) % (p2(a.w()) as int), a.w()) && final(borrow_out).is(b2n(a.v() < b.v() + borrow_in.v()) as int, 1nat),
        !(a.w() == b.w() && borrow_in.w() == 1) ==> *final(dst) == *old(dst) && *final(borrow_out) == *old(borrow_out) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/mul.rs :: FheProcessor::unsigned_multiply >> closure
//@registers
//@sig fn unsigned_multiply_impl(retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> ret is Ok && final(retirement_info).ok() && final(dst).is((a.v() * b.v()) % (p2(a.w()) as int), a.w()),
        !(a.w() == b.w()) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2le128(a.w()); p2_128(); mod128(a.v() * b.v(), a.w()); vstd::arithmetic::div_mod::lemma_mod_bound(a.v() * b.v(), p2(a.w()) as int); let W = a.w();
        if W < 128 { shl128(W); assert forall|x: u128| #[trigger] (x & ((1u128 << (W as u32)) - 1) as u128) as int == (x as int) % (p2(W) as int) by { mask128(x, W); bits_of(x as int, W); } let k = W as usize; let k2 = W as u32; assert((1u128 << k) == (1u128 << k2)) by (bit_vector) requires k < 128, k2 == k as u32; }
        else { assert forall|x: u128| #[trigger] (x & 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) == x by { assert(x & 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff == x) by (bit_vector); } } }
//@end
//@fn parasol_cpu/src/proc/ops/mul.rs :: FheProcessor::unsigned_multiply
//@lift FheProcessor::unsigned_multiply_impl(retirement_info, dst, a, b, instruction_id, pc)
//@sig fn unsigned_multiply(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is((a.v() * b.v()) % (p2(a.w()) as int), a.w()),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/neg.rs :: FheProcessor::neg >> closure
//@registers
//@sig fn neg_impl(retirement_info: &mut Retirement, dst: &mut Register, src: &Register, _instruction_id: usize, _pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, src.ok()
    ensures (true) ==> ret is Ok && final(retirement_info).ok() && final(dst).is((-src.v()) % (p2(src.w()) as int), src.w()),
        !(true) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::EncryptionMismatch)
//@at start
    proof { p2le128(src.w()); mod128(-src.v(), src.w()); vstd::arithmetic::div_mod::lemma_mod_bound(-src.v(), p2(src.w()) as int); }
//@end
//@fn parasol_cpu/src/proc/ops/neg.rs :: FheProcessor::neg
//@lift FheProcessor::neg_impl(retirement_info, dst, src, _instruction_id, _pc)
//@sig fn neg(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, _instruction_id: usize, _pc: u32)
    requires old(retirement_info).done is None, src.ok()
    ensures (true) ==> final(retirement_info).ok() && final(dst).is((-src.v()) % (p2(src.w()) as int), src.w()),
        !(true) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::EncryptionMismatch)
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/not.rs :: FheProcessor::not >> closure
//@registers
//@sig fn not_impl(retirement_info: &mut Retirement, dst: &mut Register, src: &Register, _instruction_id: usize, _pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, src.ok()
    ensures (true) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(p2(src.w()) - 1 - src.v(), src.w()),
        !(true) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::EncryptionMismatch)
//@at start
    proof { let W = src.w(); let P = p2(W) as int; p2le128(W); let x = src.v() as u128; assert(!x == u128::MAX - x) by (bit_vector); mod128(-1 - x, W); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(-1 - x, M128()); vstd::arithmetic::div_mod::lemma_small_mod((!x) as nat, M128() as nat); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(-1 - x, P); vstd::arithmetic::div_mod::lemma_small_mod((P - 1 - x) as nat, P as nat); }
//@end
//@fn parasol_cpu/src/proc/ops/not.rs :: FheProcessor::not
//@lift FheProcessor::not_impl(retirement_info, dst, src, _instruction_id, _pc)
//@sig fn not(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, _instruction_id: usize, _pc: u32)
    requires old(retirement_info).done is None, src.ok()
    ensures (true) ==> final(retirement_info).ok() && final(dst).is(p2(src.w()) - 1 - src.v(), src.w()),
        !(true) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::EncryptionMismatch)
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/and.rs :: FheProcessor::and >> closure
//@registers
//@sig fn and_impl(retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(((a.v() as u128) & (b.v() as u128)) as int, a.w()),
        !(a.w() == b.w()) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { let W = a.w(); p2le128(W); if W == b.w() { let x = a.v() as u128; let y = b.v() as u128; let m = (p2(W) - 1) as u128; p2_128(); if W < 128 { shl128(W); mask128(x, W); mask128(y, W); bits_of(x as int, W); bits_of(y as int, W); let k = W as u32; assert(m == ((1u128 << k) - 1) as u128); } else { assert(m == u128::MAX); assert(x & u128::MAX == x) by (bit_vector); assert(y & u128::MAX == y) by (bit_vector); }
        vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p2(W)); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, p2(W)); assert(x & m == x && y & m == y); assert((x & y) & m == x & y && x & (y & m) == x & y && (x & y) <= m) by (bit_vector) requires x & m == x && y & m == y; } }
//@end
//@fn parasol_cpu/src/proc/ops/and.rs :: FheProcessor::and
//@lift FheProcessor::and_impl(retirement_info, dst, a, b, instruction_id, pc)
//@sig fn and(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(((a.v() as u128) & (b.v() as u128)) as int, a.w()),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/or.rs :: FheProcessor::or >> closure
//@registers
//@sig fn or_impl(retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(((a.v() as u128) | (b.v() as u128)) as int, a.w()),
        !(a.w() == b.w()) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { let W = a.w(); p2le128(W); if W == b.w() { let x = a.v() as u128; let y = b.v() as u128; let m = (p2(W) - 1) as u128; p2_128(); if W < 128 { shl128(W); mask128(x, W); mask128(y, W); bits_of(x as int, W); bits_of(y as int, W); let k = W as u32; assert(m == ((1u128 << k) - 1) as u128); } else { assert(m == u128::MAX); assert(x & u128::MAX == x) by (bit_vector); assert(y & u128::MAX == y) by (bit_vector); }
        vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p2(W)); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, p2(W)); assert(x & m == x && y & m == y); assert((x | y) & m == x | y && x | (y & m) == x | y && (x | y) <= m) by (bit_vector) requires x & m == x && y & m == y; } }
//@end
//@fn parasol_cpu/src/proc/ops/or.rs :: FheProcessor::or
//@lift FheProcessor::or_impl(retirement_info, dst, a, b, instruction_id, pc)
//@sig fn or(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(((a.v() as u128) | (b.v() as u128)) as int, a.w()),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/xor.rs :: FheProcessor::xor >> closure
//@registers
//@sig fn xor_impl(retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(((a.v() as u128) ^ (b.v() as u128)) as int, a.w()),
        !(a.w() == b.w()) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { let W = a.w(); p2le128(W); if W == b.w() { let x = a.v() as u128; let y = b.v() as u128; let m = (p2(W) - 1) as u128; p2_128(); if W < 128 { shl128(W); mask128(x, W); mask128(y, W); bits_of(x as int, W); bits_of(y as int, W); let k = W as u32; assert(m == ((1u128 << k) - 1) as u128); } else { assert(m == u128::MAX); assert(x & u128::MAX == x) by (bit_vector); assert(y & u128::MAX == y) by (bit_vector); }
        vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p2(W)); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, p2(W)); assert(x & m == x && y & m == y); assert((x ^ y) & m == x ^ y && x ^ (y & m) == x ^ y && (x ^ y) <= m) by (bit_vector) requires x & m == x && y & m == y; } }
//@end
//@fn parasol_cpu/src/proc/ops/xor.rs :: FheProcessor::xor
//@lift FheProcessor::xor_impl(retirement_info, dst, a, b, instruction_id, pc)
//@sig fn xor(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(((a.v() as u128) ^ (b.v() as u128)) as int, a.w()),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}


//@fn parasol_cpu/src/proc/ops/bitshift.rs :: shift_right_arbitrary_width
//@ret r
    requires okv(val, width)
    ensures r as int == val as int / (p2(shift as nat) as int), okv(r, width)
//@at start
    proof { shr_is(val, shift, width as nat); }
//@end

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: shift_left_arbitrary_width
//@ret r
    requires okv(val, width)
    ensures r as int == (val * p2(shift as nat)) as int % (p2(width as nat) as int), okv(r, width)
//@at start
    proof { let W = width as nat; p2le128(W); let P = p2(W) as int; let x = (val * p2(shift as nat)) as int; vstd::arithmetic::div_mod::lemma_mod_bound(x, P);
        if shift < width { shl_is(val, shift); mod128(x, W); } else { let d = (shift - W) as nat; p2add(W, d); assert(W + d == shift as nat); let t = val * p2(d); assert(x == t * P) by (nonlinear_arith) requires x == val * p2(shift as nat), p2(shift as nat) == p2(W) * p2(d), t == val * p2(d), P == p2(W); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(t as int, P); } }
//@end

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: arithmetic_shift_right_arbitrary_width
//@ret r
    requires okv(val, width)
    ensures r as int == (sgn(val as int, width as nat) / (p2(shift as nat) as int)) % (p2(width as nat) as int), okv(r, width)
//@at start
    proof { let W = width as nat; p2le128(W); p2le128((W - 1) as nat); p2dbl(W); let P = p2(W) as int; let Q = p2(shift as nat) as int; p2pos(shift as nat); vstd::arithmetic::div_mod::lemma_mod_bound(sgn(val as int, W) / Q, P);
        shr128(val, (W - 1) as nat); shl128((W - 1) as nat); shra_is(val, shift, width);
        let k = (width - 1) as u32; let kk = (W - 1) as u128; assert(((1u128 << k) & val == 0) == ((val >> kk) & 1 == 0)) by (bit_vector) requires k < 128, kk == k as u128; let y = val >> kk; assert((y & 1 == 0) == (y & 1 != 1)) by (bit_vector);
        sign_bit(val, width); let m = (P - 1) as u128; let x = (m as int / Q) as u128; let y = (val as int / Q) as u128; shr_is(m, shift, W); shr_is(val, shift, W); assert(shra_bits(m, x, y) == (m & !x) | y); }
//@end

pub open spec fn shra_bits(m: u128, x: u128, y: u128) -> u128 { (m & !x) | y }
pub proof fn shra_is(v: u128, s: u128, width: u32) requires okv(v, width)
    ensures v < p2((width - 1) as nat) ==> (sgn(v as int, width as nat) / (p2(s as nat) as int)) % (p2(width as nat) as int) == v as int / (p2(s as nat) as int),
        v >= p2((width - 1) as nat) ==> forall|m: u128, x: u128, y: u128| m == p2(width as nat) - 1 && x == m as int / (p2(s as nat) as int) && y == v as int / (p2(s as nat) as int) ==> #[trigger] shra_bits(m, x, y) as int == (sgn(v as int, width as nat) / (p2(s as nat) as int)) % (p2(width as nat) as int)
{
    let w = width as nat; let P = p2(w) as int; let Q = p2(s as nat) as int; p2pos(s as nat); p2pos(w); p2dbl(w); p2le128(w);
    shr_is(v, s, w); let q = v as int / Q;
    if v < p2((w - 1) as nat) { vstd::arithmetic::div_mod::lemma_small_mod(q as nat, P as nat); } else {
        let m = (P - 1) as u128; shr_is(m, s, w); let x = (m as int / Q) as u128; let y = q as u128; let d = v - P;
        if s >= width { p2mono(w, s as nat); assert(d / Q == -1) by (nonlinear_arith) requires -Q <= d < 0, Q > 0; vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(-1, P); vstd::arithmetic::div_mod::lemma_small_mod((P - 1) as nat, P as nat);
            assert((m & !0u128) | 0u128 == m) by (bit_vector); assert(x == 0 && y == 0); assert(shra_bits(m, x, y) == m); } else {
            let r = (w - s) as nat; p2add(s as nat, r); let R = p2(r) as int; p2pos(r); assert(P == Q * R);
            assert(m as int / Q == R - 1) by { assert(P - 1 == (R - 1) * Q + (Q - 1)) by (nonlinear_arith) requires P == Q * R; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(P - 1, Q, R - 1, Q - 1); }
            assert(d / Q == q - R) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v as int, Q); let e = v as int % Q; assert(d == (q - R) * Q + e) by (nonlinear_arith) requires d == v - P, v as int == Q * q + e, P == Q * R; vstd::arithmetic::div_mod::lemma_mod_bound(v as int, Q); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(d, Q, q - R, e); }
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v as int, Q); vstd::arithmetic::div_mod::lemma_mod_bound(v as int, Q); assert(q < R) by (nonlinear_arith) requires v as int == Q * q + v as int % Q, v < Q * R, v as int % Q >= 0, Q > 0;
            p2mono(r, w); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(q - R, P); vstd::arithmetic::div_mod::lemma_small_mod((P + q - R) as nat, P as nat);
            maskid(x, w); maskid(y, r); assert(x == ((p2(r) - 1) as u128)); assert((m & !x) | y == m - x + y) by (bit_vector) requires x & m == x, y & x == y; assert(shra_bits(m, x, y) == m - x + y); }
    }
}
pub proof fn sign_bit(v: u128, width: u32) requires okv(v, width) ensures nbit(v as int)(width - 1) == (v >= p2((width - 1) as nat)) {
    let W = width as nat; p2dbl(W); let H = p2((W - 1) as nat) as int; p2pos((W - 1) as nat); let q = v as int / H; assert(q == (if v < H { 0int } else { 1 })) by (nonlinear_arith) requires 0 <= v < 2 * H, H > 0, q == v as int / H;
}

/// the two parts of a rotation do not overlap
pub proof fn rot_is(val: u128, k: u128, width: u32) requires okv(val, width), 1 <= k < width
    ensures ((val << ((width as u128 - k) as u128)) | (val >> k)) as int % (p2(width as nat) as int) == rotr_spec(val as int, k as nat, width as nat), 0 <= rotr_spec(val as int, k as nat, width as nat) < p2(width as nat)
{
    let w = width as nat; let j = (w - k) as nat; let P = p2(w) as int; let Q = p2(k as nat) as int; let R = p2(j) as int; p2le128(w); p2add(k as nat, j); assert(P == Q * R); p2pos(k as nat); p2pos(j);
    let v = val as int; let hi = v % Q; let lo = v / Q; vstd::arithmetic::div_mod::lemma_mod_bound(v, Q); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, Q);
    assert(0 <= lo < R) by (nonlinear_arith) requires v == Q * lo + hi, 0 <= v < Q * R, 0 <= hi < Q;
    assert(lo + hi * R < P && hi * R >= 0) by (nonlinear_arith) requires 0 <= lo < R, 0 <= hi < Q, P == Q * R;
    vstd::arithmetic::div_mod::lemma_small_mod(k as nat, w); assert(rotr_spec(v, k as nat, w) == lo + hi * R);
    let jj = (width as u128 - k) as u128; shl_is(val, jj); shr_is(val, k, w);
    let a = val << jj; let b = val >> k; assert(b as int == lo);
    // a is a multiple of R below 2^128, b is below R: a | b == a + b
    p2le128(j); p2_128(); let T = p2((128 - j) as nat) as int; p2add((128 - j) as nat, j); assert(M128() == T * R); p2pos((128 - j) as nat);
    vstd::arithmetic::div_mod::lemma_mod_bound(v, T); let q = v % T; 
    assert(a as int == q * R) by { assert((v * R) % (T * R) == (v % T) * R) by { let x = v / T; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, T); assert(v * R == (T * R) * x + q * R) by (nonlinear_arith) requires v == T * x + q; assert(0 <= q * R < T * R) by (nonlinear_arith) requires 0 <= q < T, R > 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v * R, T * R, x, q * R); } assert((v * p2(jj as nat)) as int == v * R); }
    shl128(j); let m = (R - 1) as u128; mask128(a, j); bits_of(a as int, j); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, R); let ju = j as u32; assert(m == ((1u128 << ju) - 1) as u128); assert(a & m == 0);
    maskid(b, j); assert(b & m == b);
    assert(a & b == 0) by (bit_vector) requires a & m == 0, b & m == b;
    assert(a | b == add(a, b)) by (bit_vector) requires a & b == 0;
    assert(a | b >= a) by (bit_vector); assert(a + b < M128()) by (nonlinear_arith) requires a == q * R, 0 <= b < R, 0 <= q <= T - 1, M128() == T * R, R > 0;
    assert((a | b) as int == q * R + lo);
    // modulo P: (q*R + lo) = (v*R mod 2^128) + lo = v*R + lo = hi*R + lo
    mod128(v * R, w); let x = v * R; assert(x == P * lo + hi * R) by (nonlinear_arith) requires x == v * R, v == Q * lo + hi, P == Q * R;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(lo, hi * R, P); 
    assert(hi * R < P) by (nonlinear_arith) requires 0 <= lo, lo + hi * R < P; vstd::arithmetic::div_mod::lemma_small_mod((hi * R) as nat, P as nat);
    assert((q * R) % P == hi * R); vstd::arithmetic::div_mod::lemma_add_mod_noop(q * R, lo, P); vstd::arithmetic::div_mod::lemma_add_mod_noop(hi * R, lo, P); vstd::arithmetic::div_mod::lemma_mod_twice(hi * R, P); vstd::arithmetic::div_mod::lemma_small_mod((lo + hi * R) as nat, P as nat);
}
pub proof fn rot_zero(val: u128, s: nat, w: nat) requires w > 0, s % w == 0 ensures rotr_spec(val as int, s, w) == val, p2(0) == 1 { assert(p2(0) == 1); assert(val as int / 1 == val); assert(val as int % 1 == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(1); } assert(0 * (p2((w - 0) as nat) as int) == 0); }
/// a rotation left by `s` bits is one to the right by the rest of the word
pub open spec fn rotl_spec(v: int, s: nat, w: nat) -> int { rotr_spec(v, ((w - s % w) as nat), w) }

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: rotate_right_arbitrary_width
//@ret r
    requires okv(val, width)
    ensures r as int == rotr_spec(val as int, shift as nat, width as nat), okv(r, width)
//@at start
    proof { vstd::arithmetic::div_mod::lemma_mod_bound(shift as int, width as int); let k = (shift % width as u128) as u128; p2le128(width as nat);
        vstd::arithmetic::div_mod::lemma_mod_twice(shift as int, width as int); assert(forall|x: u128, y: u128| #[trigger] (x | y) == y | x) by { assert forall|x: u128, y: u128| #[trigger] (x | y) == y | x by { assert(x | y == y | x) by (bit_vector); } }
        if k == 0 { rot_zero(val, shift as nat, width as nat); } else { rot_is(val, k, width); assert(rotr_spec(val as int, k as nat, width as nat) == rotr_spec(val as int, shift as nat, width as nat)); } }
//@end

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: rotate_left_arbitrary_width
//@ret r
    requires okv(val, width)
    ensures r as int == rotl_spec(val as int, shift as nat, width as nat), okv(r, width)
//@at start
    proof { vstd::arithmetic::div_mod::lemma_mod_bound(shift as int, width as int); let k = (shift % width as u128) as u128; p2le128(width as nat);
        vstd::arithmetic::div_mod::lemma_mod_twice(shift as int, width as int); assert(forall|x: u128, y: u128| #[trigger] (x | y) == y | x) by { assert forall|x: u128, y: u128| #[trigger] (x | y) == y | x by { assert(x | y == y | x) by (bit_vector); } }
        if k == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(width as int); rot_zero(val, width as nat, width as nat); } else { rot_is(val, (width as u128 - k) as u128, width); assert(width as u128 - (width as u128 - k) == k); } }
//@end

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/bitshift.rs :: FheProcessor::shift_operation >> closure
//@registers
//@sig fn shift_impl<F: Fn(u128, u128, u32) -> u128>(retirement_info: &mut Retirement, dst: &mut Register, src: &Register, shift: &Register, plain_operation: F) -> (ret: Result<()>)
    requires old(retirement_info).done is None, src.ok(), shift.ok(), forall|v: u128, s: u128, w: u32| okv(v, w) ==> #[trigger] plain_operation.requires((v, s, w))
    ensures ret is Ok, final(retirement_info).ok(), *final(dst) is Plaintext, final(dst).rw() == src.rw(), plain_operation.ensures((src.rv(), shift.rv(), src.rw()), final(dst).rv())
//@end
//@fn parasol_cpu/src/proc/ops/bitshift.rs :: FheProcessor::shift_operation
//@lift FheProcessor::shift_impl(retirement_info, dst, src, shift, plain_operation)
//@sig fn shift_operation<F: Fn(u128, u128, u32) -> u128>(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, shift: &Register, plain_operation: F, plain_shift: Unused, circuit_gen: Unused)
    requires old(retirement_info).done is None, src.ok(), shift.ok(), forall|v: u128, s: u128, w: u32| okv(v, w) ==> #[trigger] plain_operation.requires((v, s, w))
    ensures final(retirement_info).ok(), *final(dst) is Plaintext, final(dst).rw() == src.rw(), plain_operation.ensures((src.rv(), shift.rv(), src.rw()), final(dst).rv())
//@end

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: FheProcessor::shr
//@closures Unused Unused
//@sig fn shr(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, shift: &Register)
    requires old(retirement_info).done is None, src.ok(), shift.ok()
    ensures final(retirement_info).ok(), final(dst).is(src.v() / (p2(shift.v() as nat) as int), src.w())
//@end

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: FheProcessor::shra
//@closures Unused Unused
//@sig fn shra(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, shift: &Register)
    requires old(retirement_info).done is None, src.ok(), shift.ok()
    ensures final(retirement_info).ok(), final(dst).is((sgn(src.v(), src.w()) / (p2(shift.v() as nat) as int)) % (p2(src.w()) as int), src.w())
//@end

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: FheProcessor::shl
//@closures Unused Unused
//@sig fn shl(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, shift: &Register)
    requires old(retirement_info).done is None, src.ok(), shift.ok()
    ensures final(retirement_info).ok(), final(dst).is((src.v() * p2(shift.v() as nat)) % (p2(src.w()) as int), src.w())
//@end

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: FheProcessor::rotr
//@closures Unused Unused
//@sig fn rotr(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, shift: &Register)
    requires old(retirement_info).done is None, src.ok(), shift.ok()
    ensures final(retirement_info).ok(), final(dst).is(rotr_spec(src.v(), shift.v() as nat, src.w()), src.w())
//@end

//@fn parasol_cpu/src/proc/ops/bitshift.rs :: FheProcessor::rotl
//@closures Unused Unused
//@sig fn rotl(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, shift: &Register)
    requires old(retirement_info).done is None, src.ok(), shift.ok()
    ensures final(retirement_info).ok(), final(dst).is(rotl_spec(src.v(), shift.v() as nat, src.w()), src.w())
//@end

}
pub proof fn i128_of(x: u128) ensures x < 0x8000_0000_0000_0000_0000_0000_0000_0000 ==> (x as i128) as int == x, x >= 0x8000_0000_0000_0000_0000_0000_0000_0000 ==> (x as i128) as int == x - M128() {
    if x >= 0x8000_0000_0000_0000_0000_0000_0000_0000 { let y = !x; assert(y < 0x8000_0000_0000_0000_0000_0000_0000_0000 && y == u128::MAX - x) by (bit_vector) requires y == !x, x >= 0x8000_0000_0000_0000_0000_0000_0000_0000; let z = y as i128; assert((x as i128) == !z) by (bit_vector) requires z == y as i128, y == !x; assert(!z == sub(-1i128, z)) by (bit_vector); }
}

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: to_signed
//@ret r
    requires okv(val, width)
    ensures r as int == sgn(val as int, width as nat)
//@at start
    proof { let W = width as nat; p2le128(W); p2le128((W - 1) as nat); p2dbl(W); shr128(val, (W - 1) as nat); shl128((W - 1) as nat); sign_bit(val, width); let k = (width - 1) as u32; let kk = (W - 1) as u128;
        assert(((1u128 << k) & val == 0) == ((val >> kk) & 1 == 0)) by (bit_vector) requires k < 128, kk == k as u128; let y = val >> kk; assert((y & 1 == 0) == (y & 1 != 1)) by (bit_vector);
        let m = (p2(W) - 1) as u128; maskid(val, W); assert(!m | val == add(val, sub(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, m)) && val <= m) by (bit_vector) requires val & m == val; i128_of(val); p2_128(); p2dbl(128); p2mono((W - 1) as nat, 127); assert(p2(127) == 0x8000_0000_0000_0000_0000_0000_0000_0000); let x = !m | val; if W == 128 { assert(m == u128::MAX); } if val >= p2((W - 1) as nat) { assert(x >= 0x8000_0000_0000_0000_0000_0000_0000_0000) by { p2_128(); p2dbl(128); p2mono((W - 1) as nat, 127); if W < 128 { assert(x as int == val - p2(W) + M128()); p2mono(W, 127); } } } i128_of(x); }
//@end
impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::comparison_operation >> closure
//@registers
//@sig fn comparison_impl<F: Fn(u128, u32, u128, u32) -> bool>(retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32, operation: F) -> (ret: Result<()>)
    requires old(retirement_info).done is None, a.ok(), b.ok(), forall|v: u128, w: u32, u: u128, x: u32| okv(v, w) && okv(u, x) ==> #[trigger] operation.requires((v, w, u, x))
    ensures (a.w() == b.w()) ==> ret is Ok && final(retirement_info).ok() && *final(dst) is Plaintext && final(dst).rw() == 1 && final(dst).rv() <= 1 && operation.ensures((a.rv(), a.rw(), b.rv(), b.rw()), final(dst).rv() == 1),
        !(a.w() == b.w()) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::comparison_operation
//@lift FheProcessor::comparison_impl(retirement_info, dst, a, b, instruction_id, pc, operation)
//@sig fn comparison_operation<F: Fn(u128, u32, u128, u32) -> bool, G>(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32, operation: F, circuit_gen: G)
    requires old(retirement_info).done is None, a.ok(), b.ok(), forall|v: u128, w: u32, u: u128, x: u32| okv(v, w) && okv(u, x) ==> #[trigger] operation.requires((v, w, u, x))
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && *final(dst) is Plaintext && final(dst).rw() == 1 && final(dst).rv() <= 1 && operation.ensures((a.rv(), a.rw(), b.rv(), b.rw()), final(dst).rv() == 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::equal >> closure 0
//@sig fn equal_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (__p0 == __p2)
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::equal
//@closures FheProcessor::equal_cmp
//@sig fn equal(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(a.v() == b.v()) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::greater_than >> closure 0
//@sig fn greater_than_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (__p0 > __p2)
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::greater_than
//@closures FheProcessor::greater_than_cmp Unused
//@sig fn greater_than(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(a.v() > b.v()) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::greater_than_signed >> closure 0
//@sig fn greater_than_signed_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (sgn(__p0 as int, __p1 as nat) > sgn(__p2 as int, __p3 as nat))
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::greater_than_signed
//@closures FheProcessor::greater_than_signed_cmp Unused
//@sig fn greater_than_signed(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(sgn(a.v(), a.w()) > sgn(b.v(), b.w())) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::greater_than_or_equal >> closure 0
//@sig fn greater_than_or_equal_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (__p0 >= __p2)
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::greater_than_or_equal
//@closures FheProcessor::greater_than_or_equal_cmp Unused
//@sig fn greater_than_or_equal(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(a.v() >= b.v()) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::greater_than_or_equal_signed >> closure 0
//@sig fn greater_than_or_equal_signed_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (sgn(__p0 as int, __p1 as nat) >= sgn(__p2 as int, __p3 as nat))
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::greater_than_or_equal_signed
//@closures FheProcessor::greater_than_or_equal_signed_cmp Unused
//@sig fn greater_than_or_equal_signed(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(sgn(a.v(), a.w()) >= sgn(b.v(), b.w())) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::less_than >> closure 0
//@sig fn less_than_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (__p0 < __p2)
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::less_than
//@closures FheProcessor::less_than_cmp Unused
//@sig fn less_than(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(a.v() < b.v()) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::less_than_signed >> closure 0
//@sig fn less_than_signed_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (sgn(__p0 as int, __p1 as nat) < sgn(__p2 as int, __p3 as nat))
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::less_than_signed
//@closures FheProcessor::less_than_signed_cmp Unused
//@sig fn less_than_signed(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(sgn(a.v(), a.w()) < sgn(b.v(), b.w())) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::less_than_or_equal >> closure 0
//@sig fn less_than_or_equal_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (__p0 <= __p2)
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::less_than_or_equal
//@closures FheProcessor::less_than_or_equal_cmp Unused
//@sig fn less_than_or_equal(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(a.v() <= b.v()) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::less_than_or_equal_signed >> closure 0
//@sig fn less_than_or_equal_signed_cmp(__p0: u128, __p1: u32, __p2: u128, __p3: u32) -> (ret: bool)
    requires okv(__p0, __p1), okv(__p2, __p3)
    ensures ret == (sgn(__p0 as int, __p1 as nat) <= sgn(__p2 as int, __p3 as nat))
//@end
//@fn parasol_cpu/src/proc/ops/comparisons.rs :: FheProcessor::less_than_or_equal_signed
//@closures FheProcessor::less_than_or_equal_signed_cmp Unused
//@sig fn less_than_or_equal_signed(&mut self, retirement_info: &mut Retirement, dst: &mut Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, a.ok(), b.ok()
    ensures (a.w() == b.w()) ==> final(retirement_info).ok() && final(dst).is(b2n(sgn(a.v(), a.w()) <= sgn(b.v(), b.w())) as int, 1),
        !(a.w() == b.w()) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2dbl(1); assert(p2(0) == 1); }
//@end

}
pub open spec fn extend(v: int, w: nat, n: nat, signed: bool) -> int { if signed { sgn(v, w) % (p2(n) as int) } else { v } }
pub proof fn ext_is(v: u128, w: u32, n: u32) requires okv(v, w), w <= n <= 128
    ensures nbit(v as int)(w - 1) == (v >= p2((w - 1) as nat)), v < p2(n as nat), v < p2((w - 1) as nat) ==> extend(v as int, w as nat, n as nat, true) == v, v >= p2((w - 1) as nat) ==> forall|m: u128, k: u128| m == p2(w as nat) - 1 && k == p2(n as nat) - 1 ==> #[trigger] ext_bits(v, m, k) as int == extend(v as int, w as nat, n as nat, true), 0 <= extend(v as int, w as nat, n as nat, true) < p2(n as nat)
{
    let W = w as nat; let N = n as nat; let P = p2(W) as int; let Q = p2(N) as int; p2le128(W); p2le128(N); p2mono(W, N); p2dbl(W); sign_bit(v, w); vstd::arithmetic::div_mod::lemma_mod_bound(sgn(v as int, W), Q);
    if v < p2((w - 1) as nat) { vstd::arithmetic::div_mod::lemma_small_mod(v as nat, Q as nat); } else {
        let d = v - P; vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(d, Q); vstd::arithmetic::div_mod::lemma_small_mod((d + Q) as nat, Q as nat);
        let m = (P - 1) as u128; let k = (Q - 1) as u128; maskid(v, W); maskid(m, N); assert((v | !m) & k == sub(k, sub(m, v))) by (bit_vector) requires v & m == v, m & k == m; assert(v <= m && m - v <= k); assert(ext_bits(v, m, k) == (v | !m) & k);
    }
}
pub open spec fn ext_bits(v: u128, m: u128, k: u128) -> u128 { (v | !m) & k }

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/casting.rs :: FheProcessor::ext >> closure
//@registers
//@sig fn ext_impl(retirement_info: &mut Retirement, dst: &mut Register, src: &Register, new_width: u32, instruction_id: usize, pc: u32, signed: bool) -> (ret: Result<()>)
    requires old(retirement_info).done is None, src.ok(), 1 <= new_width <= 128
    ensures (src.w() <= new_width) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(extend(src.v(), src.w(), new_width as nat, signed), new_width as nat),
        !(src.w() <= new_width) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2le128(new_width as nat); if src.w() <= new_width { ext_is(src.v() as u128, src.w() as u32, new_width); let v = src.v() as u128; let W = src.w(); shr128(v, (W - 1) as nat); let k = (W - 1) as u32; let kk = (W - 1) as u128;
        shr_is(v, kk, W); p2dbl(W); p2pos((W - 1) as nat); let H = p2((W - 1) as nat) as int; assert((v as int / H == 0) == (v < H)) by (nonlinear_arith) requires 0 <= v < 2 * H, H > 0;
        assert((v >> k) == (v >> kk)) by (bit_vector) requires k < 128, kk == k as u128;
        let m = (p2(W) - 1) as u128; let q = (p2(new_width as nat) - 1) as u128; p2le128(W); assert(ext_bits(v, m, q) == (v | !m) & q); } }
//@end
//@fn parasol_cpu/src/proc/ops/casting.rs :: FheProcessor::ext
//@lift FheProcessor::ext_impl(retirement_info, dst, src, new_width, instruction_id, pc, signed)
//@sig fn ext(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, new_width: u32, instruction_id: usize, pc: u32, signed: bool)
    requires old(retirement_info).done is None, src.ok(), 1 <= new_width <= 128
    ensures (src.w() <= new_width) ==> final(retirement_info).ok() && final(dst).is(extend(src.v(), src.w(), new_width as nat, signed), new_width as nat),
        !(src.w() <= new_width) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/casting.rs :: FheProcessor::zext
//@sig fn zext(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, new_width: u32, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, src.ok(), 1 <= new_width <= 128
    ensures src.w() <= new_width ==> final(retirement_info).ok() && final(dst).is(extend(src.v(), src.w(), new_width as nat, false), new_width as nat),
        !(src.w() <= new_width) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/casting.rs :: FheProcessor::sext
//@sig fn sext(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, new_width: u32, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, src.ok(), 1 <= new_width <= 128
    ensures src.w() <= new_width ==> final(retirement_info).ok() && final(dst).is(extend(src.v(), src.w(), new_width as nat, true), new_width as nat),
        !(src.w() <= new_width) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/casting.rs :: FheProcessor::trunc >> closure
//@registers
//@sig fn trunc_impl(retirement_info: &mut Retirement, dst: &mut Register, src: &Register, new_width: u32, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, src.ok(), 1 <= new_width <= 128
    ensures (src.w() >= new_width) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(src.v() % (p2(new_width as nat) as int), new_width as nat),
        !(src.w() >= new_width) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@at start
    proof { p2le128(new_width as nat); vstd::arithmetic::div_mod::lemma_mod_bound(src.v(), p2(new_width as nat) as int); }
//@end
//@fn parasol_cpu/src/proc/ops/casting.rs :: FheProcessor::trunc
//@lift FheProcessor::trunc_impl(retirement_info, dst, src, new_width, instruction_id, pc)
//@sig fn trunc(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register, new_width: u32, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, src.ok(), 1 <= new_width <= 128
    ensures (src.w() >= new_width) ==> final(retirement_info).ok() && final(dst).is(src.v() % (p2(new_width as nat) as int), new_width as nat),
        !(src.w() >= new_width) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/loadi.rs :: FheProcessor::loadi >> closure
//@registers
//@sig fn loadi_impl(retirement_info: &mut Retirement, dst: &mut Register, imm: u32, width: u32, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, 1 <= width <= 128
    ensures (imm < p2(width as nat) || (width <= 32 && imm >= 0x1_0000_0000 - p2((width - 1) as nat))) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(imm as int % (p2(width as nat) as int), width as nat),
        !(imm < p2(width as nat) || (width <= 32 && imm >= 0x1_0000_0000 - p2((width - 1) as nat))) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::OutOfRange { inst_id: instruction_id, pc })
//@at start
    proof { p2le128(width as nat); vstd::arithmetic::div_mod::lemma_mod_bound(imm as int, p2(width as nat) as int); if width <= 32 { let k = (width - 1) as u32; shl32(k); } }
//@end
//@fn parasol_cpu/src/proc/ops/loadi.rs :: FheProcessor::loadi
//@lift FheProcessor::loadi_impl(retirement_info, dst, imm, width, instruction_id, pc)
//@sig fn loadi(&mut self, retirement_info: &mut Retirement, dst: &mut Register, imm: u32, width: u32, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, 1 <= width <= 128
    ensures (imm < p2(width as nat) || (width <= 32 && imm >= 0x1_0000_0000 - p2((width - 1) as nat))) ==> final(retirement_info).ok() && final(dst).is(imm as int % (p2(width as nat) as int), width as nat),
        !(imm < p2(width as nat) || (width <= 32 && imm >= 0x1_0000_0000 - p2((width - 1) as nat))) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::OutOfRange { inst_id: instruction_id, pc })
//@end
}

pub proof fn shl32(k: u32) requires k < 32 ensures (0xFFFF_FFFFu32 << k) as int == 0x1_0000_0000 - p2(k as nat), p2(k as nat) <= 0x8000_0000 decreases k {
    if k == 0 { assert(0xFFFF_FFFFu32 << 0u32 == 0xFFFF_FFFF) by (bit_vector); assert(p2(0) == 1); } else { let j = (k - 1) as u32; shl32(j); let x = 0xFFFF_FFFFu32 << j; assert((0xFFFF_FFFFu32 << k) == mul(2, sub(x, 0x8000_0000))) by (bit_vector) requires x == 0xFFFF_FFFFu32 << j, k == j + 1, j < 31; assert(x >= 0x8000_0000) by (bit_vector) requires x == 0xFFFF_FFFFu32 << j, j < 31; let y = sub(x, 0x8000_0000); assert(j <= 30); p2mono(j as nat, 30); shl64(30); assert(1u64 << 30usize == 0x4000_0000) by (bit_vector); assert(mul(2, y) == 2 * y) by (bit_vector) requires y < 0x8000_0000; }
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/mov.rs :: FheProcessor::mov >> closure
//@registers
//@sig fn mov_impl(retirement_info: &mut Retirement, dst: &mut Register, src: &Register) -> (ret: Result<()>)
    requires old(retirement_info).done is None, src.ok()
    ensures (true) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(src.v(), src.w()),
        !(true) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::EncryptionMismatch)
//@end
//@fn parasol_cpu/src/proc/ops/mov.rs :: FheProcessor::mov
//@lift FheProcessor::mov_impl(retirement_info, dst, src)
//@sig fn mov(&mut self, retirement_info: &mut Retirement, dst: &mut Register, src: &Register)
    requires old(retirement_info).done is None, src.ok()
    ensures (true) ==> final(retirement_info).ok() && final(dst).is(src.v(), src.w()),
        !(true) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::EncryptionMismatch)
//@end
}

impl FheProcessor {
//@fn parasol_cpu/src/proc/ops/cmux.rs :: FheProcessor::cmux >> closure
//@registers
//@sig fn cmux_impl(retirement_info: &mut Retirement, dst: &mut Register, select: &Register, a: &Register, b: &Register, instruction_id: usize, pc: u32) -> (ret: Result<()>)
    requires old(retirement_info).done is None, select.ok(), a.ok(), b.ok()
    ensures (a.w() == b.w() && select.w() == 1) ==> ret is Ok && final(retirement_info).ok() && final(dst).is(if select.v() != 0 { a.v() } else { b.v() }, a.w()),
        !(a.w() == b.w() && select.w() == 1) ==> final(retirement_info).done is None && *final(dst) == *old(dst) && ret is Err && ret->Err_0 == (Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
//@fn parasol_cpu/src/proc/ops/cmux.rs :: FheProcessor::cmux
//@lift FheProcessor::cmux_impl(retirement_info, dst, select, a, b, instruction_id, pc)
//@sig fn cmux(&mut self, retirement_info: &mut Retirement, dst: &mut Register, select: &Register, a: &Register, b: &Register, instruction_id: usize, pc: u32)
    requires old(retirement_info).done is None, select.ok(), a.ok(), b.ok()
    ensures (a.w() == b.w() && select.w() == 1) ==> final(retirement_info).ok() && final(dst).is(if select.v() != 0 { a.v() } else { b.v() }, a.w()),
        !(a.w() == b.w() && select.w() == 1) ==> *final(dst) == *old(dst) && final(retirement_info).err(Error::WidthMismatch { inst_id: instruction_id, pc })
//@end
}

} // verus!
fn main() {}
