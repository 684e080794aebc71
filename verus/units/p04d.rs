//@include ../prelude/base.rs
verus! {
use std::sync::Arc;
// ---- what an instruction is dispatched to -------------------------------------------------------
pub struct Memory { pub z: u8 }
pub enum Ciphertext { L0Lwe { data: Vec<u8> }, L1Lwe { data: Vec<u8> }, L1Glwe { data: Vec<u8> }, L1Ggsw { data: Vec<u8> } }
pub enum Register { Plaintext { val: u128, width: u32 }, Ciphertext(Ciphertext) }
pub enum Error { BranchConditionNotPlaintext, Halt, Other }
pub type Result<T> = core::result::Result<T, Error>;
/// a register of the reorder buffer: which one it is, and the register it names
#[derive(Copy, Clone)] pub struct RobEntryRef<T> { pub id: u64, pub ph: core::marker::PhantomData<T> }
impl RobEntryRef<Register> { pub uninterp spec fn reg(&self) -> Register; #[verifier::external_body] pub fn entry(&self) -> (r: &Register) ensures *r == self.reg() { unimplemented!() } }
//@item parasol_cpu/src/memory/mod.rs :: INSTRUCTION_SIZE
//@item @isa :: DispatchIsaOp
use DispatchIsaOp::*;
/// what retires the instruction: each may be used for one retirement
pub struct RetirementInfo<T> { pub k: u64, pub ph: core::marker::PhantomData<T> }
impl<T> RetirementInfo<T> { pub open spec fn key(&self) -> u64 { self.k } }
pub struct Options { pub log_instruction_execution: bool }
pub struct Slot { pub i: DispatchIsaOp }
pub struct Guard { pub i: DispatchIsaOp }
impl Slot { #[verifier::external_body] pub fn borrow_mut(&self) -> (g: Guard) ensures g.i == self.i { unimplemented!() } }
impl Guard { #[verifier::external_body] pub fn take(self) -> (o: Option<DispatchIsaOp>) ensures o == Some(self.i) { unimplemented!() } }
pub struct Scoreboard { pub instruction: Slot, pub id: Box<usize>, pub pc: u32 }
pub struct Fault { pub f: Option<u64> }
impl Fault { #[verifier::external_body] pub fn get(&self) -> (o: Option<u64>) ensures o == self.f { unimplemented!() } }
pub struct Aux { pub memory: Option<Arc<Memory>>, pub fault: Fault }
pub struct FheProcessor { pub aux_data: Aux }
/// the operation an instruction is sent to, with its operands
pub enum Call { And { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, Or { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, Xor { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, Add { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, Mul { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, Sub { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpEq { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpGt { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpGe { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpLt { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpLe { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpGtS { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpGeS { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpLtS { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, CmpLeS { dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, Shr { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register> }, Shra { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register> }, Shl { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register> }, Rotr { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register> }, Rotl { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register> }, Not { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, id: usize, pc: u32 }, Neg { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, id: usize, pc: u32 }, Sext { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, width: u32, id: usize, pc: u32 }, Zext { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, width: u32, id: usize, pc: u32 }, Trunc { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, width: u32, id: usize, pc: u32 }, Load { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, width: u32, offset: i32, id: usize, pc: u32 }, Store { dst: RobEntryRef<Register>, src: RobEntryRef<Register>, width: u32, offset: i32, id: usize, pc: u32 }, LoadI { dst: RobEntryRef<Register>, imm: u32, width: u32, id: usize, pc: u32 }, Move { dst: RobEntryRef<Register>, src: RobEntryRef<Register> }, AddC { dst: RobEntryRef<Register>, carry_out: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, carry_in: RobEntryRef<Register>, id: usize, pc: u32 }, SubB { dst: RobEntryRef<Register>, borrow_out: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, borrow_in: RobEntryRef<Register>, id: usize, pc: u32 }, Cmux { dst: RobEntryRef<Register>, cond: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32 }, Dbg { src: RobEntryRef<Register>, handler: u32, id: usize, pc: u32 }, Nothing }
impl FheProcessor {
    /// the operations called so far, each with the retirement it was given; `Nothing` is a retirement without an operation
    pub uninterp spec fn log(&self) -> Seq<(u64, Call)>;
    #[verifier::external_body] pub fn done(&mut self, r: &RetirementInfo<DispatchIsaOp>, e: Result<()>) requires e is Ok ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Nothing)) { unimplemented!() }
    #[verifier::external_body] pub fn and(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::And { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn or(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Or { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn xor(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Xor { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Add { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn unsigned_multiply(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Mul { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn sub(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Sub { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn equal(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpEq { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn greater_than(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpGt { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn greater_than_or_equal(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpGe { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn less_than(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpLt { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn less_than_or_equal(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpLe { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn greater_than_signed(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpGtS { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn greater_than_or_equal_signed(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpGeS { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn less_than_signed(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpLtS { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn less_than_or_equal_signed(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::CmpLeS { dst, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn shr(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register>) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Shr { dst, src, shift })) { unimplemented!() }
    #[verifier::external_body] pub fn shra(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register>) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Shra { dst, src, shift })) { unimplemented!() }
    #[verifier::external_body] pub fn shl(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register>) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Shl { dst, src, shift })) { unimplemented!() }
    #[verifier::external_body] pub fn rotr(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register>) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Rotr { dst, src, shift })) { unimplemented!() }
    #[verifier::external_body] pub fn rotl(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, shift: RobEntryRef<Register>) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Rotl { dst, src, shift })) { unimplemented!() }
    #[verifier::external_body] pub fn not(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Not { dst, src, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn neg(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Neg { dst, src, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn sext(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, width: u32, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Sext { dst, src, width, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn zext(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, width: u32, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Zext { dst, src, width, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn trunc(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>, width: u32, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Trunc { dst, src, width, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn load(&mut self, r: RetirementInfo<DispatchIsaOp>, memory: &Arc<Memory>, src: RobEntryRef<Register>, dst: RobEntryRef<Register>, offset: i32, width: u32, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Load { dst, src, width, offset, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, r: RetirementInfo<DispatchIsaOp>, memory: &Arc<Memory>, src: RobEntryRef<Register>, dst: RobEntryRef<Register>, offset: i32, width: u32, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Store { dst, src, width, offset, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn loadi(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, imm: u32, width: u32, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::LoadI { dst, imm, width, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn mov(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, src: RobEntryRef<Register>) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Move { dst, src })) { unimplemented!() }
    #[verifier::external_body] pub fn add_carry(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, carry_out: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, carry_in: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::AddC { dst, carry_out, a, b, carry_in, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn sub_borrow(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, borrow_out: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, borrow_in: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::SubB { dst, borrow_out, a, b, borrow_in, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn cmux(&mut self, r: RetirementInfo<DispatchIsaOp>, dst: RobEntryRef<Register>, cond: RobEntryRef<Register>, a: RobEntryRef<Register>, b: RobEntryRef<Register>, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Cmux { dst, cond, a, b, id: id, pc: pc })) { unimplemented!() }
    #[verifier::external_body] pub fn dbg(&mut self, r: &RetirementInfo<DispatchIsaOp>, src: RobEntryRef<Register>, handler: u32, id: usize, pc: u32) ensures final(self).aux_data == old(self).aux_data, final(self).log() == old(self).log().push((r.key(), Call::Dbg { src, handler, id: id, pc: pc })) { unimplemented!() }
}
pub open spec fn call_of(i: DispatchIsaOp, id: usize, pc: u32) -> Call { match i {
    And(dst, a, b) => Call::And { dst, a, b, id, pc },
    Or(dst, a, b) => Call::Or { dst, a, b, id, pc },
    Xor(dst, a, b) => Call::Xor { dst, a, b, id, pc },
    Add(dst, a, b) => Call::Add { dst, a, b, id, pc },
    Mul(dst, a, b) => Call::Mul { dst, a, b, id, pc },
    Sub(dst, a, b) => Call::Sub { dst, a, b, id, pc },
    CmpEq(dst, a, b) => Call::CmpEq { dst, a, b, id, pc },
    CmpGt(dst, a, b) => Call::CmpGt { dst, a, b, id, pc },
    CmpGe(dst, a, b) => Call::CmpGe { dst, a, b, id, pc },
    CmpLt(dst, a, b) => Call::CmpLt { dst, a, b, id, pc },
    CmpLe(dst, a, b) => Call::CmpLe { dst, a, b, id, pc },
    CmpGtS(dst, a, b) => Call::CmpGtS { dst, a, b, id, pc },
    CmpGeS(dst, a, b) => Call::CmpGeS { dst, a, b, id, pc },
    CmpLtS(dst, a, b) => Call::CmpLtS { dst, a, b, id, pc },
    CmpLeS(dst, a, b) => Call::CmpLeS { dst, a, b, id, pc },
    Shr(dst, src, shift) => Call::Shr { dst, src, shift },
    Shra(dst, src, shift) => Call::Shra { dst, src, shift },
    Shl(dst, src, shift) => Call::Shl { dst, src, shift },
    Rotr(dst, src, shift) => Call::Rotr { dst, src, shift },
    Rotl(dst, src, shift) => Call::Rotl { dst, src, shift },
    Not(dst, src) => Call::Not { dst, src, id, pc },
    Neg(dst, src) => Call::Neg { dst, src, id, pc },
    Sext(dst, src, width) => Call::Sext { dst, src, width, id, pc },
    Zext(dst, src, width) => Call::Zext { dst, src, width, id, pc },
    Trunc(dst, src, width) => Call::Trunc { dst, src, width, id, pc },
    Load(dst, src, width, offset) => Call::Load { dst, src, width, offset, id, pc },
    Store(dst, src, width, offset) => Call::Store { dst, src, width, offset, id, pc },
    LoadI(dst, imm, width) => Call::LoadI { dst, imm, width, id, pc },
    Move(dst, src) => Call::Move { dst, src },
    AddC(dst, carry_out, a, b, carry_in) => Call::AddC { dst, carry_out, a, b, carry_in, id, pc },
    SubB(dst, borrow_out, a, b, borrow_in) => Call::SubB { dst, borrow_out, a, b, borrow_in, id, pc },
    Cmux(dst, cond, a, b) => Call::Cmux { dst, cond, a, b, id, pc },
    Dbg(src, handler) => Call::Dbg { src, handler, id, pc },
    BranchNonZero(_, _) => Call::Nothing,
    BranchZero(_, _) => Call::Nothing,
    Branch(_) => Call::Nothing,
    Ret() => Call::Nothing
} }
impl FheProcessor {
//@fn parasol_cpu/src/proc/fhe_processor.rs :: <Tomasulo for FheProcessor>::exec_instruction
//@sub "FheProcessor::retire(" => "self.done("
//@sub "Self::retire(" => "self.done("
//@sig fn exec_instruction(&mut self, scoreboard_entry: Scoreboard, retirement_info: RetirementInfo<DispatchIsaOp>, options: &Options)
    requires old(self).aux_data.memory is Some
    ensures final(self).log() == old(self).log().push((retirement_info.key(), if old(self).aux_data.fault.f is Some { Call::Nothing } else { call_of(scoreboard_entry.instruction.i, *scoreboard_entry.id, scoreboard_entry.pc) }))
//@end
//@fn parasol_cpu/src/proc/fhe_processor.rs :: <Tomasulo for FheProcessor>::next_program_counter
//@registers
//@sig fn next_program_counter(&mut self, dispatched_op: DispatchIsaOp, pc: u32) -> (ret: Result<u32>)
    ensures match dispatched_op {
        BranchNonZero(c, o) => match c.reg() { Register::Plaintext { val, .. } => ret is Ok && ret->Ok_0 as int == (if val != 0 { pc + o } else { pc + 8 }) % 0x1_0000_0000, _ => ret is Err && ret->Err_0 is BranchConditionNotPlaintext },
        BranchZero(c, o) => match c.reg() { Register::Plaintext { val, .. } => ret is Ok && ret->Ok_0 as int == (if val == 0 { pc + o } else { pc + 8 }) % 0x1_0000_0000, _ => ret is Err && ret->Err_0 is BranchConditionNotPlaintext },
        Branch(o) => ret is Ok && ret->Ok_0 as int == (pc + o) % 0x1_0000_0000,
        Ret() => ret is Err && ret->Err_0 is Halt,
        _ => ret is Ok && ret->Ok_0 as int == (pc + 8) % 0x1_0000_0000 }
//@at start
    proof { }
//@end
}
} // verus!
fn main() {}
