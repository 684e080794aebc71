//@include ../prelude/base.rs
verus! {
use std::marker::PhantomData;
pub struct Register;
pub enum Error { IllegalInstruction(u64) }
pub type Result<T, E = Error> = core::result::Result<T, E>;
//@item parasol_cpu/src/tomasulo/registers.rs :: RegisterName
//@item @isa :: IsaOp
//@item @isa :: IsaOpOpCode
/// two values of PhantomData are equal: the type has one
#[verifier::external_body] pub proof fn phantom<T>(a: PhantomData<T>, b: PhantomData<T>) ensures a == b { unimplemented!() }
/// u32::next_power_of_two followed by ilog2, on the sizes a register file can have
#[verifier::external_body] pub fn log_up(n: u32) -> (r: u32) ensures n <= 256 ==> r == (if n <= 1 { 0u32 } else if n <= 2 { 1 } else if n <= 4 { 2 } else if n <= 8 { 3 } else if n <= 16 { 4 } else if n <= 32 { 5 } else if n <= 64 { 6 } else if n <= 128 { 7 } else { 8 }) { n.next_power_of_two().ilog2() }
impl<T> RegisterName<T> {
//@fn parasol_cpu/src/tomasulo/registers.rs :: RegisterName::new
    ensures ret.name == name
//@end
}
pub open spec fn reg(v: u64) -> RegisterName<Register> { RegisterName { name: (v as usize) & 63, _phantom: arbitrary() } }
pub open spec fn wenc(w: u64) -> u64 { if w == 128 { 0 } else { w } }
pub open spec fn wdec(w: u64) -> u64 { if w == 0 { 128 } else { w } }
pub open spec fn wd(v: u64) -> u32 { wdec((v & 0x7f) as u32 as u64) as u32 }
pub open spec fn of(v: u64) -> i32 { ((((v & 0xffffffff) as i32 as u64) as u32) as i32 as u64) as i32 }
pub open spec fn im(v: u64) -> i32 { (v & 0xffffffff) as i32 }
pub open spec fn um(v: u64) -> u32 { (v & 0xffffffff) as u32 }
pub proof fn lemma_wenc(w: u32) requires 1 <= w <= 128 ensures wenc(w as u64) < 128, wdec(wenc(w as u64)) as u32 == w {}
pub proof fn lemma_reg(r: RegisterName<Register>) requires r.name < 64 ensures forall|v: u64| (v as usize) & 63 == r.name ==> #[trigger] reg(v) == r { assert forall|v: u64| (v as usize) & 63 == r.name implies #[trigger] reg(v) == r by { phantom(reg(v)._phantom, r._phantom); } }
//@fn parasol_cpu/src/proc/assembly.rs :: width_dec
    requires input < 128
    ensures ret == wdec(input)
//@end
//@fn parasol_cpu/src/proc/assembly.rs :: width_enc
    requires 0 < input <= 128
    ensures ret == wenc(input)
//@end
//@fn parasol_cpu/src/proc/assembly.rs :: offset_dec
    ensures ret == input as u32 as i32 as u64
//@end
//@fn parasol_cpu/src/proc/assembly.rs :: offset_enc
    ensures ret == input
//@end
impl IsaOpOpCode {
//@fn @isa :: <TryFrom for IsaOpOpCode>::try_from
//@sig fn try_from(val: u8) -> (ret: Result<Self>)
    ensures ret is Ok ==> opcode(val) == Some(ret->Ok_0), ret is Err ==> opcode(val) is None
//@end
}
impl IsaOp {
//@fn @isa :: IsaOp::op_code
    ensures num(ret) == opc(*self)
//@end
//@fn @isa :: <TryFrom for IsaOp>::try_from
//@slice reg_counts array 1
//@sub "(64 as u32).next_power_of_two().ilog2()" => "log_up(64)"
//@sig fn try_from(value: u64) -> (ret: Result<Self>)
    ensures ret is Ok ==> dec(value) == Some(ret->Ok_0), ret is Err ==> dec(value) is None
//@at start
    proof { facts(); }
//@end
}
//@fn @isa :: <From for u64>::from
//@rename encode
//@sig fn encode(x: IsaOp) -> (ret: u64)
//@sub "(64 as u32).next_power_of_two().ilog2()" => "log_up(64)"
    requires valid(x)
    ensures ret == word(x)
//@at start
    proof { facts(); }
//@end
pub proof fn facts() ensures 1u64 << 7u32 == 128, 1u64 << 32u32 == 0x1_0000_0000, 1usize << 6u32 == 64, forall|x: u64| (#[trigger] (x & 127)) < 128 && (x & 127) as u32 == x & 127
{
    assert(1u64 << 7u32 == 128 && 1u64 << 32u32 == 0x1_0000_0000 && 1usize << 6u32 == 64) by (bit_vector);
    assert forall|x: u64| (#[trigger] (x & 127)) < 128 && (x & 127) as u32 == x & 127 by { assert((x & 127) < 128) by (bit_vector); }
}
/// the opcode of an instruction
pub open spec fn opc(i: IsaOp) -> u64 { match i {
    IsaOp::Store(..) => 0x1,
    IsaOp::Load(..) => 0x9,
    IsaOp::LoadI(..) => 0xa,
    IsaOp::Trunc(..) => 0x11,
    IsaOp::Zext(..) => 0x15,
    IsaOp::Sext(..) => 0x16,
    IsaOp::Move(..) => 0x21,
    IsaOp::Not(..) => 0x31,
    IsaOp::And(..) => 0x32,
    IsaOp::Or(..) => 0x33,
    IsaOp::Xor(..) => 0x34,
    IsaOp::Add(..) => 0x41,
    IsaOp::AddC(..) => 0x42,
    IsaOp::Sub(..) => 0x45,
    IsaOp::SubB(..) => 0x46,
    IsaOp::Neg(..) => 0x49,
    IsaOp::Mul(..) => 0x51,
    IsaOp::Rotl(..) => 0x81,
    IsaOp::Rotr(..) => 0x82,
    IsaOp::Shl(..) => 0x85,
    IsaOp::Shr(..) => 0x86,
    IsaOp::Shra(..) => 0x87,
    IsaOp::CmpEq(..) => 0x91,
    IsaOp::CmpGt(..) => 0x95,
    IsaOp::CmpGtS(..) => 0x96,
    IsaOp::CmpGe(..) => 0x97,
    IsaOp::CmpGeS(..) => 0x98,
    IsaOp::CmpLt(..) => 0x99,
    IsaOp::CmpLtS(..) => 0x9a,
    IsaOp::CmpLe(..) => 0x9b,
    IsaOp::CmpLeS(..) => 0x9c,
    IsaOp::BranchNonZero(..) => 0xb1,
    IsaOp::BranchZero(..) => 0xb2,
    IsaOp::Branch(..) => 0xb5,
    IsaOp::Ret(..) => 0xba,
    IsaOp::Cmux(..) => 0xc1,
    IsaOp::Dbg(..) => 0xf0,
} }
pub open spec fn num(o: IsaOpOpCode) -> u8 { match o {
    IsaOpOpCode::Store => 0x1,
    IsaOpOpCode::Load => 0x9,
    IsaOpOpCode::LoadI => 0xa,
    IsaOpOpCode::Trunc => 0x11,
    IsaOpOpCode::Zext => 0x15,
    IsaOpOpCode::Sext => 0x16,
    IsaOpOpCode::Move => 0x21,
    IsaOpOpCode::Not => 0x31,
    IsaOpOpCode::And => 0x32,
    IsaOpOpCode::Or => 0x33,
    IsaOpOpCode::Xor => 0x34,
    IsaOpOpCode::Add => 0x41,
    IsaOpOpCode::AddC => 0x42,
    IsaOpOpCode::Sub => 0x45,
    IsaOpOpCode::SubB => 0x46,
    IsaOpOpCode::Neg => 0x49,
    IsaOpOpCode::Mul => 0x51,
    IsaOpOpCode::Rotl => 0x81,
    IsaOpOpCode::Rotr => 0x82,
    IsaOpOpCode::Shl => 0x85,
    IsaOpOpCode::Shr => 0x86,
    IsaOpOpCode::Shra => 0x87,
    IsaOpOpCode::CmpEq => 0x91,
    IsaOpOpCode::CmpGt => 0x95,
    IsaOpOpCode::CmpGtS => 0x96,
    IsaOpOpCode::CmpGe => 0x97,
    IsaOpOpCode::CmpGeS => 0x98,
    IsaOpOpCode::CmpLt => 0x99,
    IsaOpOpCode::CmpLtS => 0x9a,
    IsaOpOpCode::CmpLe => 0x9b,
    IsaOpOpCode::CmpLeS => 0x9c,
    IsaOpOpCode::BranchNonZero => 0xb1,
    IsaOpOpCode::BranchZero => 0xb2,
    IsaOpOpCode::Branch => 0xb5,
    IsaOpOpCode::Ret => 0xba,
    IsaOpOpCode::Cmux => 0xc1,
    IsaOpOpCode::Dbg => 0xf0,
} }
/// the machine word of an instruction, field by field, as the instruction tables of the compiler have it
pub open spec fn word(i: IsaOp) -> u64 { match i {
    IsaOp::Store(a, b, c, d) => e_rrwo(0x1u64, a, b, c, d),
    IsaOp::Load(a, b, c, d) => e_rrwo(0x9u64, a, b, c, d),
    IsaOp::LoadI(a, b, c) => e_ruw(0xau64, a, b, c),
    IsaOp::Trunc(a, b, c) => e_rrwx(0x11u64, a, b, c),
    IsaOp::Zext(a, b, c) => e_rrwx(0x15u64, a, b, c),
    IsaOp::Sext(a, b, c) => e_rrwx(0x16u64, a, b, c),
    IsaOp::Move(a, b) => e_rr(0x21u64, a, b),
    IsaOp::Not(a, b) => e_rr(0x31u64, a, b),
    IsaOp::And(a, b, c) => e_rrr(0x32u64, a, b, c),
    IsaOp::Or(a, b, c) => e_rrr(0x33u64, a, b, c),
    IsaOp::Xor(a, b, c) => e_rrr(0x34u64, a, b, c),
    IsaOp::Add(a, b, c) => e_rrr(0x41u64, a, b, c),
    IsaOp::AddC(a, b, c, d, e) => e_rrrrr(0x42u64, a, b, c, d, e),
    IsaOp::Sub(a, b, c) => e_rrr(0x45u64, a, b, c),
    IsaOp::SubB(a, b, c, d, e) => e_rrrrr(0x46u64, a, b, c, d, e),
    IsaOp::Neg(a, b) => e_rr(0x49u64, a, b),
    IsaOp::Mul(a, b, c) => e_rrr(0x51u64, a, b, c),
    IsaOp::Rotl(a, b, c) => e_rrr(0x81u64, a, b, c),
    IsaOp::Rotr(a, b, c) => e_rrr(0x82u64, a, b, c),
    IsaOp::Shl(a, b, c) => e_rrr(0x85u64, a, b, c),
    IsaOp::Shr(a, b, c) => e_rrr(0x86u64, a, b, c),
    IsaOp::Shra(a, b, c) => e_rrr(0x87u64, a, b, c),
    IsaOp::CmpEq(a, b, c) => e_rrr(0x91u64, a, b, c),
    IsaOp::CmpGt(a, b, c) => e_rrr(0x95u64, a, b, c),
    IsaOp::CmpGtS(a, b, c) => e_rrr(0x96u64, a, b, c),
    IsaOp::CmpGe(a, b, c) => e_rrr(0x97u64, a, b, c),
    IsaOp::CmpGeS(a, b, c) => e_rrr(0x98u64, a, b, c),
    IsaOp::CmpLt(a, b, c) => e_rrr(0x99u64, a, b, c),
    IsaOp::CmpLtS(a, b, c) => e_rrr(0x9au64, a, b, c),
    IsaOp::CmpLe(a, b, c) => e_rrr(0x9bu64, a, b, c),
    IsaOp::CmpLeS(a, b, c) => e_rrr(0x9cu64, a, b, c),
    IsaOp::BranchNonZero(a, b) => e_ri(0xb1u64, a, b),
    IsaOp::BranchZero(a, b) => e_ri(0xb2u64, a, b),
    IsaOp::Branch(a) => e_i(0xb5u64, a),
    IsaOp::Ret() => e_X(0xbau64),
    IsaOp::Cmux(a, b, c, d) => e_rrrr(0xc1u64, a, b, c, d),
    IsaOp::Dbg(a, b) => e_ru(0xf0u64, a, b),
} }
/// what the machine can hold: six-bit register numbers, widths from 1 to 128
pub open spec fn valid(i: IsaOp) -> bool { match i {
    IsaOp::Store(a, b, c, d) => a.name < 64 && b.name < 64 && 1 <= c <= 128,
    IsaOp::Load(a, b, c, d) => a.name < 64 && b.name < 64 && 1 <= c <= 128,
    IsaOp::LoadI(a, b, c) => a.name < 64 && 1 <= c <= 128,
    IsaOp::Trunc(a, b, c) => a.name < 64 && b.name < 64 && 1 <= c <= 128,
    IsaOp::Zext(a, b, c) => a.name < 64 && b.name < 64 && 1 <= c <= 128,
    IsaOp::Sext(a, b, c) => a.name < 64 && b.name < 64 && 1 <= c <= 128,
    IsaOp::Move(a, b) => a.name < 64 && b.name < 64,
    IsaOp::Not(a, b) => a.name < 64 && b.name < 64,
    IsaOp::And(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::Or(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::Xor(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::Add(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::AddC(a, b, c, d, e) => a.name < 64 && b.name < 64 && c.name < 64 && d.name < 64 && e.name < 64,
    IsaOp::Sub(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::SubB(a, b, c, d, e) => a.name < 64 && b.name < 64 && c.name < 64 && d.name < 64 && e.name < 64,
    IsaOp::Neg(a, b) => a.name < 64 && b.name < 64,
    IsaOp::Mul(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::Rotl(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::Rotr(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::Shl(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::Shr(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::Shra(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpEq(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpGt(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpGtS(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpGe(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpGeS(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpLt(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpLtS(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpLe(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::CmpLeS(a, b, c) => a.name < 64 && b.name < 64 && c.name < 64,
    IsaOp::BranchNonZero(a, b) => a.name < 64,
    IsaOp::BranchZero(a, b) => a.name < 64,
    IsaOp::Branch(a) => true,
    IsaOp::Ret() => true,
    IsaOp::Cmux(a, b, c, d) => a.name < 64 && b.name < 64 && c.name < 64 && d.name < 64,
    IsaOp::Dbg(a, b) => a.name < 64,
} }
pub open spec fn e_rrwo(op: u64, a: RegisterName<Register>, b: RegisterName<Register>, c: u32, d: i32) -> u64 { ((((op | ((a.name as u64) << 8u32)) | ((b.name as u64) << 14u32)) | ((wenc(c as u64) & 0x7f) << 20u32)) | (((d as u64) & 0xffffffff) << 27u32)) }
pub open spec fn e_ruw(op: u64, a: RegisterName<Register>, b: u32, c: u32) -> u64 { (((op | ((a.name as u64) << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) | ((wenc(c as u64) & 0x7f) << 46u32)) }
pub open spec fn e_rrwx(op: u64, a: RegisterName<Register>, b: RegisterName<Register>, c: u32) -> u64 { (((op | ((a.name as u64) << 8u32)) | ((b.name as u64) << 14u32)) | ((wenc(c as u64) & 0x7f) << 20u32)) }
pub open spec fn e_rr(op: u64, a: RegisterName<Register>, b: RegisterName<Register>) -> u64 { ((op | ((a.name as u64) << 8u32)) | ((b.name as u64) << 14u32)) }
pub open spec fn e_rrr(op: u64, a: RegisterName<Register>, b: RegisterName<Register>, c: RegisterName<Register>) -> u64 { (((op | ((a.name as u64) << 8u32)) | ((b.name as u64) << 14u32)) | ((c.name as u64) << 20u32)) }
pub open spec fn e_rrrrr(op: u64, a: RegisterName<Register>, b: RegisterName<Register>, c: RegisterName<Register>, d: RegisterName<Register>, e: RegisterName<Register>) -> u64 { (((((op | ((a.name as u64) << 8u32)) | ((b.name as u64) << 14u32)) | ((c.name as u64) << 20u32)) | ((d.name as u64) << 26u32)) | ((e.name as u64) << 32u32)) }
pub open spec fn e_ri(op: u64, a: RegisterName<Register>, b: i32) -> u64 { ((op | ((a.name as u64) << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) }
pub open spec fn e_i(op: u64, a: i32) -> u64 { (op | (((a as u64) & 0xffffffff) << 8u32)) }
pub open spec fn e_X(op: u64) -> u64 { op }
pub open spec fn e_rrrr(op: u64, a: RegisterName<Register>, b: RegisterName<Register>, c: RegisterName<Register>, d: RegisterName<Register>) -> u64 { ((((op | ((a.name as u64) << 8u32)) | ((b.name as u64) << 14u32)) | ((c.name as u64) << 20u32)) | ((d.name as u64) << 26u32)) }
pub open spec fn e_ru(op: u64, a: RegisterName<Register>, b: u32) -> u64 { ((op | ((a.name as u64) << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) }
/// the instruction of a machine word: nothing if the opcode is unknown or a bit behind the last field is set
pub open spec fn dec(v: u64) -> Option<IsaOp> { match opcode((v & 0xFF) as u8) { None => None, Some(o) => dec_op(o, v) } }
pub open spec fn dec_op(o: IsaOpOpCode, v: u64) -> Option<IsaOp> { match o {
    IsaOpOpCode::Store => if (((((v >> 8) >> 6) >> 6) >> 7) >> 32) != 0 { None } else { Some(IsaOp::Store(reg((v >> 8)), reg(((v >> 8) >> 6)), wd((((v >> 8) >> 6) >> 6)), of(((((v >> 8) >> 6) >> 6) >> 7)))) },
    IsaOpOpCode::Load => if (((((v >> 8) >> 6) >> 6) >> 7) >> 32) != 0 { None } else { Some(IsaOp::Load(reg((v >> 8)), reg(((v >> 8) >> 6)), wd((((v >> 8) >> 6) >> 6)), of(((((v >> 8) >> 6) >> 6) >> 7)))) },
    IsaOpOpCode::LoadI => if ((((v >> 8) >> 6) >> 32) >> 7) != 0 { None } else { Some(IsaOp::LoadI(reg((v >> 8)), um(((v >> 8) >> 6)), wd((((v >> 8) >> 6) >> 32)))) },
    IsaOpOpCode::Trunc => if (((((v >> 8) >> 6) >> 6) >> 7) >> 7) != 0 { None } else { Some(IsaOp::Trunc(reg((v >> 8)), reg(((v >> 8) >> 6)), wd((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Zext => if (((((v >> 8) >> 6) >> 6) >> 7) >> 7) != 0 { None } else { Some(IsaOp::Zext(reg((v >> 8)), reg(((v >> 8) >> 6)), wd((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Sext => if (((((v >> 8) >> 6) >> 6) >> 7) >> 7) != 0 { None } else { Some(IsaOp::Sext(reg((v >> 8)), reg(((v >> 8) >> 6)), wd((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Move => if (((v >> 8) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Move(reg((v >> 8)), reg(((v >> 8) >> 6)))) },
    IsaOpOpCode::Not => if (((v >> 8) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Not(reg((v >> 8)), reg(((v >> 8) >> 6)))) },
    IsaOpOpCode::And => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::And(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Or => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Or(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Xor => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Xor(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Add => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Add(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::AddC => if ((((((v >> 8) >> 6) >> 6) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::AddC(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)), reg(((((v >> 8) >> 6) >> 6) >> 6)), reg((((((v >> 8) >> 6) >> 6) >> 6) >> 6)))) },
    IsaOpOpCode::Sub => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Sub(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::SubB => if ((((((v >> 8) >> 6) >> 6) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::SubB(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)), reg(((((v >> 8) >> 6) >> 6) >> 6)), reg((((((v >> 8) >> 6) >> 6) >> 6) >> 6)))) },
    IsaOpOpCode::Neg => if (((v >> 8) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Neg(reg((v >> 8)), reg(((v >> 8) >> 6)))) },
    IsaOpOpCode::Mul => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Mul(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Rotl => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Rotl(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Rotr => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Rotr(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Shl => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Shl(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Shr => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Shr(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::Shra => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Shra(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpEq => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpEq(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpGt => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpGt(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpGtS => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpGtS(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpGe => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpGe(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpGeS => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpGeS(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpLt => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpLt(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpLtS => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpLtS(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpLe => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpLe(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::CmpLeS => if ((((v >> 8) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::CmpLeS(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)))) },
    IsaOpOpCode::BranchNonZero => if (((v >> 8) >> 6) >> 32) != 0 { None } else { Some(IsaOp::BranchNonZero(reg((v >> 8)), im(((v >> 8) >> 6)))) },
    IsaOpOpCode::BranchZero => if (((v >> 8) >> 6) >> 32) != 0 { None } else { Some(IsaOp::BranchZero(reg((v >> 8)), im(((v >> 8) >> 6)))) },
    IsaOpOpCode::Branch => if ((v >> 8) >> 32) != 0 { None } else { Some(IsaOp::Branch(im((v >> 8)))) },
    IsaOpOpCode::Ret => if ((v >> 8) >> 44) != 0 { None } else { Some(IsaOp::Ret()) },
    IsaOpOpCode::Cmux => if (((((v >> 8) >> 6) >> 6) >> 6) >> 6) != 0 { None } else { Some(IsaOp::Cmux(reg((v >> 8)), reg(((v >> 8) >> 6)), reg((((v >> 8) >> 6) >> 6)), reg(((((v >> 8) >> 6) >> 6) >> 6)))) },
    IsaOpOpCode::Dbg => if (((v >> 8) >> 6) >> 32) != 0 { None } else { Some(IsaOp::Dbg(reg((v >> 8)), um(((v >> 8) >> 6)))) },
} }
pub open spec fn opcode(v: u8) -> Option<IsaOpOpCode> {
    if v == 0x1 { Some(IsaOpOpCode::Store) } else if v == 0x9 { Some(IsaOpOpCode::Load) } else if v == 0xa { Some(IsaOpOpCode::LoadI) } else if v == 0x11 { Some(IsaOpOpCode::Trunc) } else if v == 0x15 { Some(IsaOpOpCode::Zext) } else if v == 0x16 { Some(IsaOpOpCode::Sext) } else if v == 0x21 { Some(IsaOpOpCode::Move) } else if v == 0x31 { Some(IsaOpOpCode::Not) } else if v == 0x32 { Some(IsaOpOpCode::And) } else if v == 0x33 { Some(IsaOpOpCode::Or) } else if v == 0x34 { Some(IsaOpOpCode::Xor) } else if v == 0x41 { Some(IsaOpOpCode::Add) } else if v == 0x42 { Some(IsaOpOpCode::AddC) } else if v == 0x45 { Some(IsaOpOpCode::Sub) } else if v == 0x46 { Some(IsaOpOpCode::SubB) } else if v == 0x49 { Some(IsaOpOpCode::Neg) } else if v == 0x51 { Some(IsaOpOpCode::Mul) } else if v == 0x81 { Some(IsaOpOpCode::Rotl) } else if v == 0x82 { Some(IsaOpOpCode::Rotr) } else if v == 0x85 { Some(IsaOpOpCode::Shl) } else if v == 0x86 { Some(IsaOpOpCode::Shr) } else if v == 0x87 { Some(IsaOpOpCode::Shra) } else if v == 0x91 { Some(IsaOpOpCode::CmpEq) } else if v == 0x95 { Some(IsaOpOpCode::CmpGt) } else if v == 0x96 { Some(IsaOpOpCode::CmpGtS) } else if v == 0x97 { Some(IsaOpOpCode::CmpGe) } else if v == 0x98 { Some(IsaOpOpCode::CmpGeS) } else if v == 0x99 { Some(IsaOpOpCode::CmpLt) } else if v == 0x9a { Some(IsaOpOpCode::CmpLtS) } else if v == 0x9b { Some(IsaOpOpCode::CmpLe) } else if v == 0x9c { Some(IsaOpOpCode::CmpLeS) } else if v == 0xb1 { Some(IsaOpOpCode::BranchNonZero) } else if v == 0xb2 { Some(IsaOpOpCode::BranchZero) } else if v == 0xb5 { Some(IsaOpOpCode::Branch) } else if v == 0xba { Some(IsaOpOpCode::Ret) } else if v == 0xc1 { Some(IsaOpOpCode::Cmux) } else if v == 0xf0 { Some(IsaOpOpCode::Dbg) } else { None }
}
pub proof fn l_rrwo(op: u64, a: u64, b: u64, c: u64, d: i32, v: u64)
    requires op < 256, a < 64, b < 64, c < 128, v == ((((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32)) | (((d as u64) & 0xffffffff) << 27u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) as usize) & 63) == b as usize, ((((((v >> 8) >> 6) >> 6)) & 0x7f) as u32 as u64) == c, ((((((((v >> 8) >> 6) >> 6) >> 7)) & 0xffffffff) as i32 as u64) as u32 as i32 as u64) as i32 == d, (((((v >> 8) >> 6) >> 6) >> 7) >> 32) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == ((((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32)) | (((d as u64) & 0xffffffff) << 27u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == ((((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32)) | (((d as u64) & 0xffffffff) << 27u32));
    assert((((((v >> 8) >> 6)) as usize) & 63) == b as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == ((((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32)) | (((d as u64) & 0xffffffff) << 27u32));
    assert(((((((v >> 8) >> 6) >> 6)) & 0x7f) as u32 as u64) == c) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == ((((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32)) | (((d as u64) & 0xffffffff) << 27u32));
    assert(((((((((v >> 8) >> 6) >> 6) >> 7)) & 0xffffffff) as i32 as u64) as u32 as i32 as u64) as i32 == d) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == ((((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32)) | (((d as u64) & 0xffffffff) << 27u32));
    assert((((((v >> 8) >> 6) >> 6) >> 7) >> 32) == 0) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == ((((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32)) | (((d as u64) & 0xffffffff) << 27u32));
}
pub proof fn l_ruw(op: u64, a: u64, b: u32, c: u64, v: u64)
    requires op < 256, a < 64, c < 128, v == (((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) | ((c & 0x7f) << 46u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) & 0xffffffff) as u32) == b, ((((((v >> 8) >> 6) >> 32)) & 0x7f) as u32 as u64) == c, ((((v >> 8) >> 6) >> 32) >> 7) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, c < 128, v == (((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) | ((c & 0x7f) << 46u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, c < 128, v == (((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) | ((c & 0x7f) << 46u32));
    assert((((((v >> 8) >> 6)) & 0xffffffff) as u32) == b) by (bit_vector) requires op < 256, a < 64, c < 128, v == (((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) | ((c & 0x7f) << 46u32));
    assert(((((((v >> 8) >> 6) >> 32)) & 0x7f) as u32 as u64) == c) by (bit_vector) requires op < 256, a < 64, c < 128, v == (((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) | ((c & 0x7f) << 46u32));
    assert(((((v >> 8) >> 6) >> 32) >> 7) == 0) by (bit_vector) requires op < 256, a < 64, c < 128, v == (((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32)) | ((c & 0x7f) << 46u32));
}
pub proof fn l_rrwx(op: u64, a: u64, b: u64, c: u64, v: u64)
    requires op < 256, a < 64, b < 64, c < 128, v == (((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) as usize) & 63) == b as usize, ((((((v >> 8) >> 6) >> 6)) & 0x7f) as u32 as u64) == c, (((((v >> 8) >> 6) >> 6) >> 7) >> 7) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == (((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == (((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32));
    assert((((((v >> 8) >> 6)) as usize) & 63) == b as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == (((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32));
    assert(((((((v >> 8) >> 6) >> 6)) & 0x7f) as u32 as u64) == c) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == (((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32));
    assert((((((v >> 8) >> 6) >> 6) >> 7) >> 7) == 0) by (bit_vector) requires op < 256, a < 64, b < 64, c < 128, v == (((op | (a << 8u32)) | (b << 14u32)) | ((c & 0x7f) << 20u32));
}
pub proof fn l_rr(op: u64, a: u64, b: u64, v: u64)
    requires op < 256, a < 64, b < 64, v == ((op | (a << 8u32)) | (b << 14u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) as usize) & 63) == b as usize, (((v >> 8) >> 6) >> 6) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, b < 64, v == ((op | (a << 8u32)) | (b << 14u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, b < 64, v == ((op | (a << 8u32)) | (b << 14u32));
    assert((((((v >> 8) >> 6)) as usize) & 63) == b as usize) by (bit_vector) requires op < 256, a < 64, b < 64, v == ((op | (a << 8u32)) | (b << 14u32));
    assert((((v >> 8) >> 6) >> 6) == 0) by (bit_vector) requires op < 256, a < 64, b < 64, v == ((op | (a << 8u32)) | (b << 14u32));
}
pub proof fn l_rrr(op: u64, a: u64, b: u64, c: u64, v: u64)
    requires op < 256, a < 64, b < 64, c < 64, v == (((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) as usize) & 63) == b as usize, ((((((v >> 8) >> 6) >> 6)) as usize) & 63) == c as usize, ((((v >> 8) >> 6) >> 6) >> 6) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, v == (((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, v == (((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32));
    assert((((((v >> 8) >> 6)) as usize) & 63) == b as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, v == (((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32));
    assert(((((((v >> 8) >> 6) >> 6)) as usize) & 63) == c as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, v == (((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32));
    assert(((((v >> 8) >> 6) >> 6) >> 6) == 0) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, v == (((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32));
}
pub proof fn l_rrrrr(op: u64, a: u64, b: u64, c: u64, d: u64, e: u64, v: u64)
    requires op < 256, a < 64, b < 64, c < 64, d < 64, e < 64, v == (((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32)) | (e << 32u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) as usize) & 63) == b as usize, ((((((v >> 8) >> 6) >> 6)) as usize) & 63) == c as usize, (((((((v >> 8) >> 6) >> 6) >> 6)) as usize) & 63) == d as usize, ((((((((v >> 8) >> 6) >> 6) >> 6) >> 6)) as usize) & 63) == e as usize, ((((((v >> 8) >> 6) >> 6) >> 6) >> 6) >> 6) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, e < 64, v == (((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32)) | (e << 32u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, e < 64, v == (((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32)) | (e << 32u32));
    assert((((((v >> 8) >> 6)) as usize) & 63) == b as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, e < 64, v == (((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32)) | (e << 32u32));
    assert(((((((v >> 8) >> 6) >> 6)) as usize) & 63) == c as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, e < 64, v == (((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32)) | (e << 32u32));
    assert((((((((v >> 8) >> 6) >> 6) >> 6)) as usize) & 63) == d as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, e < 64, v == (((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32)) | (e << 32u32));
    assert(((((((((v >> 8) >> 6) >> 6) >> 6) >> 6)) as usize) & 63) == e as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, e < 64, v == (((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32)) | (e << 32u32));
    assert(((((((v >> 8) >> 6) >> 6) >> 6) >> 6) >> 6) == 0) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, e < 64, v == (((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32)) | (e << 32u32));
}
pub proof fn l_ri(op: u64, a: u64, b: i32, v: u64)
    requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) & 0xffffffff) as i32) == b, (((v >> 8) >> 6) >> 32) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32));
    assert((((((v >> 8) >> 6)) & 0xffffffff) as i32) == b) by (bit_vector) requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32));
    assert((((v >> 8) >> 6) >> 32) == 0) by (bit_vector) requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32));
}
pub proof fn l_i(op: u64, a: i32, v: u64)
    requires op < 256, v == (op | (((a as u64) & 0xffffffff) << 8u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) & 0xffffffff) as i32) == a, ((v >> 8) >> 32) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, v == (op | (((a as u64) & 0xffffffff) << 8u32));
    assert(((((v >> 8)) & 0xffffffff) as i32) == a) by (bit_vector) requires op < 256, v == (op | (((a as u64) & 0xffffffff) << 8u32));
    assert(((v >> 8) >> 32) == 0) by (bit_vector) requires op < 256, v == (op | (((a as u64) & 0xffffffff) << 8u32));
}
pub proof fn l_X(op: u64, v: u64)
    requires op < 256, v == op
    ensures (v & 0xff) as u8 == op as u8, ((v >> 8) >> 44) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, v == op;
    assert(((v >> 8) >> 44) == 0) by (bit_vector) requires op < 256, v == op;
}
pub proof fn l_rrrr(op: u64, a: u64, b: u64, c: u64, d: u64, v: u64)
    requires op < 256, a < 64, b < 64, c < 64, d < 64, v == ((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) as usize) & 63) == b as usize, ((((((v >> 8) >> 6) >> 6)) as usize) & 63) == c as usize, (((((((v >> 8) >> 6) >> 6) >> 6)) as usize) & 63) == d as usize, (((((v >> 8) >> 6) >> 6) >> 6) >> 6) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, v == ((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, v == ((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32));
    assert((((((v >> 8) >> 6)) as usize) & 63) == b as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, v == ((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32));
    assert(((((((v >> 8) >> 6) >> 6)) as usize) & 63) == c as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, v == ((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32));
    assert((((((((v >> 8) >> 6) >> 6) >> 6)) as usize) & 63) == d as usize) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, v == ((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32));
    assert((((((v >> 8) >> 6) >> 6) >> 6) >> 6) == 0) by (bit_vector) requires op < 256, a < 64, b < 64, c < 64, d < 64, v == ((((op | (a << 8u32)) | (b << 14u32)) | (c << 20u32)) | (d << 26u32));
}
pub proof fn l_ru(op: u64, a: u64, b: u32, v: u64)
    requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32))
    ensures (v & 0xff) as u8 == op as u8, ((((v >> 8)) as usize) & 63) == a as usize, (((((v >> 8) >> 6)) & 0xffffffff) as u32) == b, (((v >> 8) >> 6) >> 32) == 0
{
    assert((v & 0xff) as u8 == op as u8) by (bit_vector) requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32));
    assert(((((v >> 8)) as usize) & 63) == a as usize) by (bit_vector) requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32));
    assert((((((v >> 8) >> 6)) & 0xffffffff) as u32) == b) by (bit_vector) requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32));
    assert((((v >> 8) >> 6) >> 32) == 0) by (bit_vector) requires op < 256, a < 64, v == ((op | (a << 8u32)) | (((b as u64) & 0xffffffff) << 14u32));
}
/// an instruction comes back from its word
pub proof fn theorem_roundtrip(i: IsaOp)
    requires valid(i)
    ensures dec(word(i)) == Some(i)
{
    match i {
        IsaOp::Store(a, b, c, d) => { lemma_wenc(c); lemma_reg(a); lemma_reg(b); l_rrwo(0x1u64, a.name as u64, b.name as u64, wenc(c as u64), d, word(i)); }
        IsaOp::Load(a, b, c, d) => { lemma_wenc(c); lemma_reg(a); lemma_reg(b); l_rrwo(0x9u64, a.name as u64, b.name as u64, wenc(c as u64), d, word(i)); }
        IsaOp::LoadI(a, b, c) => { lemma_wenc(c); lemma_reg(a); l_ruw(0xau64, a.name as u64, b, wenc(c as u64), word(i)); }
        IsaOp::Trunc(a, b, c) => { lemma_wenc(c); lemma_reg(a); lemma_reg(b); l_rrwx(0x11u64, a.name as u64, b.name as u64, wenc(c as u64), word(i)); }
        IsaOp::Zext(a, b, c) => { lemma_wenc(c); lemma_reg(a); lemma_reg(b); l_rrwx(0x15u64, a.name as u64, b.name as u64, wenc(c as u64), word(i)); }
        IsaOp::Sext(a, b, c) => { lemma_wenc(c); lemma_reg(a); lemma_reg(b); l_rrwx(0x16u64, a.name as u64, b.name as u64, wenc(c as u64), word(i)); }
        IsaOp::Move(a, b) => { lemma_reg(a); lemma_reg(b); l_rr(0x21u64, a.name as u64, b.name as u64, word(i)); }
        IsaOp::Not(a, b) => { lemma_reg(a); lemma_reg(b); l_rr(0x31u64, a.name as u64, b.name as u64, word(i)); }
        IsaOp::And(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x32u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::Or(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x33u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::Xor(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x34u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::Add(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x41u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::AddC(a, b, c, d, e) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); lemma_reg(d); lemma_reg(e); l_rrrrr(0x42u64, a.name as u64, b.name as u64, c.name as u64, d.name as u64, e.name as u64, word(i)); }
        IsaOp::Sub(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x45u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::SubB(a, b, c, d, e) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); lemma_reg(d); lemma_reg(e); l_rrrrr(0x46u64, a.name as u64, b.name as u64, c.name as u64, d.name as u64, e.name as u64, word(i)); }
        IsaOp::Neg(a, b) => { lemma_reg(a); lemma_reg(b); l_rr(0x49u64, a.name as u64, b.name as u64, word(i)); }
        IsaOp::Mul(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x51u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::Rotl(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x81u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::Rotr(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x82u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::Shl(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x85u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::Shr(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x86u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::Shra(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x87u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpEq(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x91u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpGt(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x95u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpGtS(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x96u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpGe(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x97u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpGeS(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x98u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpLt(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x99u64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpLtS(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x9au64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpLe(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x9bu64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::CmpLeS(a, b, c) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); l_rrr(0x9cu64, a.name as u64, b.name as u64, c.name as u64, word(i)); }
        IsaOp::BranchNonZero(a, b) => { lemma_reg(a); l_ri(0xb1u64, a.name as u64, b, word(i)); }
        IsaOp::BranchZero(a, b) => { lemma_reg(a); l_ri(0xb2u64, a.name as u64, b, word(i)); }
        IsaOp::Branch(a) => {  l_i(0xb5u64, a, word(i)); }
        IsaOp::Ret() => {  l_X(0xbau64, word(i)); }
        IsaOp::Cmux(a, b, c, d) => { lemma_reg(a); lemma_reg(b); lemma_reg(c); lemma_reg(d); l_rrrr(0xc1u64, a.name as u64, b.name as u64, c.name as u64, d.name as u64, word(i)); }
        IsaOp::Dbg(a, b) => { lemma_reg(a); l_ru(0xf0u64, a.name as u64, b, word(i)); }
    }
}
/// no two instructions share a word
pub proof fn theorem_injective(i: IsaOp, j: IsaOp)
    requires valid(i), valid(j), word(i) == word(j)
    ensures i == j
{ theorem_roundtrip(i); theorem_roundtrip(j); }
fn main() {}
}
