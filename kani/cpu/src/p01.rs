use parasol_cpu::{Register, assembly::IsaOp, assembly::IsaOp::*, tomasulo::registers::RegisterName};
type R = RegisterName<Register>;
fn reg() -> R { RegisterName::new(nd::any_u8() as usize % 64) }
fn w() -> u32 { let k = nd::any_u8(); if k > 200 { 128 } else { 1 + k as u32 % 128 } }
pub fn op() -> IsaOp {
    let (d, e, a, b, c) = (reg(), reg(), reg(), reg(), reg());
    match nd::any_u8() % 36 {
        0 => Store(a, b, w(), nd::any_i32()), 1 => Load(d, a, w(), nd::any_i32()), 2 => LoadI(d, nd::any_u32(), w()), 3 => Trunc(d, a, w()), 4 => Zext(d, a, w()), 5 => Sext(d, a, w()),
        6 => Move(d, a), 7 => Not(d, a), 8 => And(d, a, b), 9 => Or(d, a, b), 10 => Xor(d, a, b), 11 => Add(d, a, b), 12 => AddC(d, e, a, b, c), 13 => Sub(d, a, b), 14 => SubB(d, e, a, b, c), 15 => Neg(d, a),
        16 => Mul(d, a, b), 17 => Rotl(d, a, b), 18 => Rotr(d, a, b), 19 => Shl(d, a, b), 20 => Shr(d, a, b), 21 => Shra(d, a, b), 22 => CmpEq(d, a, b), 23 => CmpGt(d, a, b), 24 => CmpGtS(d, a, b), 25 => CmpGe(d, a, b), 26 => CmpGeS(d, a, b),
        27 => CmpLt(d, a, b), 28 => CmpLtS(d, a, b), 29 => CmpLe(d, a, b), 30 => CmpLeS(d, a, b), 31 => BranchNonZero(a, nd::any_i32()), 32 => BranchZero(a, nd::any_i32()), 33 => Branch(nd::any_i32()), 34 => Ret(),
        _ => if nd::any_bool() { Cmux(d, a, b, c) } else { Dbg(a, nd::any_u32()) },
    }
}
/// The word of an instruction, field by field (value, bits), as the instruction tables of the compiler have it.
fn word(i: &IsaOp) -> u64 {
    let r = |x: &R| (x.name as u64, 6); let w = |x: &u32| (*x as u64 & 127, 7); let i32_ = |x: &i32| (*x as u32 as u64, 32); let u32_ = |x: &u32| (*x as u64, 32);
    let (o, f): (u64, Vec<(u64, u32)>) = match i {
        Store(a, b, x, y) => (0x01, vec![r(a), r(b), w(x), i32_(y)]), Load(a, b, x, y) => (0x09, vec![r(a), r(b), w(x), i32_(y)]), LoadI(d, x, y) => (0x0a, vec![r(d), u32_(x), w(y)]),
        Trunc(d, a, x) => (0x11, vec![r(d), r(a), w(x)]), Zext(d, a, x) => (0x15, vec![r(d), r(a), w(x)]), Sext(d, a, x) => (0x16, vec![r(d), r(a), w(x)]),
        Move(d, a) => (0x21, vec![r(d), r(a)]), Not(d, a) => (0x31, vec![r(d), r(a)]), And(d, a, b) => (0x32, vec![r(d), r(a), r(b)]), Or(d, a, b) => (0x33, vec![r(d), r(a), r(b)]), Xor(d, a, b) => (0x34, vec![r(d), r(a), r(b)]),
        Add(d, a, b) => (0x41, vec![r(d), r(a), r(b)]), AddC(d, e, a, b, c) => (0x42, vec![r(d), r(e), r(a), r(b), r(c)]), Sub(d, a, b) => (0x45, vec![r(d), r(a), r(b)]), SubB(d, e, a, b, c) => (0x46, vec![r(d), r(e), r(a), r(b), r(c)]),
        Neg(d, a) => (0x49, vec![r(d), r(a)]), Mul(d, a, b) => (0x51, vec![r(d), r(a), r(b)]), Rotl(d, a, b) => (0x81, vec![r(d), r(a), r(b)]), Rotr(d, a, b) => (0x82, vec![r(d), r(a), r(b)]),
        Shl(d, a, b) => (0x85, vec![r(d), r(a), r(b)]), Shr(d, a, b) => (0x86, vec![r(d), r(a), r(b)]), Shra(d, a, b) => (0x87, vec![r(d), r(a), r(b)]),
        CmpEq(d, a, b) => (0x91, vec![r(d), r(a), r(b)]), CmpGt(d, a, b) => (0x95, vec![r(d), r(a), r(b)]), CmpGtS(d, a, b) => (0x96, vec![r(d), r(a), r(b)]), CmpGe(d, a, b) => (0x97, vec![r(d), r(a), r(b)]), CmpGeS(d, a, b) => (0x98, vec![r(d), r(a), r(b)]),
        CmpLt(d, a, b) => (0x99, vec![r(d), r(a), r(b)]), CmpLtS(d, a, b) => (0x9a, vec![r(d), r(a), r(b)]), CmpLe(d, a, b) => (0x9b, vec![r(d), r(a), r(b)]), CmpLeS(d, a, b) => (0x9c, vec![r(d), r(a), r(b)]),
        BranchNonZero(a, x) => (0xb1, vec![r(a), i32_(x)]), BranchZero(a, x) => (0xb2, vec![r(a), i32_(x)]), Branch(x) => (0xb5, vec![i32_(x)]), Ret() => (0xba, vec![]), Cmux(d, a, b, c) => (0xc1, vec![r(d), r(a), r(b), r(c)]), Dbg(a, x) => (0xf0, vec![r(a), u32_(x)]),
    };
    let (mut v, mut s) = (o, 8); for (x, n) in f { v |= x << s; s += n; } v
}
nd::harnesses! {
  fn p01_encode() {
    let i = op(); let v = u64::from(i);
    assert!(v == word(&i), "{i:?} is encoded as {v:#x}, not {:#x}", word(&i));
    match IsaOp::try_from(v) { Ok(j) => assert!(i == j, "{i:?} came back as {j:?}"), Err(e) => panic!("{i:?} came back as {e}") }
  }
  fn p01_decode() {
    // any word, and words one bit away from an instruction
    let v = if nd::any_bool() { nd::any_u64() } else { u64::from(op()) ^ 1u64 << (nd::any_u8() % 64) };
    let v = if nd::any_u8() % 4 == 0 { v & !0xff | u64::from(op()) & 0xff } else { v };
    if let Ok(i) = IsaOp::try_from(v) {
        let used = u64::from(i); assert!(used == word(&i), "{i:?} is encoded as {used:#x}");
        assert!(matches!(IsaOp::try_from(used), Ok(j) if j == i), "{i:?} from {v:#x} does not come back");
        let ignored: u64 = match i { Trunc(..) | Zext(..) | Sext(..) => 127 << 27, Ret() => ((1 << 44) - 1) << 8, _ => 0 };
        assert!(v & !ignored == used, "{v:#x} was decoded as {i:?}, which is {used:#x}");
    }
  }
}
