use crate::machine::*;
use parasol_cpu::{Error, assembly::IsaOp::{self, *}, register_names::*};
fn mask(w: u32) -> u128 { if w == 128 { !0 } else { (1 << w) - 1 } }
fn signed(v: u128, w: u32) -> i128 { (v << (128 - w)) as i128 >> (128 - w) }
fn width() -> u32 { let k = nd::any_u8(); match k { 0..64 => 128, 64..128 => [1, 8, 16, 32, 63, 64, 65, 127][k as usize % 8], _ => 1 + k as u32 % 128 } }
fn wide(w: u32) -> u128 { (match nd::any_u8() % 6 { 0 => !0, 1 => mask(w) >> 1, 2 => 1u128 << (w - 1), 3 => 0, _ => nd::any_u128() }) & mask(w) }
/// Runs `op` on registers of width w, and returns the destination as 128 bits, provided its width is `out` and it equals `want` as a register.
fn check(what: &str, op: &[IsaOp], ins: &[(u128, u32)], outs: &[(u128, u32)]) {
    // X20.. hold the operands, X40.. the results
    let regs = [X20, X21, X22]; let res = [X40, X41]; let mut p = vec![]; let mut inputs: Vec<u128> = ins.iter().map(|x| x.0).collect();
    for (i, (_, w)) in ins.iter().enumerate() { p.push(Load(regs[i], SP, 128, 16 * i as i32)); p.push(Trunc(regs[i], regs[i], *w)); }
    p.extend_from_slice(op);
    for (i, (v, w)) in outs.iter().enumerate() {
        inputs.push(*v); p.push(Load(T0, SP, 128, 16 * (ins.len() + i) as i32)); p.push(Trunc(T0, T0, *w));
        // faults unless the result has the same width
        p.push(CmpEq(T1, res[i], T0)); p.push(Zext(T1, T1, 128)); p.push(Store(RP, T1, 128, 32 * i as i32)); p.push(Zext(T2, res[i], 128)); p.push(Store(RP, T2, 128, 32 * i as i32 + 16));
    }
    p.push(Ret());
    match run::<4>(&p, &inputs) {
        Ok(r) => for (i, (v, w)) in outs.iter().enumerate() { assert!(r[2 * i + 1] == *v && r[2 * i] == 1, "{what} of {ins:x?}: result {i} is {:x} at width {w}, expected {v:x} (compares equal: {})", r[2 * i + 1], r[2 * i]) },
        Err(e) => panic!("{what} of {ins:x?}: {e}"),
    }
}
nd::harnesses! {
  fn p04_arith() {
    let w = width(); let m = mask(w); let (a, b, c) = (wide(w), wide(w), nd::any_bool() as u128); let b = if nd::any_u8() % 4 == 0 { a } else { b };
    let (s, t) = ((a, w), (b, w));
    match nd::any_u8() % 9 {
        0 => check("add", &[Add(X40, X20, X21)], &[s, t], &[(a.wrapping_add(b) & m, w)]),
        1 => { let (x, o) = a.overflowing_add(b); let (x, o2) = x.overflowing_add(c); check("add with carry", &[AddC(X40, X41, X20, X21, X22)], &[s, t, (c, 1)], &[(x & m, w), ((if w == 128 { o || o2 } else { x >> w != 0 }) as u128, 1)]) }
        2 => check("sub", &[Sub(X40, X20, X21)], &[s, t], &[(a.wrapping_sub(b) & m, w)]),
        3 => check("sub with borrow", &[SubB(X40, X41, X20, X21, X22)], &[s, t, (c, 1)], &[(a.wrapping_sub(b).wrapping_sub(c) & m, w), ((a < b || (a == b && c == 1)) as u128, 1)]),
        4 => check("neg", &[Neg(X40, X20)], &[s], &[(a.wrapping_neg() & m, w)]),
        5 => check("mul", &[Mul(X40, X20, X21)], &[s, t], &[(a.wrapping_mul(b) & m, w)]),
        6 => check("not", &[Not(X40, X20)], &[s], &[(!a & m, w)]),
        7 => { check("and", &[And(X40, X20, X21)], &[s, t], &[(a & b, w)]); check("or", &[Or(X40, X20, X21)], &[s, t], &[(a | b, w)]); check("xor", &[Xor(X40, X20, X21)], &[s, t], &[(a ^ b, w)]) }
        _ => check("cmux", &[Cmux(X40, X22, X20, X21)], &[s, t, (c, 1)], &[(if c == 1 { a } else { b }, w)]),
    }
  }
  fn p04_shift() {
    let w = width(); let m = mask(w); let a = wide(w); let sw = [3, 8, 32, 128][nd::any_u8() as usize % 4]; let k = match nd::any_u8() % 4 { 0 => wide(sw), 1 => w as u128, _ => nd::any_u8() as u128 % (w as u128 + 2) } & mask(sw);
    let (s, t) = ((a, w), (k, sw)); let big = k >= w as u128; let n = if big { 0 } else { k as u32 }; let r = (k % w as u128) as u32;
    match nd::any_u8() % 5 {
        0 => check("shift left", &[Shl(X40, X20, X21)], &[s, t], &[(if big { 0 } else { a << n & m }, w)]),
        1 => check("shift right", &[Shr(X40, X20, X21)], &[s, t], &[(if big { 0 } else { a >> n }, w)]),
        2 => check("arithmetic shift right", &[Shra(X40, X20, X21)], &[s, t], &[((signed(a, w) >> (if big { 127 } else { n })) as u128 & m, w)]),
        3 => check("rotate left", &[Rotl(X40, X20, X21)], &[s, t], &[(if r == 0 { a } else { (a << r | a >> (w - r)) & m }, w)]),
        _ => check("rotate right", &[Rotr(X40, X20, X21)], &[s, t], &[(if r == 0 { a } else { (a >> r | a << (w - r)) & m }, w)]),
    }
  }
  fn p04_compare() {
    let w = width(); let (a, b) = (wide(w), wide(w)); let b = if nd::any_u8() % 4 == 0 { a } else { b }; let (s, t) = ((a, w), (b, w)); let (x, y) = (signed(a, w), signed(b, w));
    let (i, r, n) = match nd::any_u8() % 9 {
        0 => (CmpEq(X40, X20, X21), a == b, "equal"), 1 => (CmpGt(X40, X20, X21), a > b, "greater"), 2 => (CmpGe(X40, X20, X21), a >= b, "greater or equal"), 3 => (CmpLt(X40, X20, X21), a < b, "less"), 4 => (CmpLe(X40, X20, X21), a <= b, "less or equal"),
        5 => (CmpGtS(X40, X20, X21), x > y, "greater, signed"), 6 => (CmpGeS(X40, X20, X21), x >= y, "greater or equal, signed"), 7 => (CmpLtS(X40, X20, X21), x < y, "less, signed"), _ => (CmpLeS(X40, X20, X21), x <= y, "less or equal, signed"),
    };
    check(n, &[i], &[s, t], &[(r as u128, 1)]);
  }
  fn p04_cast() {
    let w = width(); let v = width(); let (lo, hi) = (w.min(v), w.max(v)); let (a, b) = (wide(lo), wide(hi));
    check("zero extension", &[Zext(X40, X20, hi)], &[(a, lo)], &[(a, hi)]);
    check("sign extension", &[Sext(X40, X20, hi)], &[(a, lo)], &[(signed(a, lo) as u128 & mask(hi), hi)]);
    check("truncation", &[Trunc(X40, X20, lo)], &[(b, hi)], &[(b & mask(lo), lo)]);
    check("move", &[Move(X40, X20)], &[(b, hi)], &[(b, hi)]);
    if lo < hi {
        assert!(matches!(run::<1>(&[Load(X20, SP, 128, 0), Trunc(X20, X20, hi), Zext(X40, X20, lo), Ret()], &[b]), Err(Error::WidthMismatch { .. })), "an extension to a narrower width was accepted");
        assert!(matches!(run::<1>(&[Load(X20, SP, 128, 0), Trunc(X20, X20, lo), Trunc(X40, X20, hi), Ret()], &[b]), Err(Error::WidthMismatch { .. })), "a truncation to a wider width was accepted");
        assert!(matches!(run::<1>(&[Load(X20, SP, 128, 0), Trunc(X21, X20, lo), Trunc(X20, X20, hi), Add(X40, X20, X21), Ret()], &[b]), Err(Error::WidthMismatch { .. })), "operands of different widths were accepted");
    }
  }
  fn p04_loadi() {
    let w = width(); let imm = if nd::any_bool() { nd::any_u32() } else { (signed(wide(w.min(32)), w.min(32))) as u32 };
    let fits = w >= 32 || imm < 1 << w || imm as i32 >= -(1i32 << (w - 1)) && (imm as i32) < 0;
    if fits { check("immediate", &[LoadI(X40, imm, w)], &[], &[(imm as u128 & mask(w), w)]) } else { assert!(run::<1>(&[LoadI(X40, imm, w), Ret()], &[]).is_err(), "immediate {imm:x} accepted at width {w}") }
  }
  fn p04_memory() {
    // loads and stores of every width, in any alignment
    let w = [8u32, 16, 32, 64, 128][nd::any_u8() as usize % 5]; let n = w / 8; let a = nd::any_u128(); let off = nd::any_u8() as u32 % 32; let ok = off % n == 0 && off + n <= 48;
    let r = run::<4>(&[Load(X20, SP, 128, 0), Store(RP, X20, 128, 0), Store(RP, X20, 128, 16), Store(RP, X20, 128, 32), Not(X21, X20), Trunc(X21, X21, w), Store(RP, X21, w, off as i32), Load(X22, RP, w, off as i32), Zext(X22, X22, 128), Store(RP, X22, 128, 48), Ret()], &[a]);
    match r { Ok(r) => { assert!(ok, "an unaligned access was accepted"); let mut m: Vec<u8> = (0..3).flat_map(|_| a.to_le_bytes()).collect(); m[off as usize..(off + n) as usize].copy_from_slice(&(!a).to_le_bytes()[..n as usize]); let got: Vec<u8> = r[..3].iter().flat_map(|x| x.to_le_bytes()).collect(); assert!(got == m && r[3] == !a & mask(w), "store of {w} bits at {off}: {r:x?}") } Err(e) => assert!(!ok, "aligned access of {w} bits at {off} refused: {e}") }
  }
}
