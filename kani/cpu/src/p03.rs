use crate::machine::*;
use parasol_cpu::{ArgsBuilder, Arg, Byte, Memory, ToArg, DynamicToArg, Error, Result, assembly::IsaOp::{self, *}, register_names::*};
use parasol_runtime::{L1GlweCiphertext, fluent::{UInt, Int, DynamicUInt, DynamicInt}};
use parasol_concurrency::AtomicRefCell;
use std::sync::Arc;
fn same(b: &[Byte], le: &[u8]) -> bool { b.len() == le.len() && b.iter().zip(le).all(|(x, y)| matches!(x, Byte::Plaintext(z) if z == y)) }
fn round<T: ToArg + PartialEq + std::fmt::Debug>(x: T, le: &[u8], al: usize) {
    let b = x.to_bytes(); assert!(T::size() == le.len() && T::alignment() == al, "{}: size {}, alignment {}", std::any::type_name::<T>(), T::size(), T::alignment());
    assert!(same(&b, le), "bytes of {x:?}");
    let a = x.to_arg(); assert!(a.alignment == al && same(&a.bytes, le), "argument of {x:?}");
    let r = T::to_return_value(); assert!(r.alignment == al && r.size == le.len(), "return value of {}", std::any::type_name::<T>());
    assert!(T::try_from_bytes(b.clone()).unwrap() == x, "{x:?} does not come back");
    let mut long = b.clone(); long.push(Byte::from(0)); assert!(T::try_from_bytes(long).is_err(), "one byte too many was accepted");
    if !b.is_empty() { assert!(T::try_from_bytes(b[1..].to_vec()).is_err(), "one byte too few was accepted");
        let mut mixed = b.clone(); let n = mixed.len(); mixed[nd::any_u8() as usize % n] = Byte::Ciphertext(vec![]); assert!(T::try_from_bytes(mixed).is_err(), "an encrypted byte was accepted"); }
}
#[derive(Clone, Copy, PartialEq, Debug)] struct Odd([u8; 3]);
impl ToArg for Odd {
    fn alignment() -> usize { 4 } fn size() -> usize { 3 }
    fn to_bytes(&self) -> Vec<Byte> { self.0.iter().map(|x| Byte::from(*x)).collect() }
    fn try_from_bytes(d: Vec<Byte>) -> Result<Self> { if d.len() != 3 { return Err(Error::TypeSizeMismatch) } Ok(Odd([d[0].clone().unwrap_plaintext(), d[1].clone().unwrap_plaintext(), d[2].clone().unwrap_plaintext()])) }
}
fn bits(n: usize) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>> { let z = keys().enc.trivial_glwe_l1_zero(); (0..n).map(|_| Arc::new(AtomicRefCell::new(z.clone()))).collect() }
fn ptrs(b: &[Byte]) -> Vec<*const AtomicRefCell<L1GlweCiphertext>> { b.iter().flat_map(|x| match x { Byte::Ciphertext(v) => v.iter().map(Arc::as_ptr).collect::<Vec<_>>(), _ => panic!("plaintext byte") }).collect() }
macro_rules! prim { ($($t:ty, $any:ident);*) => { $( { let x = nd::$any(); round::<$t>(x, &x.to_le_bytes(), std::mem::align_of::<$t>()); let a: [$t; 3] = [x, nd::$any(), x]; let le: Vec<u8> = a.iter().flat_map(|y| y.to_le_bytes()).collect(); round(a, &le, std::mem::align_of::<$t>()); round([a, a], &[le.clone(), le].concat(), std::mem::align_of::<$t>()); } )* } }
fn enc<const N: usize>() {
    let b = bits(N); let p: Vec<_> = b.iter().map(Arc::as_ptr).collect();
    let u = UInt::<N, L1GlweCiphertext>::from_bits_shallow(b.clone()); let i = Int::<N, L1GlweCiphertext>::from_bits_shallow(b.clone());
    for (bytes, al, sz) in [(u.to_bytes(), <UInt<N, L1GlweCiphertext> as ToArg>::alignment(), <UInt<N, L1GlweCiphertext> as ToArg>::size()), (i.to_bytes(), <Int<N, L1GlweCiphertext> as ToArg>::alignment(), <Int<N, L1GlweCiphertext> as ToArg>::size())] {
        assert!(al == N / 8 && sz == N / 8 && bytes.len() == N / 8 && ptrs(&bytes) == p, "{N} encrypted bits");
        assert!(ptrs(&UInt::<N, L1GlweCiphertext>::try_from_bytes(bytes.clone()).unwrap().to_bytes()) == p && ptrs(&Int::<N, L1GlweCiphertext>::try_from_bytes(bytes.clone()).unwrap().to_bytes()) == p, "{N} encrypted bits do not come back");
        assert!(UInt::<N, L1GlweCiphertext>::try_from_bytes(bytes[1..].to_vec()).is_err() && Int::<N, L1GlweCiphertext>::try_from_bytes(vec![Byte::from(0); N / 8]).is_err(), "wrong bytes were accepted");
    }
    let (u, i) = (DynamicUInt::<L1GlweCiphertext>::from_bits_shallow(b.clone()), DynamicInt::<L1GlweCiphertext>::from_bits_shallow(b));
    for (a, al, sz) in [(DynamicToArg::to_arg(&u), DynamicToArg::alignment(&u), DynamicToArg::size(&u)), (DynamicToArg::to_arg(&i), DynamicToArg::alignment(&i), DynamicToArg::size(&i))] {
        assert!(al == N / 8 && sz == N / 8 && a.alignment == al && ptrs(&a.bytes) == p, "{N} encrypted bits, dynamic");
        let u: DynamicUInt<L1GlweCiphertext> = DynamicToArg::try_from_bytes(a.bytes.clone()).unwrap(); let i: DynamicInt<L1GlweCiphertext> = DynamicToArg::try_from_bytes(a.bytes).unwrap();
        assert!(ptrs(&DynamicToArg::to_bytes(&u)) == p && ptrs(&DynamicToArg::to_bytes(&i)) == p, "{N} encrypted bits do not come back, dynamic");
    }
}
fn call<R: ToArg, const MAX: usize>(flat: fn(R) -> [u8; MAX]) {
    let mut a = ArgsBuilder::new(); let (mut off, mut al) = (0usize, 16usize); let mut want: Vec<Option<u8>> = vec![]; let mut at: Vec<usize> = vec![];
    for _ in 0..nd::any_u8() % 6 {
        let mut put = |n: usize, k: usize, le: Option<Vec<u8>>| { off = off.next_multiple_of(k); al = al.max(k); for i in 0..n { at.push(off + i); want.push(le.as_ref().map(|x| x[i])); } off += n; };
        match nd::any_u8() % 9 {
            0 => { let x = nd::any_u8(); put(1, 1, Some(vec![x])); a = a.arg(x) } 1 => { let x = nd::any_i16(); put(2, 2, Some(x.to_le_bytes().to_vec())); a = a.arg(x) } 2 => { let x = nd::any_u32(); put(4, 4, Some(x.to_le_bytes().to_vec())); a = a.arg(x) }
            3 => { let x = nd::any_i64(); put(8, 8, Some(x.to_le_bytes().to_vec())); a = a.arg(x) } 4 => { let x = nd::any_u128(); put(16, 16, Some(x.to_le_bytes().to_vec())); a = a.arg(x) }
            5 => { let x: [u8; 5] = std::array::from_fn(|_| nd::any_u8()); put(5, 1, Some(x.to_vec())); a = a.arg(x) } 6 => { let x: [u16; 3] = std::array::from_fn(|_| nd::any_u16()); put(6, 2, Some(x.iter().flat_map(|y| y.to_le_bytes()).collect())); a = a.arg(x) }
            7 => { put(4, 4, None); a = a.arg(UInt::<32, L1GlweCiphertext>::from_bits_shallow(bits(32))) } _ => { put(32, 32, None); a = a.arg(UInt::<256, L1GlweCiphertext>::from_bits_shallow(bits(256))) }
        }
    }
    if R::size() > 0 { off = off.next_multiple_of(R::alignment()) + R::size(); al = al.max(R::alignment()); }
    let size = off.next_multiple_of(16);
    let data = a.return_value::<R>(); assert!(data.alloc_size() == size, "call data of {size} bytes is {}", data.alloc_size());
    let mem = Arc::new(Memory::new_default_stack());
    let canary: Vec<u8> = (0..1 + nd::any_u8() % 60).map(|i| i ^ 0xa5).collect(); let top = mem.try_push_arg_onto_stack(&Arg { alignment: 1, bytes: canary.iter().map(|x| Byte::from(*x)).collect() }).unwrap();
    let sp = (u32::from(top) - size as u32) & !(al as u32 - 1);
    // the program stores its stack and return pointers, then copies the plaintext bytes of its arguments to the return value
    let mut p = vec![]; if MAX > 0 { for b in 0..4i32 { p.push(LoadI(T1, 8 * b as u32, 32)); p.push(Shr(T0, SP, T1)); p.push(Trunc(T0, T0, 8)); p.push(Store(RP, T0, 8, MAX as i32 - 4 + b)); p.push(Shr(T0, RP, T1)); p.push(Trunc(T0, T0, 8)); p.push(Store(RP, T0, 8, MAX as i32 - 8 + b)); } }
    let copied: Vec<(usize, u8)> = at.iter().zip(&want).filter_map(|(o, w)| w.map(|w| (*o, w))).take(MAX.saturating_sub(8)).collect();
    for (i, (o, _)) in copied.iter().enumerate() { p.push(Load(T0, SP, 8, *o as i32)); p.push(Store(RP, T0, 8, i as i32)); }
    p.push(IsaOp::Ret());
    let pc = mem.allocate_program(&p);
    let r = flat(computer().run_program(pc, &mem, data).unwrap());
    for (i, (o, w)) in copied.iter().enumerate() { assert!(r[i] == *w, "argument byte at SP + {o} is {} instead of {w}", r[i]); }
    if MAX > 0 { let s = u32::from_le_bytes(r[MAX - 4..].try_into().unwrap()); assert!(s % 16 == 0 && s == sp, "the stack pointer is {s:#x}, expected {sp:#x}"); }
    if MAX > 0 { let q = u32::from_le_bytes(r[MAX - 8..MAX - 4].try_into().unwrap()); let end = at.last().map_or(0, |o| *o as u32 + 1); assert!(q % R::alignment() as u32 == 0 && q >= sp + end && q + R::size() as u32 <= sp + size as u32, "the return value of {} bytes, aligned to {}, is at {q:#x}", R::size(), R::alignment()); }
    for (i, w) in canary.iter().enumerate() { assert!(mem.try_load_type::<u8>(top.try_offset(i as u32).unwrap()).unwrap() == *w, "what was on the stack before the call was overwritten"); }
}
nd::harnesses! {
  fn p03_bytes() {
    prim!(u8, any_u8; u16, any_u16; u32, any_u32; u64, any_u64; u128, any_u128; i8, any_i8; i16, any_i16; i32, any_i32; i64, any_i64; i128, any_i128);
    round((), &[], 1); assert!(<[u32; 0]>::size() == 0 && <[(); 3]>::size() == 0); round([(), (), ()], &[], 1);
    // an element that needs padding in an array
    let o = Odd([nd::any_u8(), nd::any_u8(), nd::any_u8()]); let b = [o, o].to_bytes(); assert!(<[Odd; 2]>::size() == 8 && b.len() == 8 && same(&b[..3], &o.0) && same(&b[4..7], &o.0), "padded array"); assert!(<[Odd; 2]>::try_from_bytes(b).unwrap() == [o, o], "padded array does not come back");
  }
  fn p03_encrypted() { if !nd::sampling() { return } enc::<8>(); enc::<16>(); enc::<32>(); enc::<128>(); }
  fn p03_call() {
    if !nd::sampling() { return }
    match nd::any_u8() % 3 { 0 => call::<[u8; 100], 100>(|x| x), 1 => call::<[u128; 8], 128>(|x| std::array::from_fn(|i| x[i / 16].to_le_bytes()[i % 16])), _ => call::<(), 0>(|_| []) }
  }
}
