use parasol_cpu::{Memory, Ptr32, ToArg, Allocation, Arg, Byte, Error, PAGE_SIZE};
use std::collections::{HashMap, HashSet};
fn v(p: Ptr32) -> u32 { u32::from(p) }
fn addr(m: &HashSet<u32>, near: &[u32]) -> u32 {
    let base = if nd::any_u8() % 8 == 0 || near.is_empty() { let _ = m; [0u32, 0x1000, 0x80000000, 0x80001000, 0xfffff000, 0xffffffff][nd::any_u8() as usize % 6] } else { near[nd::any_u8() as usize % near.len()] };
    base.wrapping_add(nd::any_i8() as u32)
}
struct Model { pages: HashSet<u32>, bytes: HashMap<u32, u8>, near: Vec<u32> }
impl Model {
    fn mapped(&self, a: u32, len: u32) -> bool { (0..len as u64).all(|i| { let x = a as u64 + i; x <= u32::MAX as u64 && self.pages.contains(&(x as u32 / PAGE_SIZE)) }) }
    fn get(&self, a: u32) -> u8 { *self.bytes.get(&a).unwrap_or(&0) }
    fn map(&mut self, a: u32, len: u32) {
        let (s, e) = (a / PAGE_SIZE, (a as u64 + len as u64 - 1) as u32 / PAGE_SIZE);
        for p in s..=e { assert!(self.pages.insert(p), "page {p:#x} was handed out twice"); }
        self.near.push(a); self.near.push(a.wrapping_add(len)); self.near.push((e.wrapping_add(1)).wrapping_mul(PAGE_SIZE));
    }
}
fn rw<T: ToArg + PartialEq + std::fmt::Debug + Copy>(m: &Memory, k: &mut Model, a: u32, x: T, le: &[u8], back: fn(&[u8]) -> T, al: u32) {
    let n = le.len() as u32; let ok = a % al == 0 && k.mapped(a, n);
    let r = m.try_write_type(Ptr32::from(a), &x);
    assert!(r.is_ok() == ok, "writing {n} bytes at {a:#x}: {r:?}");
    if ok { for i in 0..n { k.bytes.insert(a + i, le[i as usize]); } }
    let a2 = addr(&k.pages, &k.near) & !(al - 1); let ok = k.mapped(a2, n);
    match m.try_load_type::<T>(Ptr32::from(a2)) {
        Ok(y) => { assert!(ok, "read {n} bytes at {a2:#x}, not mapped"); let want: Vec<u8> = (0..n).map(|i| k.get(a2 + i)).collect(); assert!(y == back(&want), "{n} bytes at {a2:#x}: {y:?}, last written {want:x?}") }
        Err(e) => assert!(!ok, "reading {n} bytes at {a2:#x}: {e}"),
    }
}
nd::harnesses! {
  fn p02_history() {
    if !nd::sampling() { return }
    let m = Memory::new_default_stack();
    let mut k = Model { pages: HashSet::new(), bytes: HashMap::new(), near: vec![] };
    k.map(0x80000000, 4096);
    let mut sp = v(m.stack_ptr()); assert!(sp == 0x80001000, "stack pointer {sp:#x}");
    let mut alloc: Option<Allocation> = None; let mut given: Vec<(u32, u32)> = vec![];
    for _ in 0..40 {
        match nd::any_u8() % 8 {
            0 => { // allocate pages
                let len = match nd::any_u8() % 8 { 0 => 0, 1 => 4096, 2 => 4097, 3 => nd::any_u32() | 0xfffff000, 4 => 8192, _ => nd::any_u16() as u32 % 9000 };
                match m.try_allocate(len) {
                    Ok(p) => { let p = v(p); assert!(len > 0 && p != 0 && p % PAGE_SIZE == 0, "{len} bytes at {p:#x}"); assert!(len < 0x80000000, "{len:#x} bytes were allocated"); k.map(p, len); for i in [0, len - 1] { assert!(m.try_load_type::<u8>(Ptr32::from(p + i)).unwrap() == 0, "fresh memory is not zero") } }
                    Err(e) => assert!(len == 0 || len > 0x7ff00000, "{len} bytes refused: {e}"),
                }
            }
            1 => { // several allocations out of one request
                let len = 1 + match nd::any_u8() % 4 { 0 => 4095, 1 => nd::any_u16() as u32 % 5000, _ => nd::any_u8() as u32 }; let al = 1u32 << (nd::any_u8() % 8);
                let (a, p) = Allocation::try_allocate(alloc.take(), &m, len, al).unwrap(); let p = v(p); alloc = Some(a);
                assert!(p % al == 0, "{p:#x} is not aligned to {al}");
                for (q, n) in &given { assert!(p + len <= *q || *q + *n <= p, "{p:#x}+{len} overlaps {q:#x}+{n}"); }
                for (s, e) in [(p / PAGE_SIZE, (p + len - 1) / PAGE_SIZE)] { for pg in s..=e { k.pages.insert(pg); } }
                assert!(m.check_range_is_mapped(Ptr32::from(p), len).is_ok(), "{p:#x}+{len} is not mapped");
                given.push((p, len)); k.near.push(p); k.near.push(p + len);
            }
            2 => { let x = nd::any_u8(); let a = addr(&k.pages, &k.near); rw(&m, &mut k, a, x, &x.to_le_bytes(), |b| b[0], 1) }
            3 => { let x = nd::any_u32(); let a = addr(&k.pages, &k.near); let a = if nd::any_bool() { a & !3 } else { a }; rw(&m, &mut k, a, x, &x.to_le_bytes(), |b| u32::from_le_bytes(b.try_into().unwrap()), 4) }
            4 => { let x = nd::any_i128(); let a = addr(&k.pages, &k.near) & !15; rw(&m, &mut k, a, x, &x.to_le_bytes(), |b| i128::from_le_bytes(b.try_into().unwrap()), 16) }
            5 => { let x: [u8; 300] = std::array::from_fn(|i| i as u8 ^ 0x5a); let a = addr(&k.pages, &k.near); rw(&m, &mut k, a, x, &x, |b| b.try_into().unwrap(), 1) }
            6 => { let a = addr(&k.pages, &k.near); let len = match nd::any_u8() % 4 { 0 => 0, 1 => nd::any_u32(), _ => nd::any_u16() as u32 % 9000 }; let far = len > 70000;
                let ok = len == 0 || (!far && k.mapped(a, len)); assert!(m.check_range_is_mapped(Ptr32::from(a), len).is_ok() == ok, "{a:#x}+{len:#x}: mapped should be {ok}");
                if let Err(Error::AccessViolation(x)) = m.check_range_is_mapped(Ptr32::from(a), len) { assert!(x >= a && (x - a) < len && !k.pages.contains(&(x / PAGE_SIZE)), "{a:#x}+{len:#x}: reported {x:#x}") } }
            _ => { // push
                let al = 1u32 << (nd::any_u8() % 6); let n = match nd::any_u8() % 8 { 0 => nd::any_u16() as u32 % 5000, _ => nd::any_u8() as u32 % 70 }; let x = nd::any_u8();
                let r = m.try_push_arg_onto_stack(&Arg { alignment: al as usize, bytes: vec![Byte::from(x); n as usize] });
                let want = sp.checked_sub(n).map(|a| a & !(al - 1)).filter(|a| k.mapped(*a, sp - *a));
                match (r, want) {
                    (Ok(p), Some(a)) => { let p = v(p); assert!(p == a && v(m.stack_ptr()) == a, "pushing {n} bytes aligned to {al} at {sp:#x} gave {p:#x}, stack pointer {:#x}", v(m.stack_ptr())); for i in a..a + n { k.bytes.insert(i, x); } for i in a + n..sp { k.bytes.insert(i, 0); } sp = a; k.near.push(sp) }
                    (Err(_), None) => assert!(v(m.stack_ptr()) == sp, "a refused push moved the stack pointer"),
                    (r, w) => panic!("pushing {n} bytes aligned to {al} at {sp:#x}: {r:?}, expected {w:x?}"),
                }
            }
        }
    }
    for (a, x) in &k.bytes { assert!(m.try_load_type::<u8>(Ptr32::from(*a)).unwrap() == *x, "byte at {a:#x}"); }
  }
  fn p02_load_store() {
    // a load and a store of every width at every offset: exactly these bytes move, or the access is refused as unaligned
    use parasol_cpu::{assembly::IsaOp::*, register_names::*};
    let w = |k: u8| 8u32 << (k % 5); let (w1, w2) = (w(nd::any_u8()), w(nd::any_u8())); let (o1, o2) = (nd::any_u8() as u32 % 33, nd::any_u8() as u32 % 33); let (o1, o2) = if nd::any_bool() { (o1 / (w1 / 8) * (w1 / 8), o2 / (w2 / 8) * (w2 / 8)) } else { (o1, o2) };
    let x: [u128; 3] = std::array::from_fn(|_| nd::any_u128()); let src: Vec<u8> = x.iter().flat_map(|y| y.to_le_bytes()).collect(); let (n1, n2) = (w1 / 8, w2 / 8);
    let r = crate::machine::run::<3>(&[Load(X0, SP, w1, o1 as i32), Store(RP, X0, w2, o2 as i32), Ret()], &x);
    if o1 % n1 != 0 || o2 % n2 != 0 { assert!(matches!(r, Err(Error::UnalignedAccess(_))), "loading {n1} bytes at {o1} and storing {n2} at {o2}: {r:?}"); return }
    let r: Vec<u8> = r.unwrap().iter().flat_map(|y| y.to_le_bytes()).collect(); let mut want = vec![0u8; 48]; for i in 0..n2 { want[(o2 + i) as usize] = if i < n1 { src[(o1 + i) as usize] } else { 0 }; }
    assert!(r == want, "loading {n1} bytes at {o1} and storing {n2} at {o2} gave {r:x?}, expected {want:x?}");
  }
}
