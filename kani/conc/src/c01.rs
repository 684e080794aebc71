use crate::*;
use parasol_concurrency::*;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
struct T(AtomicUsize);
nd::harnesses! {
  // any history of requests (granted or refused) and releases against the reference: readers xor one writer
  fn c01_history() {
    if !sampling() { return }
    let c = AtomicRefCell::new(0u64); let (mut rd, mut wr) = (Vec::new(), Vec::new()); let mut want = 0u64;
    for _ in 0..1 + any_u8() as usize % 60 {
      match any_u8() % 6 {
        0 | 1 => match refused(|| c.borrow()) { Some(r) => { assert!(wr.is_empty(), "shared borrow next to a writer"); assert!(*r == want); rd.push(r) } None => assert!(!wr.is_empty(), "shared borrow refused without a writer") },
        2 | 3 => match refused(|| c.borrow_mut()) { Some(mut r) => { assert!(wr.is_empty() && rd.is_empty(), "exclusive borrow next to another borrow"); assert!(*r == want); want = any_u64(); *r = want; wr.push(r) } None => assert!(!wr.is_empty() || !rd.is_empty(), "exclusive borrow refused on a free cell") },
        4 => { if !rd.is_empty() { let k = any_u8() as usize % rd.len(); rd.swap_remove(k); } else { wr.pop(); } }
        _ => { if let Some(mut w) = wr.pop() { want = any_u64(); *w = want; } else if let Some(r) = rd.pop() { assert!(*r == want) } }
      }
    }
    rd.clear(); wr.clear();
    match refused(|| *c.borrow_mut()) { Some(v) => assert!(v == want), None => panic!("a cell without borrows refused") } assert!(*c.borrow() == want);
  }
  // copies and deserialized cells start free, and making one leaves the original as it was
  fn c01_copies() {
    if !sampling() { return }
    let c = AtomicRefCell::new(any_u64() >> 1); let held = any_bool(); let r = held.then(|| c.borrow());
    let d = c.clone(); assert!(*d.borrow() == *c.borrow()); assert!(refused(|| *d.borrow_mut()).is_some(), "a copy is free");
    let s = serde_json::to_string(&c).unwrap(); let e: AtomicRefCell<u64> = serde_json::from_str(&s).unwrap(); assert!(*e.borrow() == *c.borrow()); assert!(refused(|| *e.borrow_mut()).is_some());
    assert!(refused(|| *c.borrow_mut()).is_some() == !held, "the original keeps its borrows"); drop(r); assert!(refused(|| *c.borrow_mut()).is_some(), "free again");
    // a panic while a guard is alive releases it
    let _ = refused(|| { let _g = c.borrow_mut(); panic!("x") }); assert!(refused(|| *c.borrow_mut()).is_some(), "released by unwinding");
    // forgetting a guard never frees the cell
    std::mem::forget(c.borrow()); assert!(refused(|| *c.borrow_mut()).is_none(), "forgotten shared borrow"); let f = AtomicRefCell::new(0u8); std::mem::forget(f.borrow_mut()); assert!(refused(|| *f.borrow()).is_none() && refused(|| *f.borrow_mut()).is_none(), "forgotten exclusive borrow");
  }
  // threads: the guards count who is inside
  fn c01_threads() {
    if !sampling() { return }
    let c = AtomicRefCell::new(T(AtomicUsize::new(0))); let inside = AtomicIsize::new(0); let (bad, seed) = (AtomicUsize::new(0), any_u64());
    std::thread::scope(|s| for t in 0..3u64 { let (c, inside, bad) = (&c, &inside, &bad); s.spawn(move || {
      let mut x = seed ^ t << 32 | 1;
      for _ in 0..60 { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if x >> 60 & 3 == 0 { if let Some(mut g) = refused(|| c.borrow_mut()) { if inside.swap(-1, SeqCst) != 0 { bad.fetch_add(1, SeqCst); } *g.0.get_mut() += 1; std::hint::spin_loop(); if inside.swap(0, SeqCst) != -1 { bad.fetch_add(1, SeqCst); } } }
        else if let Some(_g) = refused(|| c.borrow()) { if inside.fetch_add(1, SeqCst) < 0 { bad.fetch_add(1, SeqCst); } if x >> 50 & 7 == 0 { std::thread::yield_now(); } if inside.fetch_sub(1, SeqCst) < 1 { bad.fetch_add(1, SeqCst); } }
      } }); });
    assert!(bad.load(SeqCst) == 0, "a writer next to another borrow"); assert!(refused(|| c.borrow_mut().0.load(SeqCst)).is_some(), "not free after all releases");
  }
  // readers only: every release gives back exactly one borrow, whatever the others do meanwhile
  fn c01_readers() {
    if !sampling() { return }
    let n = 2000 + any_u16() as usize; let k = 2 + any_u8() as usize % 5; let c = AtomicRefCell::new(7u64); let bad = AtomicUsize::new(0);
    std::thread::scope(|s| for t in 0..k { let (c, bad) = (&c, &bad); s.spawn(move || for i in 0..n { match refused(|| c.borrow()) { Some(r) => { if *r != 7 { bad.fetch_add(1, SeqCst); } if (i + t) % 64 == 0 { let _second = refused(|| c.borrow()); } } None => { bad.fetch_add(1, SeqCst); } } }); });
    assert!(bad.load(SeqCst) == 0, "a shared borrow refused without a writer"); assert!(refused(|| *c.borrow_mut()).is_some(), "not free after all releases");
  }
}
