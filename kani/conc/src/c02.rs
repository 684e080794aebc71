use crate::*;
use parasol_concurrency::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
nd::harnesses! {
  fn c02_history() {
    if !sampling() { return }
    let l = Spinlock::new(0u64); let mut h = Vec::new(); let mut want = 0u64; let mut kept = false;
    for _ in 0..1 + any_u8() as usize % 40 {
      match any_u8() % 6 {
        0..=2 => match l.try_lock() { Some(mut g) => { assert!(h.is_empty() && !kept, "second holder"); assert!(*g == want, "value of the last holder"); want = any_u64(); *g = want; h.push(g) } None => assert!(!h.is_empty() || kept, "free lock refused") },
        3 => if h.is_empty() && !kept { assert!(l.try_lock().is_some(), "free lock refused"); let mut g = l.lock(); assert!(*g == want); want = any_u64(); *g = want; h.push(g) },
        4 => { h.pop(); }
        _ => if any_u8() % 8 == 0 { if let Some(g) = h.pop() { g.keep_locked(); kept = true; } },
      }
    }
    let held = !h.is_empty(); assert!(l.try_lock().is_some() == !(held || kept)); h.clear(); assert!(l.try_lock().is_some() == !kept, "released on drop");
    if !kept { let _ = refused(|| { let _g = l.try_lock().unwrap(); panic!("x") }); assert!(l.try_lock().is_some(), "released by unwinding"); }
  }
  fn c02_threads() {
    if !sampling() { return }
    struct S { l: Spinlock<usize>, inside: AtomicUsize, bad: AtomicUsize, done: AtomicUsize }
    let st = std::sync::Arc::new(S { l: Spinlock::new(0), inside: AtomicUsize::new(0), bad: AtomicUsize::new(0), done: AtomicUsize::new(0) }); let seed = any_u64(); let (tx, rx) = std::sync::mpsc::channel();
    for t in 0..3u64 { let (st, tx) = (st.clone(), tx.clone()); std::thread::spawn(move || {
      let mut x = seed ^ t << 40 | 1;
      for _ in 0..80 { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let g = if x >> 62 == 0 { st.l.try_lock() } else { Some(st.l.lock()) };
        if let Some(mut g) = g { if st.inside.fetch_add(1, SeqCst) != 0 { st.bad.fetch_add(1, SeqCst); } let v = *g; if x >> 50 & 15 == 0 { std::thread::yield_now(); } *g = v + 1; st.done.fetch_add(1, SeqCst); st.inside.fetch_sub(1, SeqCst); }
      } let _ = tx.send(()); }); }
    for _ in 0..3 { assert!(rx.recv_timeout(std::time::Duration::from_secs(30)).is_ok(), "a released lock was never granted again"); }
    assert!(st.bad.load(SeqCst) == 0, "two holders"); assert!(st.l.try_lock().map(|g| *g) == Some(st.done.load(SeqCst)), "a write under the lock was lost");
  }
  // a holder that keeps the lock for seconds: the waiters stay out until it lets go
  fn c02_long_hold() {
    if !sampling() { return }
    let st = std::sync::Arc::new((Spinlock::new(0u64), AtomicUsize::new(1), AtomicUsize::new(0))); let g = st.0.lock(); let (tx, rx) = std::sync::mpsc::channel();
    for _ in 0..2 { let (st, tx) = (st.clone(), tx.clone()); std::thread::spawn(move || { let g = st.0.lock(); if st.1.load(SeqCst) != 0 { st.2.fetch_add(1, SeqCst); } drop(g); let _ = tx.send(()); }); }
    std::thread::sleep(std::time::Duration::from_millis(5000)); st.1.store(0, SeqCst); drop(g);
    for _ in 0..2 { assert!(rx.recv_timeout(std::time::Duration::from_secs(30)).is_ok(), "a released lock was never granted again"); }
    assert!(st.2.load(SeqCst) == 0, "entered while held");
  }
}
