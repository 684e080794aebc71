use crate::common::*;
use vh::allocate_scratch;
harnesses! {
  fn t14_sequences() {
    if !sampling() { return }
    // any history of requests and releases: live buffers have the requested length and alignment, are
    // pairwise disjoint, and keep what was written to them
    enum B { A(vh::ScratchBuffer<'static, u8>), B(vh::ScratchBuffer<'static, T>), C(vh::ScratchBuffer<'static, u128>), D(vh::ScratchBuffer<'static, num::Complex<f64>>) }
    let mut live: Vec<(B, usize, u8)> = Vec::new();
    fn range(b: &B) -> (usize, usize) { match b { B::A(x) => { let s = x.as_slice(); (s.as_ptr() as usize, s.len()) } B::B(x) => { let s = x.as_slice(); (s.as_ptr() as usize, s.len() * 8) } B::C(x) => { let s = x.as_slice(); (s.as_ptr() as usize, s.len() * 16) } B::D(x) => { let s = x.as_slice(); (s.as_ptr() as usize, s.len() * 16) } } }
    fn bytes(b: &mut B) -> &mut [u8] { let (p, l) = range(b); if l == 0 { return &mut [] } unsafe { std::slice::from_raw_parts_mut(p as *mut u8, l) } }
    for step in 0..40u32 {
      if any_u8() % 3 == 0 && !live.is_empty() { let i = any_usize() % live.len(); live.remove(i); }
      else {
        let count = any_u16() as usize % 300;
        let (mut b, len) = match any_u8() % 4 { 0 => (B::A(allocate_scratch(count)), count), 1 => (B::B(allocate_scratch(count)), 8 * count), 2 => (B::C(allocate_scratch(count)), 16 * count), _ => (B::D(allocate_scratch(count)), 16 * count) };
        let (p, l) = range(&b);
        assert!(l == len, "requested length"); assert!(p % vh::SIMD_ALIGN == 0 || l == 0, "alignment"); assert!(vh::SIMD_ALIGN == 64, "alignment of the widest vector");
        match &mut b { B::A(x) => assert!(x.as_mut_slice().len() == count), B::B(x) => assert!(x.as_mut_slice().len() == count), B::C(x) => assert!(x.as_mut_slice().len() == count), B::D(x) => assert!(x.as_mut_slice().len() == count) }
        for (o, ..) in live.iter() { let (q, m) = range(o); assert!(l == 0 || m == 0 || p + l <= q || q + m <= p, "live buffers are disjoint"); }
        let tag = step as u8; for x in bytes(&mut b) { *x = tag; }
        live.push((b, len, tag));
      }
      for (b, len, tag) in live.iter_mut() { let s = bytes(b); assert!(s.len() == *len); assert!(s.iter().all(|x| x == tag), "contents of a live buffer change only through it"); }
    }
  }
  #[kani::unwind(20)]
  fn t14_fresh() {
    let n = any_usize(); assume(n <= 3);
    let mut b = vh::verif_fresh_scratch::<T>(n);
    assert!(b.as_slice().len() == n && b.as_mut_slice().len() == n, "requested length");
    assert!(b.as_slice().as_ptr() as usize % vh::SIMD_ALIGN == 0, "alignment");
    for x in b.as_mut_slice() { *x = t(7); }
  }
}
