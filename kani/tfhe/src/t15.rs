use crate::common::*;
use vh::{TriangularPairs, TriangularPairsExt};
harnesses! {
  fn t15_index_is_dense() {
    // inside the triangle, the linear index is the position of (i,j) in row order, and symmetric
    let (i, j, n) = if sampling() { let n = 1 + any_usize() % 40; (any_usize() % n, any_usize() % n, n) } else { (any_usize(), any_usize(), any_usize()) };
    assume(n <= 64 && i < n && j < n);
    let (lo, hi) = if i <= j { (i, j) } else { (j, i) };
    // rows 0..lo have n, n-1, .. entries
    let want = lo * n - lo * (lo.wrapping_sub(1) & 127) / 2 * (lo > 0) as usize + (hi - lo);
    let got = vh::linear_index(i, j, n);
    assert!(got == want, "row order"); assert!(got == vh::linear_index(j, i, n), "symmetric"); assert!(got < n * (n + 1) / 2, "dense");
  }
  #[kani::unwind(12)]
  fn t15_pairs_order() {
    let n = size(3, &[0, 1, 2, 4, 7, 13]); let v: Vec<usize> = (0..n).collect();
    let mut it = v.iter().triangular_pairs();
    let mut pos = 0;
    for i in 0..n { for j in i..n { let (a, b) = it.next().unwrap(); assert!(*a == i && *b == j, "pairs in row order"); assert!(vh::linear_index(i, j, n) == pos, "index matches iteration order"); pos += 1; } }
    assert!(it.next().is_none(), "nothing after the last pair");
    let _ = std::marker::PhantomData::<TriangularPairs<std::slice::Iter<usize>>>;
  }
  fn t15_key_lookup() {
    if !sampling() { return }
    let (k, n, l) = (1 + any_u8() as usize % 4, 4, 2); let (g, r) = (gdef(k, n), radix(3, l)); let mut key = SchemeSwitchKey::<u64>::new(&g, &r);
    let glev = (k + 1) * n * l; let base = &*key as *const _ as *const u8 as usize; let mut idx = 0;
    for i in 0..k { for j in i..k { for (a, b) in [(i, j), (j, i)] { assert!(key.get_glev_at_index(a, b, &g, &r) as *const _ as *const u8 as usize == base + 8 * glev * idx); assert!(key.get_glev_at_index_mut(a, b, &g, &r) as *const _ as *const u8 as usize == base + 8 * glev * idx); } idx += 1; } }
  }
}
