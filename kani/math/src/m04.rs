use crate::common::*;
use sunscreen_math::combination::*;
fn binom(n: usize, k: usize) -> u128 { if k > n { return 0 } let mut r = 1u128; for i in 0..k { r = r * (n - i) as u128 / (i + 1) as u128; } r }
nd::harnesses! {
  fn m04_enumeration() {
    if !sampling() { return }
    let n = any_u8() as usize % 9; let t = any_u8() as usize % (n + 2);
    let Ok(c) = Combinations::new(n, t) else { assert!(t > n || t == 0 || n == 0, "refused a legal pair"); return };
    assert!(t <= n && c.number_combinations() as u128 == binom(n, t), "count");
    let all: Vec<Vec<usize>> = Combinations::new(n, t).unwrap().collect();
    assert!(all.len() as u128 == binom(n, t), "visited");
    for (i, x) in all.iter().enumerate() {
        assert!(x.len() == t && x.windows(2).all(|w| w[0] < w[1]) && x.iter().all(|v| *v < n), "a subset");
        if i > 0 { assert!(all[i - 1] < *x, "lexicographic, no duplicates"); }
        assert!(c.get_index(x) == Ok(i), "rank"); assert!(c.at_index(i).as_ref() == Some(x), "unrank");
    }
    assert!(c.at_index(all.len()).is_none(), "past the end");
    if t > 0 { assert!(c.get_index(&vec![0; t - 1]).is_err()); let mut b: Vec<usize> = (0..t).collect(); b[t - 1] = n; assert!(c.get_index(&b).is_err(), "element out of range"); }
  }
  fn m04_large_rank() {
    if !sampling() { return }
    let n = 2 + any_u8() as usize % 58; let t = 1 + any_u8() as usize % n; if binom(n, t) * (t.min(n - t).max(1) as u128) > u64::MAX as u128 { return }
    let Ok(c) = Combinations::new(n, t) else { return };
    assert!(c.number_combinations() as u128 == binom(n, t), "count");
    let i = (any_u64() as u128 % binom(n, t)) as usize; let x = c.at_index(i).unwrap();
    assert!(x.len() == t && x.windows(2).all(|w| w[0] < w[1]) && x.iter().all(|v| *v < n), "a subset"); assert!(c.get_index(&x) == Ok(i), "rank of unrank");
    if i + 1 < binom(n, t) as usize { assert!(c.at_index(i + 1).unwrap() > x, "order"); } else { assert!(c.at_index(i + 1).is_none()); }
  }
}
