verus! {
/// sum of f over lo <= t < hi
pub open spec fn isum(f: spec_fn(int) -> int, lo: int, hi: int) -> int decreases hi - lo { if hi <= lo { 0 } else { isum(f, lo, hi - 1) + f(hi - 1) } }
pub proof fn isum_ext(f: spec_fn(int) -> int, g: spec_fn(int) -> int, lo: int, hi: int) requires forall|t: int| lo <= t < hi ==> #[trigger] f(t) == g(t) ensures isum(f, lo, hi) == isum(g, lo, hi) decreases hi - lo { if lo < hi { isum_ext(f, g, lo, hi - 1); } }
pub proof fn isum_split(f: spec_fn(int) -> int, lo: int, mid: int, hi: int) requires lo <= mid <= hi ensures isum(f, lo, hi) == isum(f, lo, mid) + isum(f, mid, hi) decreases hi - mid { if mid < hi { isum_split(f, lo, mid, hi - 1); } }
pub proof fn isum_first(f: spec_fn(int) -> int, lo: int, hi: int) requires lo < hi ensures isum(f, lo, hi) == f(lo) + isum(f, lo + 1, hi) { isum_split(f, lo, lo + 1, hi); assert(isum(f, lo, lo + 1) == isum(f, lo, lo) + f(lo)); }
/// reversal: t -> c - t
pub proof fn isum_rev(f: spec_fn(int) -> int, g: spec_fn(int) -> int, lo: int, hi: int, c: int) requires lo <= hi, forall|t: int| lo <= t < hi ==> #[trigger] f(t) == g(c - t) ensures isum(f, lo, hi) == isum(g, c - hi + 1, c - lo + 1) decreases hi - lo
{ if lo < hi { isum_rev(f, g, lo, hi - 1, c); isum_first(g, c - hi + 1, c - lo + 1); assert(f(hi - 1) == g(c - (hi - 1))); } }
pub proof fn isum_cong(f: spec_fn(int) -> int, g: spec_fn(int) -> int, lo: int, hi: int) requires forall|t: int| lo <= t < hi ==> cong(#[trigger] f(t), g(t)) ensures cong(isum(f, lo, hi), isum(g, lo, hi)) decreases hi - lo { if lo < hi { isum_cong(f, g, lo, hi - 1); cong_add(isum(f, lo, hi - 1), isum(g, lo, hi - 1), f(hi - 1), g(hi - 1)); } }
pub proof fn isum_add(f: spec_fn(int) -> int, g: spec_fn(int) -> int, h: spec_fn(int) -> int, lo: int, hi: int) requires forall|t: int| lo <= t < hi ==> #[trigger] h(t) == f(t) + g(t) ensures isum(h, lo, hi) == isum(f, lo, hi) + isum(g, lo, hi) decreases hi - lo { if lo < hi { isum_add(f, g, h, lo, hi - 1); } }
pub proof fn isum_mul(f: spec_fn(int) -> int, h: spec_fn(int) -> int, c: int, lo: int, hi: int) requires forall|t: int| lo <= t < hi ==> #[trigger] h(t) == c * f(t) ensures isum(h, lo, hi) == c * isum(f, lo, hi) decreases hi - lo { if lo < hi { isum_mul(f, h, c, lo, hi - 1); let (a, b) = (isum(f, lo, hi - 1), f(hi - 1)); assert(c * (a + b) == c * a + c * b) by (nonlinear_arith); } else { assert(c * 0 == 0); } }
} // verus!
