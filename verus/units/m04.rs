//@include ../prelude/base.rs
//@include ../prelude/choose.rs
verus! {
pub enum CombinationGetIndexError { IncorrectLength(usize, usize), ValueTooLarge(usize, usize) }
pub enum CombinationNewError { ZeroOptions, CombinationTooLarge(usize, usize) }
pub struct Combinations { pub n: usize, pub t: usize, pub current: Option<Vec<usize>> }
/// c lists a subset of {lo, .., n-1} in increasing order
pub open spec fn comb(c: Seq<usize>, lo: int, n: int) -> bool decreases c.len() { c.len() == 0 || (lo <= c[0] < n && comb(c.subrange(1, c.len() as int), c[0] + 1, n)) }
pub open spec fn tl(c: Seq<usize>) -> Seq<usize> { c.subrange(1, c.len() as int) }
/// how many subsets of {lo, .., n-1} of the size of c come before c in lexicographic order
pub open spec fn rank(c: Seq<usize>, lo: int, n: int) -> int decreases n - lo when lo <= n { if c.len() == 0 || lo >= n { 0 } else if c[0] == lo { rank(tl(c), lo + 1, n) } else { choose_(n - lo - 1, c.len() - 1) + rank(c, lo + 1, n) } }
/// the subset of the last a options with x subsets of its size after it
pub open spec fn unrank(x: int, a: int, b: int, n: int) -> Seq<usize> decreases a when a >= 0 { if b <= 0 || a <= 0 { Seq::empty() } else if choose_(a - 1, b) > x { unrank(x, a - 1, b, n) } else { seq![(n - a) as usize].add(unrank(x - choose_(a - 1, b), a - 1, b - 1, n)) } }
pub open spec fn lexlt(c: Seq<usize>, d: Seq<usize>) -> bool decreases c.len() { c.len() > 0 && d.len() > 0 && (c[0] < d[0] || (c[0] == d[0] && lexlt(tl(c), tl(d)))) }
proof fn comb_fits(c: Seq<usize>, lo: int, n: int) requires comb(c, lo, n), lo <= n ensures c.len() <= n - lo decreases c.len() { if c.len() > 0 { comb_fits(tl(c), c[0] + 1, n); } }
proof fn comb_up(c: Seq<usize>, lo: int, n: int) requires comb(c, lo, n), c.len() > 0, c[0] > lo ensures comb(c, lo + 1, n) { }
/// flat reading of comb
proof fn comb_flat(c: Seq<usize>, lo: int, n: int) requires comb(c, lo, n), lo <= n ensures forall|i: int| 0 <= i < c.len() ==> lo + i <= #[trigger] c[i] <= n - c.len() + i, forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] < c[j] decreases c.len()
{
    if c.len() > 0 { let r = tl(c); comb_flat(r, c[0] + 1, n); comb_fits(c, lo, n); comb_fits(r, c[0] + 1, n);
        assert forall|i: int| 0 <= i < c.len() implies lo + i <= #[trigger] c[i] <= n - c.len() + i by { if i > 0 { assert(c[i] == r[i - 1]); } }
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies c[i] < c[j] by { assert(c[j] == r[j - 1]); if i > 0 { assert(c[i] == r[i - 1]); } } }
}
proof fn flat_comb(c: Seq<usize>, lo: int, n: int) requires forall|i: int| 0 <= i < c.len() ==> lo <= #[trigger] c[i] < n, forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] < c[j] ensures comb(c, lo, n) decreases c.len()
{
    if c.len() > 0 { let r = tl(c); assert forall|i: int| 0 <= i < r.len() implies c[0] + 1 <= #[trigger] r[i] < n by { assert(r[i] == c[i + 1]); } assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] < r[j] by { assert(r[i] == c[i + 1] && r[j] == c[j + 1]); } flat_comb(r, c[0] + 1, n); }
}
/// a rank is below the number of subsets
proof fn rank_bound(c: Seq<usize>, lo: int, n: int) requires comb(c, lo, n), 0 <= lo <= n ensures 0 <= rank(c, lo, n) < choose_(n - lo, c.len() as int) decreases n - lo
{
    comb_fits(c, lo, n); choose_nn(n - lo, c.len() as int);
    if c.len() > 0 { choose_nn(n - lo - 1, c.len() - 1); choose_nn(n - lo - 1, c.len() as int); if c[0] == lo { rank_bound(tl(c), lo + 1, n); } else { rank_bound(c, lo + 1, n); } }
}
/// ranks order the subsets lexicographically, so different subsets have different ranks
pub proof fn rank_order(c: Seq<usize>, d: Seq<usize>, lo: int, n: int) requires comb(c, lo, n), comb(d, lo, n), c.len() == d.len(), 0 <= lo <= n ensures lexlt(c, d) <==> rank(c, lo, n) < rank(d, lo, n), rank(c, lo, n) == rank(d, lo, n) <==> c == d decreases n - lo
{
    comb_fits(c, lo, n);
    if c.len() == 0 { assert(c =~= d); } else {
        if c[0] == lo { rank_bound(tl(c), lo + 1, n); } else { rank_bound(c, lo + 1, n); }
        if d[0] == lo { rank_bound(tl(d), lo + 1, n); } else { rank_bound(d, lo + 1, n); }
        if c[0] == lo && d[0] == lo { rank_order(tl(c), tl(d), lo + 1, n); if tl(c) == tl(d) { assert forall|i: int| 0 <= i < c.len() implies c[i] == d[i] by { if i > 0 { assert(c[i] == tl(c)[i - 1] && d[i] == tl(d)[i - 1]); } } assert(c =~= d); } }
        else if c[0] != lo && d[0] != lo { rank_order(c, d, lo + 1, n); }
    }
}
/// every number below the number of subsets is the rank of one
pub proof fn unrank_ok(x: int, a: int, b: int, n: int) requires 0 <= b, 0 <= a <= n <= usize::MAX, 0 <= x < choose_(a, b) ensures comb(unrank(x, a, b, n), n - a, n), unrank(x, a, b, n).len() == b, rank(unrank(x, a, b, n), n - a, n) == choose_(a, b) - 1 - x decreases a
{
    choose_nn(a, b);
    if b == 0 { } else {
        let u = unrank(x, a, b, n);
        choose_nn(a - 1, b);
        if choose_(a - 1, b) > x { unrank_ok(x, a - 1, b, n); assert(u[0] != n - a); assert(comb(u, n - a, n)); }
        else { let v = unrank(x - choose_(a - 1, b), a - 1, b - 1, n); unrank_ok(x - choose_(a - 1, b), a - 1, b - 1, n); assert(tl(u) =~= v); assert(u[0] == (n - a) as usize); }
    }
}
proof fn rank_min(c: Seq<usize>, lo: int, n: int) requires comb(c, lo, n), 0 <= lo <= n, forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == lo + i ensures rank(c, lo, n) == 0 decreases c.len()
{ if c.len() > 0 { comb_fits(c, lo, n); assert forall|i: int| 0 <= i < tl(c).len() implies #[trigger] tl(c)[i] == lo + 1 + i by { assert(tl(c)[i] == c[i + 1]); } assert(c[0] == lo); rank_min(tl(c), lo + 1, n); } }
proof fn rank_max(c: Seq<usize>, lo: int, n: int) requires comb(c, lo, n), 0 <= lo <= n, forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == n - c.len() + i ensures rank(c, lo, n) == choose_(n - lo, c.len() as int) - 1 decreases n - lo
{
    comb_fits(c, lo, n); choose_nn(n - lo, c.len() as int);
    if c.len() > 0 {
        assert(c[0] == n - c.len());
        choose_nn(n - lo - 1, c.len() - 1); choose_nn(n - lo - 1, c.len() as int);
        if c[0] == lo { assert forall|i: int| 0 <= i < tl(c).len() implies #[trigger] tl(c)[i] == n - tl(c).len() + i by { assert(tl(c)[i] == c[i + 1]); } rank_max(tl(c), lo + 1, n); }
        else { rank_max(c, lo + 1, n); }
    }
}
/// the successor: element p goes up by one, what follows restarts right behind it
proof fn rank_succ(c: Seq<usize>, d: Seq<usize>, p: int, lo: int, n: int)
    requires comb(c, lo, n), 0 <= lo <= n, c.len() == d.len(), 0 <= p < c.len(), c[p] < n - c.len() + p, forall|i: int| p < i < c.len() ==> #[trigger] c[i] == n - c.len() + i, forall|i: int| 0 <= i < p ==> #[trigger] d[i] == c[i], forall|i: int| p <= i < c.len() ==> #[trigger] d[i] == c[p] + 1 + (i - p)
    ensures comb(d, lo, n), rank(d, lo, n) == rank(c, lo, n) + 1 decreases n - lo
{
    comb_fits(c, lo, n); comb_flat(c, lo, n);
    assert forall|i: int| 0 <= i < d.len() implies lo <= #[trigger] d[i] < n by { if i < p { assert(d[i] == c[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies d[i] < d[j] by { if i < p { assert(d[i] == c[i]); assert(c[i] < c[p]); if j < p { assert(d[j] == c[j]); } } }
    flat_comb(d, lo, n);
    let k = c.len() as int;
    if p > 0 {
        assert(d[0] == c[0]);
        if c[0] == lo { assert forall|i: int| 0 <= i < p - 1 implies #[trigger] tl(d)[i] == tl(c)[i] by { assert(d[i + 1] == c[i + 1]); } assert forall|i: int| p - 1 < i < k - 1 implies #[trigger] tl(c)[i] == n - (k - 1) + i by { assert(c[i + 1] == n - k + i + 1); } assert(tl(c)[p - 1] == c[p]); assert forall|i: int| p - 1 <= i < k - 1 implies #[trigger] tl(d)[i] == tl(c)[p - 1] + 1 + (i - (p - 1)) by { assert(d[i + 1] == c[p] + 1 + (i + 1 - p)); } rank_succ(tl(c), tl(d), p - 1, lo + 1, n); }
        else { rank_succ(c, d, p, lo + 1, n); }
    } else if c[0] > lo { rank_succ(c, d, p, lo + 1, n); }
    else {
        assert(d[0] == lo + 1);
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] tl(c)[i] == n - (k - 1) + i by { assert(c[i + 1] == n - k + i + 1); }
        rank_max(tl(c), lo + 1, n);
        assert(comb(d, lo + 1, n));
        rank_min(d, lo + 1, n);
    }
}
//@fn sunscreen_math/src/combination.rs :: number_combinations
    requires k <= n ==> choose_(n as int, k as int) * (if k <= n - k { k as int } else { n - k }) <= usize::MAX
    ensures ret == choose_(n as int, k as int)
//@at start
    let ghost (n0, k0) = (n as int, k as int); proof { choose_nn(n0, k0); if k0 <= n0 { choose_sym(n0, k0); } }
//@at init 0
    proof { assert(choose_(n0, k as int) == choose_(n0, k0)); assert(choose_(n0 - k, 0) == 1); }
//@at loop 0
    invariant n == n0, 1 <= k <= n, 2 * k <= n, choose_(n0, k as int) * k <= usize::MAX, choose_(n0, k as int) == choose_(n0, k0), __lo0_0 == 1, __hi0_1 == k + 1, 1 <= __i0 <= k + 1, result == choose_(n - k + __i0 - 1, __i0 - 1)
    decreases __hi0_1 - __i0
//@at start 0
    proof { let (i, m) = (i as int, n - k + i); choose_absorb(m, i); choose_le(m, i, n0, k as int); choose_nn(m, i); let c = choose_(m, i); assert(i * c <= choose_(n0, k as int) * k) by (nonlinear_arith) requires 0 <= i <= k, 0 <= c <= choose_(n0, k as int); let rr = result as int; assert(rr * m == i * c) by (nonlinear_arith) requires i * c == m * rr; vstd::arithmetic::div_mod::lemma_div_multiples_vanish(c, i); assert((rr * m) / i == c); }
//@end
proof fn rank_step(c: Seq<usize>, lo: int, n: int) requires 0 <= lo < n, c.len() > 0, lo <= c[0] ensures lo < c[0] ==> rank(c, lo, n) == choose_(n - lo - 1, c.len() - 1) + rank(c, lo + 1, n), lo == c[0] ==> rank(c, lo, n) == rank(tl(c), lo + 1, n) { }
proof fn rank_empty(c: Seq<usize>, lo: int, n: int) requires lo <= n, c.len() == 0 ensures rank(c, lo, n) == 0 { }
proof fn pascal(a: int, b: int) requires a >= 0, b >= 0 ensures choose_(a + 1, b + 1) == choose_(a, b) + choose_(a, b + 1), choose_(a, b) >= 0, choose_(a, b + 1) >= 0 { choose_nn(a, b); choose_nn(a, b + 1); }
/// `(lo..hi).collect::<Vec<usize>>()`
/// the terms of a rank are no larger than the number of subsets, so nothing overflows
proof fn cap_le(a: int, b: int, n: int, k: int) requires 0 <= a, 0 <= b <= k <= n, a <= n - (k - b), choose_(n, k) * n <= usize::MAX ensures b <= a ==> choose_(a, b) * (if b <= a - b { b } else { a - b }) <= usize::MAX, choose_(a, b) <= choose_(n, k)
{ choose_le(a, b, n, k); choose_nn(a, b); if b <= a { let m = if b <= a - b { b } else { a - b }; let c = choose_(a, b); let d = choose_(n, k); assert(c * m <= d * n) by (nonlinear_arith) requires 0 <= c <= d, 0 <= m <= n; } }
proof fn comb_suffix(c: Seq<usize>, lo: int, n: int, j: int) requires comb(c, lo, n), 0 <= j < c.len() ensures comb(c.subrange(j, c.len() as int), if j == 0 { lo } else { c[j - 1] + 1 }, n) decreases c.len()
{ if j > 0 { let r = tl(c); comb_suffix(r, c[0] + 1, n, j - 1); assert(r.subrange(j - 1, r.len() as int) =~= c.subrange(j, c.len() as int)); if j > 1 { assert(r[j - 2] == c[j - 1]); } } else { assert(c.subrange(0, c.len() as int) =~= c); } }
impl Combinations {
    pub open spec fn wf(&self) -> bool { 1 <= self.n && self.t <= self.n && (self.current is Some ==> self.current->0@.len() == self.t && comb(self.current->0@, 0, self.n as int)) }
    /// how many combinations exist
    pub open spec fn total(&self) -> int { choose_(self.n as int, self.t as int) }
    /// how many have been returned by next
    pub open spec fn done(&self) -> int { if self.current is Some { rank(self.current->0@, 0, self.n as int) + 1 } else { 0 } }
    pub open spec fn fits(&self) -> bool { self.total() * self.n <= usize::MAX }
//@fn sunscreen_math/src/combination.rs :: Combinations::new
    ensures n == 0 ==> ret == Result::<Combinations, CombinationNewError>::Err(CombinationNewError::ZeroOptions), n > 0 && t > n ==> ret == Result::<Combinations, CombinationNewError>::Err(CombinationNewError::CombinationTooLarge(n, t)),
        n > 0 && t <= n ==> ret is Ok && ret->Ok_0.n == n && ret->Ok_0.t == t && ret->Ok_0.wf() && ret->Ok_0.done() == 0
//@end
//@fn sunscreen_math/src/combination.rs :: Combinations::number_combinations
    requires self.wf(), self.fits()
    ensures ret == self.total()
//@at start
    proof { cap_le(self.n as int, self.t as int, self.n as int, self.t as int); }
//@end
//@fn sunscreen_math/src/combination.rs :: Combinations::get_index
//@sub "let mut index = 0;" => "let mut index: usize = 0;" optional
    requires self.wf(), self.fits(), forall|i: int, j: int| 0 <= i < j < combination@.len() ==> combination@[i] < combination@[j]
    ensures combination@.len() != self.t ==> ret == Result::<usize, CombinationGetIndexError>::Err(CombinationGetIndexError::IncorrectLength(self.t, combination@.len() as usize)),
        combination@.len() == self.t ==> (ret is Ok <==> comb(combination@, 0, self.n as int)), ret is Ok ==> ret->Ok_0 == rank(combination@, 0, self.n as int) && ret->Ok_0 < self.total()
//@at start
    hide(choose_); hide(comb); hide(rank);
    let ghost (c, nn) = (combination@, self.n as int); let ghost kk = c.len() as int;
//@at init 0
    proof { choose_nn(nn, kk); let tt = self.total(); assert(tt * nn >= tt) by (nonlinear_arith) requires nn >= 1, tt >= 0; assert(c.subrange(0, kk) =~= c); if forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] < nn { flat_comb(c, 0, nn); } if comb(c, 0, nn) { comb_flat(c, 0, nn); } }
//@at loop 0
    invariant self.wf(), self.fits(), nn == self.n, n == nn - 1, c == combination@, kk == c.len(), k == kk, kk == self.t, c == __s0_0@, __n0 == kk, __i0 <= __n0, forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] < c[j],
        comb(c, 0, nn) <==> (forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] < nn), forall|i: int| 0 <= i < __i0 ==> #[trigger] c[i] < nn,
        item_in_check == (if __i0 == 0 { 0int } else { c[__i0 - 1] + 1 }), __i0 <= item_in_check <= nn, index + choose_(nn - item_in_check, kk - __i0) <= self.total(), self.total() <= usize::MAX,
        comb(c, 0, nn) ==> rank(c, 0, nn) == index + rank(c.subrange(__i0 as int, kk), item_in_check as int, nn)
    decreases __n0 - __i0
//@at first 0
    let ghost jj = __j0 as int; let ghost rest = c.subrange(jj, kk);
    proof { assert(rest[0] == c[jj]); assert(tl(rest) =~= c.subrange(jj + 1, kk)); }
//@at loop 1
    invariant self.wf(), self.fits(), nn == self.n, n == nn - 1, c == combination@, kk == c.len(), k == kk, kk == self.t, 0 <= jj < kk, offset == jj + 1, *item == c[jj], *item < nn, rest == c.subrange(jj, kk), (jj > 0 ==> item_in_check > c[jj - 1]), item_in_check <= *item, forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] < c[j], forall|i: int| 0 <= i < jj ==> #[trigger] c[i] < nn, c.len() == kk,
        jj <= item_in_check, index + choose_(nn - item_in_check, kk - jj) <= self.total(), self.total() <= usize::MAX,
        comb(c, 0, nn) ==> rank(c, 0, nn) == index + rank(rest, item_in_check as int, nn)
    decreases *item - item_in_check
//@at start 1
    proof { let (a, b) = (n - item_in_check, kk - jj - 1); cap_le(a, b, nn, kk); pascal(a, b); assert(rest.len() == kk - jj && rest[0] == c[jj]); rank_step(rest, item_in_check as int, nn); }
//@at after 1
    proof { let a = nn - item_in_check; pascal(a - 1, kk - jj - 1); assert(rest.len() == kk - jj && rest[0] == c[jj]); rank_step(rest, item_in_check as int, nn); assert(tl(rest) =~= c.subrange(jj + 1, kk)); }
//@at after 0
    proof { assert(c.subrange(kk, kk).len() == 0); rank_empty(c.subrange(kk, kk), item_in_check as int, nn); if comb(c, 0, nn) { rank_bound(c, 0, nn); } }
//@end
//@fn sunscreen_math/src/combination.rs :: Combinations::at_index
    requires self.wf(), self.fits()
    ensures index >= self.total() ==> ret is None, index < self.total() ==> ret is Some && ret->0@.len() == self.t && comb(ret->0@, 0, self.n as int) && rank(ret->0@, 0, self.n as int) == index
//@at start
    let ghost (nn, tt) = (self.n as int, self.t as int); let ghost x0 = choose_(nn, tt) - 1 - index;
    proof { choose_nn(nn, tt); cap_le(nn, tt, nn, tt); if index < choose_(nn, tt) { unrank_ok(x0, nn, tt, nn); } }
//@at init 0
    let ghost goal = unrank(x0, nn, tt, nn);
    proof { assert(goal =~= result@.add(unrank(x as int, a as int, b as int, nn))); }
//@at loop 0
    invariant self.wf(), self.fits(), nn == self.n, tt == self.t, goal == unrank(x0, nn, tt, nn), __hi0_1 == tt, 0 <= __i0 <= tt, b == tt - __i0, a <= nn - __i0, x < choose_(a as int, b as int), goal == result@.add(unrank(x as int, a as int, b as int, nn)), result@.len() == __i0
    decreases __hi0_1 - __i0
//@at start 0
    let ghost (r0, a0) = (result@, a as int);
    proof { choose_nn(a as int, b as int); }
//@at init 1
    proof { if a >= 1 && b >= 1 { choose_nn(a as int, b as int); cap_le(a as int, b as int, nn, tt); } }
//@at loop 1
    invariant self.wf(), self.fits(), nn == self.n, tt == self.t, 1 <= b == tt - __i0 + 1, __i0 <= tt, a + 1 <= nn - (__i0 - 1), 0 <= a, x < choose_(a + 1, b as int), goal == result@.add(unrank(x as int, a + 1, b as int, nn)), result@.len() == __i0 - 1, b <= a ==> choose_(a as int, b as int) * (if b <= a - b { b as int } else { a - b }) <= usize::MAX
    decreases a
//@at start 1
    proof { choose_nn(a as int, b as int); if a >= 1 { cap_le(a - 1, b as int, nn, tt); } }
//@at after 1
    let ghost r1 = result@;
    proof { choose_nn(a as int, b as int); assert(choose_(a + 1, b as int) == choose_(a as int, b - 1) + choose_(a as int, b as int)); }
//@at end 0
    proof { assert(goal =~= result@.add(unrank(x as int, a as int, b as int, nn))); }
//@at end-bind
    proof { assert(goal =~= __r->0@); }
//@end
//@fn sunscreen_math/src/combination.rs :: <Iterator for Combinations>::next
//@sig pub fn next(&mut self) -> (ret: Option<Vec<usize>>)
    requires old(self).wf()
    ensures final(self).wf(), final(self).n == old(self).n, final(self).t == old(self).t, ret is None <==> old(self).done() == old(self).total(), ret is None ==> final(self).done() == old(self).done(),
        ret is Some ==> final(self).done() == old(self).done() + 1 && ret->0@.len() == old(self).t && comb(ret->0@, 0, old(self).n as int) && rank(ret->0@, 0, old(self).n as int) == old(self).done()
//@at start
    let ghost (nn, tt) = (self.n as int, self.t as int);
    proof { choose_nn(nn, tt); let z = Seq::new(self.t as nat, |i: int| i as usize); flat_comb(z, 0, nn); rank_min(z, 0, nn); assert forall|q: Seq<usize>| q.len() == tt && (forall|i: int| 0 <= i < tt ==> #[trigger] q[i] == i) implies q == z by { assert(q =~= z); } }
//@at loop 0
    invariant __hi0_1 == tt, __i0 <= tt, __v0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __v0@[k] == k
    decreases __hi0_1 - __i0
//@at init 1
    let ghost c0 = current@; proof { comb_flat(c0, 0, nn); rank_bound(c0, 0, nn); }
//@at loop 1
    invariant_except_break i <= tt, forall|j: int| i <= j < tt ==> #[trigger] current@[j] == nn - tt + j
    invariant self.n == nn, self.t == tt, tt <= nn, nn <= usize::MAX, current@ == c0, c0.len() == tt
    ensures i <= tt, tt > 0 ==> i < tt && (forall|j: int| i < j < tt ==> #[trigger] current@[j] == nn - tt + j) && (current@[i as int] != nn - tt + i || i == 0)
    decreases i
//@at after 1
    proof { if tt == 0 { assert(rank(c0, 0, nn) == 0); } else { if i == 0 && c0[0] == nn - tt { rank_max(c0, 0, nn); } else { assert(c0[i as int] < nn - tt + i); } } }
//@at loop 2
    invariant self.n == nn, self.t == tt, 1 <= tt <= nn, nn <= usize::MAX, i < tt, current@.len() == tt, c0.len() == tt, __hi2_1 == tt, i + 1 <= __i2 <= tt, c0[i as int] < nn - tt + i, forall|j: int| 0 <= j < i ==> #[trigger] current@[j] == c0[j], forall|j: int| i <= j < __i2 ==> #[trigger] current@[j] == c0[i as int] + 1 + (j - i)
    decreases __hi2_1 - __i2
//@at after 2
    proof { rank_succ(c0, current@, i as int, 0, nn); rank_bound(current@, 0, nn); }
//@end
}
/// r is the first m elements of c with e at position ix, everything before it smaller and unchanged, everything after it raised by one
pub open spec fn inserted(c: Seq<usize>, e: usize, ix: int, r: Seq<usize>, m: int) -> bool { (forall|i: int| 0 <= i < ix ==> #[trigger] c[i] < e) && (forall|i: int| 0 <= i < ix ==> #[trigger] r[i] == c[i]) && (forall|i: int| ix <= i < m ==> #[trigger] c[i] >= e) && (forall|i: int| ix < i <= m ==> #[trigger] r[i] == c[i - 1] + 1) }
/// combinations that contain e, from combinations of the other elements
//@fn sunscreen_math/src/combination.rs :: insert_element_into_reduced_combination
    requires forall|i: int, j: int| 0 <= i < j < combination_without_element@.len() ==> combination_without_element@[i] < combination_without_element@[j], forall|i: int| 0 <= i < combination_without_element@.len() ==> #[trigger] combination_without_element@[i] < usize::MAX, combination_without_element@.len() < usize::MAX
    ensures ret.0 <= combination_without_element@.len(), ret.1@.len() == combination_without_element@.len() + 1, inserted(combination_without_element@, element_to_insert, ret.0 as int, ret.1@, combination_without_element@.len() as int), ret.1@[ret.0 as int] == element_to_insert
//@at start
    let ghost c = combination_without_element@;
//@at loop 0
    invariant c == combination_without_element@, c == __s0_0@, __n0 == c.len(), __i0 <= __n0, forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] < c[j], forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] < usize::MAX,
        !element_has_been_inserted ==> index == c.len() && result@.len() == __i0 && (forall|i: int| 0 <= i < __i0 ==> #[trigger] c[i] < element_to_insert) && (forall|i: int| 0 <= i < __i0 ==> #[trigger] result@[i] == c[i]),
        element_has_been_inserted ==> index < __i0 && result@.len() == __i0 + 1 && c[index as int] >= element_to_insert && result@[index as int] == element_to_insert && inserted(c, element_to_insert, index as int, result@, __i0 as int)
    decreases __n0 - __i0
//@end
} // verus!
fn main() {}
