verus! {
/// coefficient t - n < n of a ring element of words, continued by X^N = -1
pub open spec fn ea(a: Seq<Torus<WORD>>, k: int) -> int { if k >= 0 { a[k].0 as int } else { -(a[k + a.len()].0 as int) } }
pub open spec fn cterm(a: Seq<Torus<WORD>>, b: Seq<WORD>, k: int) -> spec_fn(int) -> int { |t: int| a[t].0 * eb(b, k - t) }
pub open spec fn cterm2(a: Seq<Torus<WORD>>, b: Seq<WORD>, k: int) -> spec_fn(int) -> int { |t: int| ea(a, k - t) * b[t] }
pub proof fn cs_isum(a: Seq<Torus<WORD>>, b: Seq<WORD>, k: int, i: int) ensures cs(a, b, k, i) == isum(cterm(a, b, k), 0, i) decreases i { if i > 0 { cs_isum(a, b, k, i - 1); } }
/// the negacyclic product read from its second factor
pub proof fn conv_comm(a: Seq<Torus<WORD>>, b: Seq<WORD>, k: int) requires a.len() == b.len(), 0 <= k < a.len() ensures conv(a, b, k) == isum(cterm2(a, b, k), 0, a.len() as int)
{
    let n = a.len() as int; let (f, g) = (cterm(a, b, k), cterm2(a, b, k));
    cs_isum(a, b, k, n); isum_split(f, 0, k + 1, n); isum_split(g, 0, k + 1, n);
    isum_rev(f, g, 0, k + 1, k);
    assert forall|t: int| k + 1 <= t < n implies #[trigger] f(t) == g(k + n - t) by { let (x, y) = (a[t].0 as int, b[k - t + n] as int); assert(x * -y == -x * y) by (nonlinear_arith); }
    isum_rev(f, g, k + 1, n, k + n);
}
pub open spec fn scomp(s: Seq<WORD>, i: int, n: int) -> Seq<WORD> { s.subrange(i * n, (i + 1) * n) }
/// sum_{i<m} (a_i * s_i)[h] over the integers
pub open spec fn gdot(g: Seq<Torus<WORD>>, s: Seq<WORD>, n: int, h: int, m: int) -> int decreases m { if m <= 0 { 0 } else { gdot(g, s, n, h, m - 1) + conv(comp(g, m - 1, n), scomp(s, m - 1, n), h) } }
/// coefficient h of b - sum_i a_i s_i modulo X^N + 1 and modulo the word
pub open spec fn gphase(g: Seq<Torus<WORD>>, s: Seq<WORD>, n: int, k: int, h: int) -> WORD { md(g[n * k + h].0 as int - gdot(g, s, n, h, k)) }
} // verus!
