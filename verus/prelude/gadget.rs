verus! {
/// the polynomial of t-th digits (least significant first)
pub open spec fn dpoly(sc: Seq<WORD>, l: usize, t: int) -> Seq<WORD> { Seq::new(sc.len(), |i: int| digit_of(rst(sc[i], l, t), l)) }
/// the polynomial rounded to the precision of the decomposition
pub open spec fn rpoly(p: Seq<Torus<WORD>>, r: RadixDecomposition) -> Seq<WORD> { Seq::new(p.len(), |i: int| rnd(p[i].0 as int, (W() - r.radix_log.0 * r.count.0) as nat) as WORD) }
/// coefficient x of sum_{t<m} digit_t * row_{cnt-1-t}: the last ciphertext of the row takes the least significant digit
pub open spec fn gsum(b: Seq<Torus<WORD>>, sc: Seq<WORD>, l: usize, n: int, sz: int, cnt: int, x: int, m: int) -> int decreases m
{ if m <= 0 { 0 } else { gsum(b, sc, l, n, sz, cnt, x, m - 1) + conv(comp(comp(b, cnt - m, sz), x / n, n), dpoly(sc, l, m - 1), x % n) } }
//@fn sunscreen_tfhe/src/ops/ciphertext/glev_ciphertext_ops.rs :: decomposed_polynomial_glev_mad
//@slice b_glwe chunk len
//@sub "let mut cur_radix: Polynomial<S> = Polynomial::zero" => "let cur_radix = zero_digits"
//@sub "&mut cur_radix" => "cur_radix"
//@sub "&cur_radix" => "cur_radix"
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, old(c).wf(params), a.level == 0, a.radix.ok(), a.scratch.data@.len() == params.n(), b.wf(params, a.radix.count.0 as int)
    ensures final(c).wf(params), final(a.scratch).data@.len() == params.n(),
        forall|x: int| 0 <= x < old(c).data@.len() ==> (#[trigger] final(c).data@[x]).0 == md(old(c).data@[x].0 + gsum(b.data@, old(a.scratch).data@, a.radix.radix_log.0, params.n(), params.sz(), a.radix.count.0 as int, x, a.radix.count.0 as int))
//@at start
    let ghost (n, k, sz, cnt, l) = (params.n(), params.k(), params.sz(), a.radix.count.0 as int, a.radix.radix_log.0); let ghost (c0, sc, bd, fs) = (c.data@, a.scratch.data@, b.data@, final(a.scratch).data@);
    proof { sz_facts(*params); div_mul(sz, cnt); }
//@at loop 0
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, n == params.n(), k == params.k(), sz == params.sz(), sz >= 1, sz == n * k + n, __n0 == cnt, __i0 <= __n0, b_glwe.stride == sz, b_glwe.data@ == bd, bd.len() == sz * cnt, c.wf(params), c0.len() == sz, sc.len() == n, cur_radix.data@.len() == n,
        a.level == __i0, a.radix.ok(), a.radix.count.0 == cnt, a.radix.radix_log.0 == l, a.scratch.data@.len() == n, final(a.scratch).data@ == fs,
        forall|i: int| 0 <= i < n ==> #[trigger] a.scratch.data@[i] == rst(sc[i], l, __i0 as int),
        forall|x: int| 0 <= x < sz ==> (#[trigger] c.data@[x]).0 == md(c0[x].0 + gsum(bd, sc, l, n, sz, cnt, x, __i0 as int))
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(cnt - 1 - __j0, sz, cnt); div_mul(sz, cnt); }
    let ghost (c1, t) = (c.data@, __j0 as int);
//@at start 0
    proof { assert(b.data@ =~= comp(bd, cnt - 1 - t, sz)); }
//@at end 0
    proof { assert(cur_radix.data@ =~= dpoly(sc, l, t)); 
        assert forall|x: int| 0 <= x < sz implies (#[trigger] c.data@[x]).0 == md(c0[x].0 + gsum(bd, sc, l, n, sz, cnt, x, t + 1)) by { let v = conv(comp(comp(bd, cnt - 1 - t, sz), x / n, n), dpoly(sc, l, t), x % n); md_id(c1[x].0); cong_add(c1[x].0 as int, c0[x].0 + gsum(bd, sc, l, n, sz, cnt, x, t), v, v); } }
//@end
/// coefficient x of sum_{q<m} <digits of component q of a, row q of b>
pub open spec fn esum(b: Seq<Torus<WORD>>, a: Seq<Torus<WORD>>, r: RadixDecomposition, n: int, sz: int, x: int, m: int) -> int decreases m
{ if m <= 0 { 0 } else { esum(b, a, r, n, sz, x, m - 1) + gsum(comp(b, m - 1, sz * r.count.0), rpoly(comp(a, m - 1, n), r), r.radix_log.0, n, sz, r.count.0 as int, x, r.count.0 as int) } }
} // verus!
