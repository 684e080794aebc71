verus! {
global size_of usize == 8;
use vstd::bits::*;
/// coefficient k - n < k < n of the multiplier, continued by X^N = -1
pub open spec fn eb(b: Seq<WORD>, k: int) -> int { if k >= 0 { b[k] as int } else { -(b[k + b.len()] as int) } }
/// sum_{t<i} a_t b_{k-t}: the first i terms of coefficient k of the negacyclic product
pub open spec fn cs(a: Seq<Torus<WORD>>, b: Seq<WORD>, k: int, i: int) -> int decreases i { if i <= 0 { 0 } else { cs(a, b, k, i - 1) + a[i - 1].0 * eb(b, k - (i - 1)) } }
/// coefficient k of a * b modulo X^N + 1 over the integers
pub open spec fn conv(a: Seq<Torus<WORD>>, b: Seq<WORD>, k: int) -> int { cs(a, b, k, a.len() as int) }
pub open spec fn slot(k: int, i: int, n: int) -> int { if k >= i { k - i } else { k - i + n } }
pub proof fn mask_mod(x: usize, n: usize) requires ispow2(n as int), n <= x < 2 * n ensures (x & ((n - 1) as usize)) == x - n
{ let m = choose|m: nat| #[trigger] vstd::arithmetic::power2::pow2(m) == n; if m >= 64 { assert(vstd::arithmetic::power2::pow2(64) == 0x10000000000000000) by { vstd::arithmetic::power2::lemma2_to64_rest(); } vstd::arithmetic::power2::lemma2_to64(); if m > 64 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(64, m); } }
  lemma_low_bits_mask_values(); lemma_usize_low_bits_mask_is_mod(x, m); assert(low_bits_mask(m) == n - 1);
  vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(x as int, n as int); vstd::arithmetic::div_mod::lemma_small_mod((x - n) as nat, n as nat); }
pub proof fn mad_step(c: int, a: WORD, b: WORD) ensures wadd(md(c), wmul(a, b)) == md(c + a * b), wsub(md(c), wmul(a, b)) == md(c - a * b), md(c + a * -(b as int)) == md(c - a * b)
{ md_add(c, a * b); md_sub(c, a * b); md_id(wmul(a, b)); assert(a * -(b as int) == -(a * b)) by (nonlinear_arith); }
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_mad_impl
//@sig fn polynomial_mad_impl(c: &mut TP, a: &TP, b: &PolynomialRef<WORD>)
//@sub "let mut poly_f64 = allocate_scratch::<f64>(a.len());" => "" optional
//@sub "let poly_f64_ref = PolynomialRef::from_mut_slice(poly_f64.as_mut_slice());" => "" optional
//@sub "a.map_into(poly_f64_ref, |x| x.to_f64());" => "" optional
    requires ispow2(a.data@.len() as int), a.data@.len() == b.data@.len(), old(c).data@.len() == a.data@.len(), 2 * a.data@.len() <= usize::MAX
    ensures final(c).data@.len() == old(c).data@.len(), forall|k: int| 0 <= k < a.data@.len() ==> (#[trigger] final(c).data@[k]).0 == md(old(c).data@[k].0 + conv(a.data@, b.data@, k))
//@at start
    let ghost c0 = c.data@; let ghost n = a.data@.len() as int; let ghost (pa, pb) = (a.data@, b.data@);
    proof { let m = choose|m: nat| #[trigger] vstd::arithmetic::power2::pow2(m) == n; vstd::arithmetic::power2::lemma_pow2_pos(m); }
//@at loop 0
    invariant n == len, __n0 == n, __s0_0@ == pa, b.data@ == pb, pa.len() == n, pb.len() == n, ispow2(n), mask == n - 1, 2 * n <= usize::MAX, coeffs@.len() == n, c0.len() == n, __i0 <= n,
        forall|k: int| 0 <= k < n ==> (#[trigger] coeffs@[k]).0 == md(c0[k].0 + cs(pa, pb, k, __i0 as int))
    decreases n - __i0
//@at loop 1
    invariant n == len, __n1 == n, __s1_0@ == pb, pa.len() == n, pb.len() == n, ispow2(n), mask == n - 1, 2 * n <= usize::MAX, coeffs@.len() == n, c0.len() == n, i < n, l == pa[i as int], __i1 <= n,
        forall|k: int| 0 <= k < n ==> (#[trigger] coeffs@[k]).0 == md(c0[k].0 + cs(pa, pb, k, i as int) + if slot(k, i as int, n) < __i1 { l.0 * eb(pb, k - i) } else { 0 })
    decreases n - __i1
//@at start 1
    proof { if i + j >= n { mask_mod((i + j) as usize, n as usize); } let k = if i + j >= n { i + j - n } else { i + j }; mad_step(c0[k].0 + cs(pa, pb, k, i as int), l.0, r);
       assert forall|q: int| 0 <= q < n && slot(q, i as int, n) == j implies q == k by {} }
//@end
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_external_mad
//@sig fn polynomial_external_mad(c: &mut TP, a: &TP, b: &PolynomialRef<WORD>)
    requires ispow2(a.data@.len() as int), a.data@.len() == b.data@.len(), old(c).data@.len() == a.data@.len(), 2 * a.data@.len() <= usize::MAX
    ensures final(c).data@.len() == old(c).data@.len(), forall|k: int| 0 <= k < a.data@.len() ==> (#[trigger] final(c).data@[k]).0 == md(old(c).data@[k].0 + conv(a.data@, b.data@, k))
//@end
} // verus!
