verus! {
pub assume_specification[ isize::unsigned_abs ](x: isize) -> (r: usize) ensures r == (if x < 0 { -x } else { x as int });
proof fn mod_step(k: int, m: int) requires m > 0 ensures 0 <= k < m ==> k % m == k, -m <= k < 0 ==> k % m == k + m, m <= k < 2 * m ==> k % m == k - m
{ if 0 <= k < m { vstd::arithmetic::div_mod::lemma_small_mod(k as nat, m as nat); }
  if -m <= k < 0 { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(k, m); vstd::arithmetic::div_mod::lemma_small_mod((k + m) as nat, m as nat); }
  if m <= k < 2 * m { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(k, m); vstd::arithmetic::div_mod::lemma_small_mod((k - m) as nat, m as nat); } }
/// the exponent matters only modulo 2N
proof fn ext_red(p: Seq<Torus<WORD>>, j: int, d: int) requires p.len() > 0 ensures ext(p, j - d) == ext(p, j - d % (2 * p.len() as int)), ext(p, j + d) == ext(p, j + d % (2 * p.len() as int))
{ let m = 2 * p.len() as int; let q = d / m; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, m);
  vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-q, j - d % m, m); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, j + d % m, m); assert(m * -q == -(m * q)) by (nonlinear_arith); }
/// the table of ext on [-2N, 4N)
proof fn ext_tab(p: Seq<Torus<WORD>>) requires p.len() > 0 ensures ({ let n = p.len() as int; forall|k: int| -2 * n <= k < 4 * n ==> #[trigger] ext(p, k) == (if k < -n { p[k + 2 * n].0 } else if k < 0 { wneg(p[k + n].0) } else if k < n { p[k].0 } else if k < 2 * n { wneg(p[k - n].0) } else if k < 3 * n { p[k - 2 * n].0 } else { wneg(p[k - 3 * n].0) }) })
{ let n = p.len() as int; assert forall|k: int| -2 * n <= k < 4 * n implies #[trigger] ext(p, k) == (if k < -n { p[k + 2 * n].0 } else if k < 0 { wneg(p[k + n].0) } else if k < n { p[k].0 } else if k < 2 * n { wneg(p[k - n].0) } else if k < 3 * n { p[k - 2 * n].0 } else { wneg(p[k - 3 * n].0) }) by { mod_step(k, 2 * n); } }
impl PolynomialRef<Torus<WORD>> {
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: PolynomialRef::mul_by_negative_monomial_negacyclic
//@presub "for i in negate_segment" => "for i in negate_segment.start..negate_segment.end"
    requires 0 < old(self).data@.len(), 2 * old(self).data@.len() <= usize::MAX
    ensures final(self).data@.len() == old(self).data@.len(), forall|j: int| 0 <= j < old(self).data@.len() ==> (#[trigger] final(self).data@[j]).0 == ext(old(self).data@, j + degree)
//@at start
    let ghost p = self.data@; let ghost n = p.len() as int; let ghost d0 = degree as int;
    proof { assert forall|j: int| true implies #[trigger] ext(p, j + d0) == ext(p, j + d0 % (2 * n)) by { ext_red(p, j, d0); } 
        ext_tab(p); assert forall|d: int| 0 <= d < 2 * n implies #[trigger] (d % n) == (if d < n { d } else { d - n }) by { mod_step(d, n); } }
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __n0 == n, __s0_0@.len() == __n0, c0.len() == n, c0 == p, __i0 <= __n0, forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0_0@[j]).0 == if j < __i0 { wneg(c0[j].0) } else { c0[j].0 }
    decreases __n0 - __i0
//@at loop 1
    invariant n == p.len(), n == len, self.data@.len() == n, negate_segment.end <= n, shift < n, degree == d0 % (2 * n), 0 < degree < 2 * n, degree != n, shift == (if degree < n { degree as int } else { degree - n }),
        __hi1_1 == negate_segment.end, negate_segment.start == (if degree < n { n - shift } else { 0 }), negate_segment.end == (if degree < n { n } else { n - shift }), negate_segment.start <= __i1 <= negate_segment.end, degree < 2 * n,
        forall|j: int| 0 <= j < n ==> (#[trigger] self.data@[j]).0 == wsgn(negate_segment.start <= j < __i1, p[(if j + shift < n { j + shift } else { j + shift - n })].0)
    decreases __hi1_1 - __i1
//@at after 1
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] self.data@[j]).0 == ext(p, j + d0) by { assert(ext(p, j + d0) == ext(p, j + d0 % (2 * n))); wneg_neg(p[0].0); let k = j + degree; assert(ext(p, k) == ext(p, j + d0)); } }
//@end
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: PolynomialRef::mul_by_positive_monomial_negacyclic
//@presub "for i in negate_segment" => "for i in negate_segment.start..negate_segment.end"
    requires 0 < old(self).data@.len(), 2 * old(self).data@.len() <= usize::MAX
    ensures final(self).data@.len() == old(self).data@.len(), forall|j: int| 0 <= j < old(self).data@.len() ==> (#[trigger] final(self).data@[j]).0 == ext(old(self).data@, j - degree)
//@at start
    let ghost p = self.data@; let ghost n = p.len() as int; let ghost d0 = degree as int;
    proof { assert forall|j: int| true implies #[trigger] ext(p, j - d0) == ext(p, j - d0 % (2 * n)) by { ext_red(p, j, d0); }
        ext_tab(p); assert forall|d: int| 0 <= d < 2 * n implies #[trigger] (d % n) == (if d < n { d } else { d - n }) by { mod_step(d, n); } }
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __n0 == n, __s0_0@.len() == __n0, c0.len() == n, c0 == p, __i0 <= __n0, forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0_0@[j]).0 == if j < __i0 { wneg(c0[j].0) } else { c0[j].0 }
    decreases __n0 - __i0
//@at loop 1
    invariant n == p.len(), n == len, self.data@.len() == n, negate_segment.end <= n, shift < n, degree == d0 % (2 * n), 0 < degree < 2 * n, degree != n, shift == (if degree < n { degree as int } else { degree - n }),
        __hi1_1 == negate_segment.end, negate_segment.start == (if degree < n { 0 } else { shift as int }), negate_segment.end == (if degree < n { degree as int } else { n }), negate_segment.start <= __i1 <= negate_segment.end,
        forall|j: int| 0 <= j < n ==> (#[trigger] self.data@[j]).0 == wsgn(negate_segment.start <= j < __i1, p[(if j >= shift { j - shift } else { j - shift + n })].0)
    decreases __hi1_1 - __i1
//@at after 1
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] self.data@[j]).0 == ext(p, j - d0) by { assert(ext(p, j - d0) == ext(p, j - d0 % (2 * n))); wneg_neg(p[0].0); let k = j - degree; assert(ext(p, k) == ext(p, j - d0)); } }
//@end
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: PolynomialRef::mul_by_monomial_negacyclic
    requires 0 < old(self).data@.len(), 2 * old(self).data@.len() <= usize::MAX
    ensures final(self).data@.len() == old(self).data@.len(), forall|j: int| 0 <= j < old(self).data@.len() ==> (#[trigger] final(self).data@[j]).0 == ext(old(self).data@, j - degree)
//@end
}

} // verus!
