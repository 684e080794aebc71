//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/poly.rs
//@include ../prelude/conv.rs
verus! {
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
/// an odd factor cannot supply powers of two
proof fn odd_cancel(d: int, k: int, m: nat) requires k % 2 == 1, (d * k) % (pow2(m) as int) == 0 ensures d % (pow2(m) as int) == 0 decreases m
{ lemma_pow2_pos(m); if m == 0 { lemma2_to64(); } else {
    lemma_pow2_unfold(m); let h = pow2((m - 1) as nat) as int; lemma_pow2_pos((m - 1) as nat); let q = (d * k) / (2 * h); lemma_fundamental_div_mod(d * k, 2 * h);
    let r = k / 2; assert(d * k == 2 * (d * r) + d) by (nonlinear_arith) requires k == 2 * r + 1; assert(2 * h * q == 2 * (h * q)) by (nonlinear_arith);
    let e = d / 2; assert(d == 2 * e); assert((2 * e) * k == 2 * (e * k)) by (nonlinear_arith); assert(e * k == h * q); lemma_mod_multiples_basic(q, h); assert(q * h == h * q) by (nonlinear_arith);
    odd_cancel(e, k, (m - 1) as nat); let f = e / h; lemma_fundamental_div_mod(e, h); assert(2 * (h * f) == f * (2 * h)) by (nonlinear_arith); lemma_mod_multiples_basic(f, 2 * h); } }
/// multiplication by an odd number permutes the exponents modulo a power of two
proof fn inj(i: int, j: int, k: int, n: int) requires ispow2(n), k % 2 == 1, 0 <= i < n, 0 <= j < n, (i * k) % n == (j * k) % n ensures i == j
{ let m = choose|m: nat| #[trigger] pow2(m) == n; lemma_fundamental_div_mod(i * k, n); lemma_fundamental_div_mod(j * k, n); let (a, b) = ((i * k) / n, (j * k) / n);
  assert((i - j) * k == i * k - j * k) by (nonlinear_arith); assert(n * a - n * b == (a - b) * n) by (nonlinear_arith); lemma_mod_multiples_basic(a - b, n); odd_cancel(i - j, k, m);
  if i != j { let d = if i > j { i - j } else { j - i }; lemma_small_mod(d as nat, n as nat); if i < j { let f = (i - j) / n; lemma_fundamental_div_mod(i - j, n); assert(f <= -1 ==> n * f <= -n) by (nonlinear_arith) requires n > 0; assert(f >= 0 ==> n * f >= 0) by (nonlinear_arith) requires n > 0; } } }
/// coefficient i of P lands on exponent i*k of X, reduced with X^N = -1
pub open spec fn pow_term(p: Seq<Torus<WORD>>, i: int, k: int) -> WORD { wsgn(((i * k) / (p.len() as int)) % 2 == 1, p[i].0) }
//@fn sunscreen_tfhe/src/ops/polynomial/mod.rs :: polynomial_pow_k
//@sig fn polynomial_pow_k(p_k: &mut TP, p: &TP, k: usize)
//@sub "T::one()" => "(1 as WORD)"
//@sub "T::zero()" => "(0 as WORD)"
//@byref
    requires k % 2 == 1, old(p_k).data@.len() == p.data@.len(), ispow2(p.data@.len() as int), p.data@.len() * k <= usize::MAX
    ensures final(p_k).data@.len() == p.data@.len(), forall|i: int| 0 <= i < p.data@.len() ==> (#[trigger] final(p_k).data@[(i * k) % (p.data@.len() as int)]).0 == pow_term(p.data@, i, k as int)
//@at loop 0
    invariant k % 2 == 1, degree == p.data@.len(), p_k.data@.len() == degree, ispow2(degree as int), degree * k <= usize::MAX, __hi0_1 == degree, one == 1, minus_one == wneg(1),
        forall|t: int| 0 <= t < __i0 ==> (#[trigger] p_k.data@[(t * k) % (degree as int)]).0 == pow_term(p.data@, t, k as int)
    decreases __hi0_1 - __i0
//@at start 0
    let ghost q0 = p_k.data@;
    proof { assert(i * k <= degree * k) by (nonlinear_arith) requires i < degree; md_mul(p.data@[i as int].0 as int, -1); md_neg(1); md_neg(p.data@[i as int].0 as int); md_id(p.data@[i as int].0);
        assert(p.data@[i as int].0 * 1 == p.data@[i as int].0); assert(p.data@[i as int].0 * -1 == -p.data@[i as int].0); }
//@at end 0
    proof { assert forall|t: int| 0 <= t < __i0 implies (#[trigger] p_k.data@[(t * k) % (degree as int)]).0 == pow_term(p.data@, t, k as int) by { if t != i { lemma_mod_bound(t * k, degree as int); if (t * k) % (degree as int) == (i * k) % (degree as int) { inj(t, i as int, k as int, degree as int); } assert(p_k.data@[(t * k) % (degree as int)] == q0[(t * k) % (degree as int)]); } } }
//@end
/// the same on plain words (binary secret keys)
pub open spec fn pow_term_w(p: Seq<WORD>, i: int, k: int) -> WORD { wsgn(((i * k) / (p.len() as int)) % 2 == 1, p[i]) }
//@fn sunscreen_tfhe/src/ops/polynomial/mod.rs :: polynomial_pow_k
//@sig fn polynomial_pow_k_word(p_k: &mut PolynomialRef<WORD>, p: &PolynomialRef<WORD>, k: usize)
//@sub "T::one()" => "(1 as WORD)"
//@sub "T::zero()" => "(0 as WORD)"
//@byref
    requires k % 2 == 1, old(p_k).data@.len() == p.data@.len(), ispow2(p.data@.len() as int), p.data@.len() * k <= usize::MAX, forall|i: int| 0 <= i < p.data@.len() ==> #[trigger] p.data@[i] <= 1
    ensures final(p_k).data@.len() == p.data@.len(), forall|i: int| 0 <= i < p.data@.len() ==> #[trigger] final(p_k).data@[(i * k) % (p.data@.len() as int)] == pow_term_w(p.data@, i, k as int)
//@at loop 0
    invariant k % 2 == 1, degree == p.data@.len(), p_k.data@.len() == degree, ispow2(degree as int), degree * k <= usize::MAX, __hi0_1 == degree, one == 1, minus_one == wneg(1), forall|i: int| 0 <= i < p.data@.len() ==> #[trigger] p.data@[i] <= 1,
        forall|t: int| 0 <= t < __i0 ==> #[trigger] p_k.data@[(t * k) % (degree as int)] == pow_term_w(p.data@, t, k as int)
    decreases __hi0_1 - __i0
//@at start 0
    let ghost q0 = p_k.data@;
    proof { assert(i * k <= degree * k) by (nonlinear_arith) requires i < degree; let x = p.data@[i as int]; assert(x == 0 || x == 1); assert(0 * minus_one == 0); assert(1 * minus_one == minus_one); assert(x * 1 == x); }
//@at end 0
    proof { assert forall|t: int| 0 <= t < __i0 implies #[trigger] p_k.data@[(t * k) % (degree as int)] == pow_term_w(p.data@, t, k as int) by { if t != i { lemma_mod_bound(t * k, degree as int); if (t * k) % (degree as int) == (i * k) % (degree as int) { inj(t, i as int, k as int, degree as int); } assert(p_k.data@[(t * k) % (degree as int)] == q0[(t * k) % (degree as int)]); } } }
//@end
// std::num::Wrapping
#[derive(Copy, Clone)] pub struct Wrapping<T>(pub T);
impl core::ops::Add<Wrapping<WORD>> for Wrapping<WORD> { type Output = Wrapping<WORD>; fn add(self, rhs: Wrapping<WORD>) -> Wrapping<WORD> { Wrapping(self.0.wrapping_add(rhs.0)) } }
impl vstd::std_specs::ops::AddSpecImpl<Wrapping<WORD>> for Wrapping<WORD> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: Wrapping<WORD>) -> bool { true } open spec fn add_spec(self, rhs: Wrapping<WORD>) -> Wrapping<WORD> { Wrapping(wadd(self.0, rhs.0)) } }
impl core::ops::Sub<Wrapping<WORD>> for Wrapping<WORD> { type Output = Wrapping<WORD>; fn sub(self, rhs: Wrapping<WORD>) -> Wrapping<WORD> { Wrapping(self.0.wrapping_sub(rhs.0)) } }
impl vstd::std_specs::ops::SubSpecImpl<Wrapping<WORD>> for Wrapping<WORD> { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: Wrapping<WORD>) -> bool { true } open spec fn sub_spec(self, rhs: Wrapping<WORD>) -> Wrapping<WORD> { Wrapping(wsub(self.0, rhs.0)) } }
impl core::ops::Mul<Wrapping<WORD>> for Wrapping<WORD> { type Output = Wrapping<WORD>; fn mul(self, rhs: Wrapping<WORD>) -> Wrapping<WORD> { Wrapping(self.0.wrapping_mul(rhs.0)) } }
impl vstd::std_specs::ops::MulSpecImpl<Wrapping<WORD>> for Wrapping<WORD> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: Wrapping<WORD>) -> bool { true } open spec fn mul_spec(self, rhs: Wrapping<WORD>) -> Wrapping<WORD> { Wrapping(wmul(self.0, rhs.0)) } }
pub open spec fn wt(a: Seq<Wrapping<WORD>>) -> Seq<Torus<WORD>> { Seq::new(a.len(), |i: int| Torus(a[i].0)) }
pub open spec fn ww(a: Seq<Wrapping<WORD>>) -> Seq<WORD> { Seq::new(a.len(), |i: int| a[i].0) }
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_mad_impl
//@sig fn polynomial_mad_impl_w(c: &mut PolynomialRef<Wrapping<WORD>>, a: &PolynomialRef<Wrapping<WORD>>, b: &PolynomialRef<Wrapping<WORD>>)
//@sub "let mut poly_f64 = allocate_scratch::<f64>(a.len());" => "" optional
//@sub "let poly_f64_ref = PolynomialRef::from_mut_slice(poly_f64.as_mut_slice());" => "" optional
//@sub "a.map_into(poly_f64_ref, |x| x.to_f64());" => "" optional
    requires ispow2(a.data@.len() as int), a.data@.len() == b.data@.len(), old(c).data@.len() == a.data@.len(), 2 * a.data@.len() <= usize::MAX
    ensures final(c).data@.len() == old(c).data@.len(), forall|k: int| 0 <= k < a.data@.len() ==> (#[trigger] final(c).data@[k]).0 == md(old(c).data@[k].0 + conv(wt(a.data@), ww(b.data@), k))
//@at start
    let ghost c0 = c.data@; let ghost n = a.data@.len() as int; let ghost (pa, pb) = (wt(a.data@), ww(b.data@));
    proof { let m = choose|m: nat| #[trigger] vstd::arithmetic::power2::pow2(m) == n; vstd::arithmetic::power2::lemma_pow2_pos(m); }
//@at loop 0
    invariant n == len, __n0 == n, wt(__s0_0@) == pa, __s0_0@.len() == n, ww(b.data@) == pb, b.data@.len() == n, pa.len() == n, pb.len() == n, ispow2(n), mask == n - 1, 2 * n <= usize::MAX, coeffs@.len() == n, c0.len() == n, __i0 <= n,
        forall|k: int| 0 <= k < n ==> (#[trigger] coeffs@[k]).0 == md(c0[k].0 + cs(pa, pb, k, __i0 as int))
    decreases n - __i0
//@at loop 1
    invariant n == len, __n1 == n, ww(__s1_0@) == pb, __s1_0@.len() == n, pa.len() == n, pb.len() == n, ispow2(n), mask == n - 1, 2 * n <= usize::MAX, coeffs@.len() == n, c0.len() == n, i < n, l.0 == pa[i as int].0, __i1 <= n,
        forall|k: int| 0 <= k < n ==> (#[trigger] coeffs@[k]).0 == md(c0[k].0 + cs(pa, pb, k, i as int) + if slot(k, i as int, n) < __i1 { l.0 * eb(pb, k - i) } else { 0 })
    decreases n - __i1
//@at start 1
    proof { if i + j >= n { mask_mod((i + j) as usize, n as usize); } let k = if i + j >= n { i + j - n } else { i + j }; mad_step(c0[k].0 + cs(pa, pb, k, i as int), l.0, r.0);
       assert forall|q: int| 0 <= q < n && slot(q, i as int, n) == j implies q == k by {} }
//@end
// PolynomialRef::as_wrapping / as_wrapping_mut: bytemuck casts of the coefficient slice (repr(transparent))
#[verifier::external_body] pub fn w_cast(c: &PolynomialRef<WORD>) -> (r: &PolynomialRef<Wrapping<WORD>>) ensures ww(r.data@) == c.data@ { unsafe { core::mem::transmute(c) } }
#[verifier::external_body] pub fn w_cast_mut(c: &mut PolynomialRef<WORD>) -> (r: &mut PolynomialRef<Wrapping<WORD>>) ensures ww(r.data@) == old(c).data@, final(c).data@ == ww(final(r).data@) { unsafe { core::mem::transmute(c) } }
pub open spec fn tt(a: Seq<WORD>) -> Seq<Torus<WORD>> { Seq::new(a.len(), |i: int| Torus(a[i])) }
pub open spec fn w_of(a: Seq<WORD>) -> Seq<Wrapping<WORD>> { Seq::new(a.len(), |i: int| Wrapping(a[i])) }
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_mad_by_wrap
//@sig fn polynomial_mad_by_wrap(c: &mut PolynomialRef<WORD>, a: &PolynomialRef<WORD>, b: &PolynomialRef<WORD>)
//@sub "polynomial_mad_impl(c.as_wrapping_mut(), a.as_wrapping(), b.as_wrapping())" => "polynomial_mad_impl_w(w_cast_mut(c), w_cast(a), w_cast(b))"
    requires ispow2(a.data@.len() as int), a.data@.len() == b.data@.len(), old(c).data@.len() == a.data@.len(), 2 * a.data@.len() <= usize::MAX
    ensures final(c).data@.len() == old(c).data@.len(), forall|k: int| 0 <= k < a.data@.len() ==> #[trigger] final(c).data@[k] == md(old(c).data@[k] + conv(tt(a.data@), b.data@, k))
//@at start
    proof { assert(wt(w_of(a.data@)) =~= tt(a.data@)); assert forall|x: Seq<Wrapping<WORD>>| ww(x) == a.data@ implies #[trigger] wt(x) == tt(a.data@) by { assert forall|i: int| 0 <= i < x.len() implies x[i].0 == a.data@[i] by { assert(ww(x)[i] == x[i].0); } assert(ww(x).len() == x.len()); assert(wt(x) =~= tt(a.data@)); } }
//@end
} // verus!
fn main() {}
