//@include ../prelude/base.rs
//@include ../prelude/absring.rs
//@generic R T
//@all "R::zero()" => "Rg::zero()"
//@all "R::one()" => "Rg::one()"
//@all "T::zero()" => "Rg::zero()"
//@all "T::one()" => "Rg::one()"
//@all "Self::Output {" => "Polynomial {"
//@all "Self::Output::zero()" => "Polynomial::zero()"
//@all "Polynomial < T >" => "Polynomial"
verus! {
pub struct Polynomial { pub coeffs: Vec<Rg> }
impl Clone for Polynomial { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.coeffs@ == self.coeffs@ { unimplemented!() } }
/// coefficient i of the polynomial with these stored coefficients
pub open spec fn co(c: Seq<Rg>, i: int) -> Rg { if 0 <= i < c.len() { c[i] } else { r0() } }
pub open spec fn all0(c: Seq<Rg>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == r0() }
/// d is the degree
pub open spec fn deg(c: Seq<Rg>, d: int) -> bool { 0 <= d < c.len() && c[d] != r0() && forall|i: int| d < i < c.len() ==> #[trigger] c[i] == r0() }
/// sum over i < k of a[i] b[h-i]
pub open spec fn cv(a: Seq<Rg>, b: Seq<Rg>, h: int, k: int) -> Rg decreases k { if k <= 0 { r0() } else if 0 <= h - (k - 1) < b.len() { radd(rmul(a[k - 1], b[h - (k - 1)]), cv(a, b, h, k - 1)) } else { cv(a, b, h, k - 1) } }
pub open spec fn rpow(x: Rg, k: int) -> Rg decreases k { if k <= 0 { r1() } else { rmul(rpow(x, k - 1), x) } }
/// sum over i < k of c[i] x^i
pub open spec fn ev(c: Seq<Rg>, x: Rg, k: int) -> Rg decreases k { if k <= 0 { r0() } else { radd(ev(c, x, k - 1), rmul(co(c, k - 1), rpow(x, k - 1))) } }
pub proof fn deg_unique(c: Seq<Rg>, d: int, e: int) requires deg(c, d), deg(c, e) ensures d == e { if d < e { assert(c[e] == r0()); } else if e < d { assert(c[d] == r0()); } }
pub proof fn cv_empty(a: Seq<Rg>, b: Seq<Rg>, h: int, k: int) requires k <= 0 || b.len() == 0 ensures cv(a, b, h, k) == r0() decreases k { if k > 0 { cv_empty(a, b, h, k - 1); } }
pub proof fn cv_zero(a: Seq<Rg>, b: Seq<Rg>, h: int, k: int) requires k <= a.len(), forall|i: int| 0 <= i < k ==> #[trigger] a[i] == r0() ensures cv(a, b, h, k) == r0() decreases k { if k > 0 { cv_zero(a, b, h, k - 1); if 0 <= h - (k - 1) < b.len() { mul_zero(b[h - (k - 1)]); ax_add(r0(), r0(), r0()); } } }
pub proof fn cv_far(a: Seq<Rg>, b: Seq<Rg>, h: int, k: int) requires h >= k + b.len() - 1 ensures cv(a, b, h, k) == r0() decreases k { if k > 0 { cv_far(a, b, h, k - 1); } }
pub proof fn cv_upd(q: Seq<Rg>, b: Seq<Rg>, h: int, k: int, s: int, v: Rg)
    requires 0 <= s < q.len(), k <= q.len(), q[s] == r0()
    ensures cv(q.update(s, v), b, h, k) == (if s < k && 0 <= h - s < b.len() { radd(cv(q, b, h, k), rmul(v, b[h - s])) } else { cv(q, b, h, k) })
    decreases k
{
    if k > 0 {
        cv_upd(q, b, h, k - 1, s, v);
        let c0 = cv(q, b, h, k - 1); let j = h - (k - 1);
        if 0 <= j < b.len() {
            if s == k - 1 { mul_zero(b[j]); ax_add(c0, r0(), r0()); ax_add(r0(), c0, c0); ax_add(rmul(v, b[j]), c0, c0); }
            else if s < k - 1 && 0 <= h - s < b.len() { ax_add(rmul(q[k - 1], b[j]), c0, rmul(v, b[h - s])); }
        }
    }
}
// ---- evaluation is a ring homomorphism; the value does not depend on trailing zeros -----------------
pub proof fn ev_ext(a: Seq<Rg>, c: Seq<Rg>, x: Rg, k: int) requires forall|i: int| 0 <= i < k ==> #[trigger] co(a, i) == co(c, i) ensures ev(a, x, k) == ev(c, x, k) decreases k { if k > 0 { ev_ext(a, c, x, k - 1); assert(co(a, k - 1) == co(c, k - 1)); } }
pub proof fn ev_more(a: Seq<Rg>, x: Rg, k: int) requires k >= a.len() ensures ev(a, x, k) == ev(a, x, a.len() as int) decreases k { if k > a.len() { ev_more(a, x, k - 1); mul_zero(rpow(x, k - 1)); ax_add(ev(a, x, k - 1), r0(), r0()); } }
pub proof fn ev_add(a: Seq<Rg>, b: Seq<Rg>, c: Seq<Rg>, x: Rg, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] co(c, i) == radd(co(a, i), co(b, i))
    ensures ev(c, x, k) == radd(ev(a, x, k), ev(b, x, k)) decreases k
{
    if k > 0 {
        ev_add(a, b, c, x, k - 1); let p = rpow(x, k - 1); let (u, v) = (co(a, k - 1), co(b, k - 1)); assert(co(c, k - 1) == radd(u, v));
        ax_mul(p, u, v); ax_mul(p, u, u); ax_mul(p, v, v); ax_mul(radd(u, v), p, p); ax_mul(u, p, p); ax_mul(v, p, p);
        swap(ev(a, x, k - 1), ev(b, x, k - 1), rmul(u, p), rmul(v, p));
    } else { ax_add(r0(), r0(), r0()); }
}
pub proof fn pow_add(x: Rg, m: int, n: int) requires m >= 0, n >= 0 ensures rpow(x, m + n) == rmul(rpow(x, m), rpow(x, n)) decreases n
{ if n > 0 { pow_add(x, m, n - 1); ax_mul(rpow(x, m), rpow(x, n - 1), x); } else { ax_mul(rpow(x, m), r1(), r1()); } }
/// row k of the product: a_k b shifted up by k
pub open spec fn row(v: Rg, b: Seq<Rg>, k: int, n: int) -> Seq<Rg> { Seq::new(n as nat, |h: int| if 0 <= h - k < b.len() { rmul(v, b[h - k]) } else { r0() }) }
pub open spec fn part(a: Seq<Rg>, b: Seq<Rg>, k: int, n: int) -> Seq<Rg> { Seq::new(n as nat, |h: int| cv(a, b, h, k)) }
pub proof fn ev_row(v: Rg, b: Seq<Rg>, k: int, n: int, x: Rg, m: int)
    requires 0 <= k, 0 <= m <= n
    ensures ev(row(v, b, k, n), x, m) == rmul(rmul(v, rpow(x, k)), ev(b, x, m - k)) decreases m
{
    let w = rmul(v, rpow(x, k));
    if m <= 0 { mul_zero(w); }
    else {
        ev_row(v, b, k, n, x, m - 1);
        let r = row(v, b, k, n); let c = co(r, m - 1); let p = rpow(x, m - 1);
        if m - 1 < k { assert(c == r0()); mul_zero(p); mul_zero(w); ax_add(r0(), r0(), r0()); }
        else {
            let h = m - 1 - k; let t = co(b, h); let ph = rpow(x, h); let pk = rpow(x, k);
            pow_add(x, k, h);
            ax_mul(w, ev(b, x, h), rmul(t, ph));
            // c p == w (t ph)
            if h < b.len() { assert(c == rmul(v, t)); } else { mul_zero(v); assert(t == r0() && c == r0()); }
            assert(c == rmul(v, t));
            ax_mul(v, t, rmul(pk, ph)); ax_mul(t, pk, ph); ax_mul(t, pk, pk); ax_mul(pk, t, ph); ax_mul(v, pk, rmul(t, ph));
        }
    }
}
pub proof fn ev_part(a: Seq<Rg>, b: Seq<Rg>, k: int, n: int, x: Rg)
    requires 0 <= k <= a.len(), n >= a.len() + b.len() - 1, n >= a.len(), a.len() > 0
    ensures ev(part(a, b, k, n), x, n) == rmul(ev(a, x, k), ev(b, x, b.len() as int)) decreases k
{
    let eb = ev(b, x, b.len() as int);
    if k == 0 { mul_zero(eb); ev_ext(part(a, b, 0, n), Seq::empty(), x, n); ev_more(Seq::empty(), x, n); }
    else {
        ev_part(a, b, k - 1, n, x);
        let (p0, p1, rw) = (part(a, b, k - 1, n), part(a, b, k, n), row(a[k - 1], b, k - 1, n));
        assert forall|h: int| 0 <= h < n implies #[trigger] co(p1, h) == radd(co(p0, h), co(rw, h)) by {
            let c0 = cv(a, b, h, k - 1); ax_add(c0, rw[h], r0()); ax_add(c0, r0(), r0());
        }
        ev_add(p0, rw, p1, x, n);
        ev_row(a[k - 1], b, k - 1, n, x, n);
        ev_more(b, x, n - (k - 1));
        let (e0, t) = (ev(a, x, k - 1), rmul(a[k - 1], rpow(x, k - 1)));
        ax_mul(eb, e0, t); ax_mul(eb, radd(e0, t), t); ax_mul(eb, e0, e0); ax_mul(eb, t, t);
        ax_mul(radd(e0, t), eb, eb); ax_mul(e0, eb, eb); ax_mul(t, eb, eb);
    }
}
/// what `add` and `mul` return evaluates to the sum and the product of the values
pub proof fn eval_hom(a: Polynomial, b: Polynomial, s: Polynomial, p: Polynomial, x: Rg)
    requires s.c().len() == (if a.c().len() >= b.c().len() { a.c().len() } else { b.c().len() }), forall|i: int| 0 <= i < s.c().len() ==> #[trigger] s.c()[i] == radd(co(a.c(), i), co(b.c(), i)),
        forall|h: int| 0 <= h ==> #[trigger] co(p.c(), h) == cv(a.c(), b.c(), h, a.c().len() as int)
    ensures ev(s.c(), x, s.c().len() as int) == radd(ev(a.c(), x, a.c().len() as int), ev(b.c(), x, b.c().len() as int)),
        ev(p.c(), x, p.c().len() as int) == rmul(ev(a.c(), x, a.c().len() as int), ev(b.c(), x, b.c().len() as int))
{
    let (a, b, s, p) = (a.c(), b.c(), s.c(), p.c());
    let (la, lb, ls, lp) = (a.len() as int, b.len() as int, s.len() as int, p.len() as int);
    assert forall|i: int| 0 <= i < ls implies #[trigger] co(s, i) == radd(co(a, i), co(b, i)) by { assert(s[i] == radd(co(a, i), co(b, i))); }
    ev_add(a, b, s, x, ls); ev_more(a, x, ls); ev_more(b, x, ls);
    let n = la + lb + lp;
    if la > 0 { ev_part(a, b, la, n, x); assert forall|i: int| 0 <= i < n implies #[trigger] co(p, i) == co(part(a, b, la, n), i) by { assert(co(p, i) == cv(a, b, i, la)); } ev_ext(p, part(a, b, la, n), x, n); }
    else { mul_zero(ev(b, x, lb)); assert forall|i: int| 0 <= i < n implies #[trigger] co(p, i) == co(Seq::<Rg>::empty(), i) by { assert(co(p, i) == cv(a, b, i, la)); } ev_ext(p, Seq::empty(), x, n); ev_more(Seq::empty(), x, n); }
    ev_more(p, x, n);
}
/// what division returns: value of self = value(q) value(rhs) + value(rem)
pub proof fn eval_div(a: Seq<Rg>, b: Seq<Rg>, q: Seq<Rg>, r: Seq<Rg>, x: Rg)
    requires forall|h: int| 0 <= h ==> #[trigger] co(a, h) == radd(cv(q, b, h, q.len() as int), co(r, h))
    ensures ev(a, x, a.len() as int) == radd(rmul(ev(q, x, q.len() as int), ev(b, x, b.len() as int)), ev(r, x, r.len() as int))
{
    let n = (a.len() + b.len() + q.len() + r.len()) as int; let lq = q.len() as int;
    let p = part(q, b, lq, n);
    assert forall|h: int| 0 <= h < n implies #[trigger] co(a, h) == radd(co(p, h), co(r, h)) by { }
    ev_add(p, r, a, x, n); ev_more(a, x, n); ev_more(r, x, n);
    if lq > 0 { ev_part(q, b, lq, n, x); } else { mul_zero(ev(b, x, b.len() as int)); ev_ext(p, Seq::empty(), x, n); ev_more(Seq::empty(), x, n); }
}
impl Polynomial {
    pub open spec fn c(&self) -> Seq<Rg> { self.coeffs@ }
//@fn sunscreen_math/src/poly/mod.rs :: <Zero for Polynomial>::zero
//@sig pub fn zero() -> (ret: Polynomial)
    ensures ret.c().len() == 0
//@end
//@fn sunscreen_math/src/poly/mod.rs :: <One for Polynomial>::one
//@sig pub fn one() -> (ret: Polynomial)
    ensures co(ret.c(), 0) == r1(), forall|i: int| i != 0 ==> #[trigger] co(ret.c(), i) == r0()
//@end
//@fn sunscreen_math/src/poly/mod.rs :: <Zero for Polynomial>::vartime_is_zero
//@sig pub fn vartime_is_zero(&self) -> (ret: bool)
    ensures ret == all0(self.c())
//@at loop 0
    invariant __s0_0@ == self.c(), __n0 == self.c().len(), __i0 <= __n0, __a0 == (forall|i: int| 0 <= i < __i0 ==> #[trigger] self.c()[i] == r0())
    decreases __n0 - __i0
//@end
//@fn sunscreen_math/src/poly/mod.rs :: Polynomial::evaluate
//@sig fn evaluate(&self, x: &Rg) -> (ret: Rg)
    ensures ret == ev(self.c(), *x, self.c().len() as int)
//@at loop 0
    invariant __s0_0@ == self.c(), __n0 == self.c().len(), __i0 <= __n0, eval == ev(self.c(), *x, __i0 as int), cur_pow == rpow(*x, __i0 as int)
    decreases __n0 - __i0
//@end
//@fn sunscreen_math/src/poly/mod.rs :: Polynomial::vartime_degree
    requires !all0(self.c())
    ensures deg(self.c(), ret as int), ret < usize::MAX
//@at loop 0
    invariant !all0(self.c()), __s0_0@ == self.c(), __n0 == self.c().len(), __i0 <= __n0, forall|i: int| __n0 - __i0 <= i < __n0 ==> #[trigger] self.c()[i] == r0()
    decreases __n0 - __i0
//@end
//@fn sunscreen_math/src/poly/mod.rs :: <PartialEq for Polynomial>::eq
//@sig pub fn eq(&self, other: &Polynomial) -> (ret: bool)
    ensures ret == (forall|i: int| #[trigger] co(self.c(), i) == co(other.c(), i))
//@at start
    let ghost (a, b) = (self.c(), other.c());
    proof {
        if all0(a) { assert forall|i: int| #[trigger] co(a, i) == r0() by { } if !all0(b) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] != r0(); assert(co(b, i) != co(a, i)); } }
        if all0(b) { assert forall|i: int| #[trigger] co(b, i) == r0() by { } if !all0(a) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] != r0(); assert(co(b, i) != co(a, i)); } }
        assert forall|d: int, e: int| deg(a, d) && deg(b, e) && (forall|i: int| #[trigger] co(a, i) == co(b, i)) implies d == e by { assert(co(a, d) == co(b, d) && co(a, e) == co(b, e)); }
    }
//@at loop 0
    invariant a == self.c(), b == other.c(), deg(a, lhs_degree as int), deg(b, lhs_degree as int), __hi0_1 == lhs_degree + 1, 0 <= __i0 <= __hi0_1, forall|i: int| 0 <= i < __i0 ==> #[trigger] a[i] == b[i]
    decreases __hi0_1 - __i0
//@at start 0
    proof { assert(co(a, i as int) == a[i as int] && co(b, i as int) == b[i as int]); }
//@at end
    proof { assert forall|i: int| #[trigger] co(a, i) == co(b, i) by { if 0 <= i <= lhs_degree { assert(a[i] == b[i]); } } }
//@end
//@fn sunscreen_math/src/poly/mod.rs :: <Add<&Polynomial<T>> for &Polynomial<T>>::add
//@sig pub fn add(&self, rhs: &Polynomial) -> (ret: Polynomial)
    ensures ret.c().len() == (if self.c().len() >= rhs.c().len() { self.c().len() } else { rhs.c().len() }), forall|i: int| 0 <= i < ret.c().len() ==> #[trigger] ret.c()[i] == radd(co(self.c(), i), co(rhs.c(), i))
//@at loop 0
    invariant __lo0_0 == 0, __hi0_1 == (if self.c().len() >= rhs.c().len() { self.c().len() } else { rhs.c().len() }), 0 <= __i0 <= __hi0_1, out_coeffs@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] out_coeffs@[i] == radd(co(self.c(), i), co(rhs.c(), i))
    decreases __hi0_1 - __i0
//@end
//@fn sunscreen_math/src/poly/mod.rs :: <Sub<&Polynomial<T>> for &Polynomial<T>>::sub
//@sig pub fn sub(&self, rhs: &Polynomial) -> (ret: Polynomial)
    ensures ret.c().len() == (if self.c().len() >= rhs.c().len() { self.c().len() } else { rhs.c().len() }), forall|i: int| 0 <= i < ret.c().len() ==> #[trigger] ret.c()[i] == rsub(co(self.c(), i), co(rhs.c(), i))
//@at loop 0
    invariant __lo0_0 == 0, __hi0_1 == (if self.c().len() >= rhs.c().len() { self.c().len() } else { rhs.c().len() }), 0 <= __i0 <= __hi0_1, out_coeffs@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] out_coeffs@[i] == rsub(co(self.c(), i), co(rhs.c(), i))
    decreases __hi0_1 - __i0
//@end
//@fn sunscreen_math/src/poly/mod.rs :: <Mul<&Polynomial<T>> for &Polynomial<T>>::mul
//@sig pub fn mul(&self, rhs: &Polynomial) -> (ret: Polynomial)
    requires self.c().len() + rhs.c().len() <= usize::MAX
    ensures forall|h: int| 0 <= h ==> #[trigger] co(ret.c(), h) == cv(self.c(), rhs.c(), h, self.c().len() as int), self.c().len() > 0 && rhs.c().len() > 0 ==> ret.c().len() == self.c().len() + rhs.c().len() - 1
//@at start
    let ghost (a, b) = (self.c(), rhs.c());
    let ghost (la, lb) = (a.len() as int, b.len() as int);
    proof {
        if la == 0 || lb == 0 { assert forall|h: int| 0 <= h implies #[trigger] cv(a, b, h, la) == r0() by { cv_empty(a, b, h, la); } }
    }
//@at loop 0
    invariant a == self.c(), b == rhs.c(), la == a.len(), lb == b.len(), la > 0, lb > 0, la + lb <= usize::MAX, __lo0_0 == 0, __hi0_1 == la, 0 <= __i0 <= __hi0_1, out_coeffs@.len() == la + lb - 1, forall|h: int| 0 <= h < la + lb - 1 ==> #[trigger] out_coeffs@[h] == cv(a, b, h, __i0 as int)
    decreases __hi0_1 - __i0
//@at start 0
    let ghost i0 = __i0 - 1;
//@at loop 1
    invariant a == self.c(), b == rhs.c(), la == a.len(), lb == b.len(), la > 0, lb > 0, la + lb <= usize::MAX, __i0 == i0 + 1, i == i0, 0 <= i0 < la, __lo1_0 == 0, __hi1_1 == lb, 0 <= __i1 <= __hi1_1, out_coeffs@.len() == la + lb - 1, forall|h: int| 0 <= h < la + lb - 1 ==> #[trigger] out_coeffs@[h] == (if i0 <= h < i0 + __i1 { radd(rmul(a[i0], b[h - i0]), cv(a, b, h, i0)) } else { cv(a, b, h, i0) })
    decreases __hi1_1 - __i1
//@at end
    proof { assert forall|h: int| 0 <= h implies #[trigger] co(out_coeffs@, h) == cv(a, b, h, la) by { if h >= la + lb - 1 { cv_far(a, b, h, la); } } }
//@end
//@fn sunscreen_math/src/poly/mod.rs :: <Mul<&T> for &Polynomial<T>>::mul
//@rename mul_scalar
//@sig pub fn mul_scalar(&self, rhs: &Rg) -> (ret: Polynomial)
    ensures ret.c().len() == self.c().len(), forall|i: int| 0 <= i < self.c().len() ==> #[trigger] ret.c()[i] == rmul(self.c()[i], *rhs)
//@at loop 0
    invariant __s0_0@ == self.c(), __n0 == self.c().len(), __i0 <= __n0, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == rmul(self.c()[i], *rhs)
    decreases __n0 - __i0
//@end
//@fn sunscreen_math/src/poly/mod.rs :: <Neg for Polynomial<T>>::neg
//@sub "-x.clone()" => "x.clone().neg_()"
//@sig pub fn neg(self) -> (ret: Polynomial)
    ensures ret.c().len() == self.c().len(), forall|i: int| 0 <= i < self.c().len() ==> #[trigger] ret.c()[i] == rneg(self.c()[i])
//@at loop 0
    invariant __s0_0@ == self.c(), __n0 == self.c().len(), __i0 <= __n0, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == rneg(self.c()[i])
    decreases __n0 - __i0
//@end
//@fn sunscreen_math/src/poly/mod.rs :: Polynomial::vartime_div_rem_restricted_rhs
//@sig fn vartime_div_rem_restricted_rhs(&self, rhs: &Polynomial) -> (ret: (Polynomial, Polynomial))
    requires exists|d: int| deg(rhs.c(), d) && rhs.c()[d] == r1()
    ensures forall|h: int| 0 <= h ==> #[trigger] co(self.c(), h) == radd(cv(ret.0.c(), rhs.c(), h, ret.0.c().len() as int), co(ret.1.c(), h)),
        forall|d: int, h: int| #[trigger] deg(rhs.c(), d) && h >= d ==> #[trigger] co(ret.1.c(), h) == r0()
//@at start
    let ghost (a, b) = (self.c(), rhs.c());
    proof {
        let d = choose|d: int| deg(b, d) && b[d] == r1();
        assert(!all0(b));
        assert forall|e: int| #[trigger] deg(b, e) implies e == d by { deg_unique(b, d, e); }
        assert forall|q: Seq<Rg>, h: int| q.len() == 0 implies #[trigger] cv(q, b, h, 0) == r0() by { }
        assert forall|z: Rg| #[trigger] radd(r0(), z) == z by { ax_add(z, r0(), z); ax_add(r0(), z, z); }
        if !all0(a) {
            let e = choose|e: int| deg(a, e);
        } else { assert forall|h: int| #[trigger] co(a, h) == r0() by { } }
    }
//@at before 0
    proof { assert forall|h: int| 0 <= h implies #[trigger] co(a, h) == radd(cv(q.c(), b, h, iter_count as int), co(rem.c(), h)) by { cv_zero(q.c(), b, h, iter_count as int); } }
//@at loop 0
    invariant a == self.c(), b == rhs.c(), rhs_degree < usize::MAX, deg(a, lhs_degree as int), deg(b, rhs_degree as int), b[rhs_degree as int] == r1(), rhs_degree <= lhs_degree, iter_count == lhs_degree - rhs_degree + 1,
        __lo0_0 == 0, __hi0_1 == iter_count, 0 <= __i0 <= __hi0_1, q.c().len() == iter_count, rem.c().len() == a.len(),
        forall|h: int| 0 <= h < iter_count - __i0 ==> #[trigger] q.c()[h] == r0(),
        forall|h: int| 0 <= h ==> #[trigger] co(a, h) == radd(cv(q.c(), b, h, iter_count as int), co(rem.c(), h)),
        forall|h: int| lhs_degree - __i0 < h < a.len() ==> #[trigger] rem.c()[h] == r0()
    decreases __hi0_1 - __i0
//@at start 0
    let ghost (r1_, q1, s) = (rem.c(), q.c(), iter_count - __i0);
//@at loop 1
    invariant a == self.c(), b == rhs.c(), rhs_degree < usize::MAX, deg(a, lhs_degree as int), deg(b, rhs_degree as int), rhs_degree <= lhs_degree, iter_count == lhs_degree - rhs_degree + 1, i == __i0 - 1, 0 <= i < iter_count, s == iter_count - __i0,
        __lo1_0 == 0, __hi1_1 == rhs_degree + 1, 0 <= __i1 <= __hi1_1, q.c() == q1, r1_.len() == a.len(), rem.c().len() == a.len(), scale == r1_[lhs_degree - i],
        forall|h: int| 0 <= h < a.len() ==> #[trigger] rem.c()[h] == (if lhs_degree - i - __i1 < h <= lhs_degree - i { rsub(r1_[h], rmul(b[h - s], scale)) } else { r1_[h] })
    decreases __hi1_1 - __i1
//@at end 0
    proof {
        let n = iter_count as int;
        assert(q.c() =~= q1.update(s, scale));
        assert forall|h: int| 0 <= h implies #[trigger] co(a, h) == radd(cv(q.c(), b, h, n), co(rem.c(), h)) by {
            cv_upd(q1, b, h, n, s, scale);
            let c0 = cv(q1, b, h, n);
            assert(co(a, h) == radd(c0, co(r1_, h)));
            if 0 <= h - s < b.len() {
                let t = rmul(scale, b[h - s]);
                ax_mul(scale, b[h - s], b[h - s]);
                if h - s <= rhs_degree { sub_add(r1_[h], t); ax_add(t, c0, rem.c()[h]); ax_add(c0, t, rem.c()[h]); assert(co(r1_, h) == radd(t, co(rem.c(), h))); }
                else { assert(b[h - s] == r0()); mul_zero(scale); ax_add(r0(), c0, c0); ax_add(c0, c0, c0); }
            }
        }
        assert forall|h: int| lhs_degree - __i0 < h < a.len() implies #[trigger] rem.c()[h] == r0() by {
            if h == lhs_degree - i { assert(h - s == rhs_degree); ax_mul(scale, r1(), r1()); ax_mul(r1(), scale, r1()); ax_add(scale, scale, scale); } else { assert(r1_[h] == r0()); }
        }
    }
//@at end
    proof { assert forall|h: int| h >= rhs_degree implies #[trigger] co(rem.c(), h) == r0() by { } }
//@end
}
} // verus!
fn main() {}
