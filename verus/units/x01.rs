//@include ../prelude/base.rs
//@include ../prelude/bdd.rs
verus! {
/// operands of an adder: an optional carry, then the two numbers interleaved, then the rest of the longer one
pub open spec fn lmin(n: int, m: int) -> int { if n < m { n } else { m } }
pub open spec fn lmax(n: int, m: int) -> int { if n < m { m } else { n } }
pub open spec fn abit(n: int, m: int, c: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| if k < lmin(n, m) { e[c + 2 * k] } else if k < n { e[c + lmin(n, m) + k] } else { false } }
pub open spec fn bbit(n: int, m: int, c: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| if k < lmin(n, m) { e[c + 2 * k + 1] } else if k < m { e[c + lmin(n, m) + k] } else { false } }
pub open spec fn cbit(c: bool, e: Seq<bool>) -> nat { if c { b2n(e[0]) } else { 0 } }
/// the sum so far, with the carry on top
pub open spec fn addinv(sum: Seq<Bdd>, carry: Bdd, n: int, m: int, cin: bool, i: int, e: Seq<bool>) -> bool {
    let c = b2n(cin) as int;
    val(sb(sum, e), i as nat) + b2n(carry.ev(e)) * p2(i as nat) == val(abit(n, m, c, e), i as nat) + val(bbit(n, m, c, e), i as nat) + cbit(cin, e)
}
proof fn addstep(s0: Seq<Bdd>, s1: Seq<Bdd>, c0: Bdd, c1: Bdd, n: int, m: int, cin: bool, i: int, e: Seq<bool>)
    requires 0 <= i < s0.len(), s1.len() == s0.len(), forall|k: int| 0 <= k < i ==> s1[k] == s0[k], addinv(s0, c0, n, m, cin, i, e),
        ({ let c = b2n(cin) as int; let a = abit(n, m, c, e)(i); let b = bbit(n, m, c, e)(i); b2n(s1[i].ev(e)) + 2 * b2n(c1.ev(e)) == b2n(a) + b2n(b) + b2n(c0.ev(e)) })
    ensures addinv(s1, c1, n, m, cin, i + 1, e)
{
    let c = b2n(cin) as int;
    val_ext(sb(s0, e), sb(s1, e), i as nat);
    let p = p2(i as nat) as int; let s = b2n(s1[i].ev(e)) as int; let c1 = b2n(c1.ev(e)) as int; let a = b2n(abit(n, m, c, e)(i)) as int; let b = b2n(bbit(n, m, c, e)(i)) as int; let c0 = b2n(c0.ev(e)) as int;
    assert(p2((i + 1) as nat) == 2 * p);
    assert(s * p + c1 * (2 * p) == a * p + b * p + c0 * p) by (nonlinear_arith) requires s + 2 * c1 == a + b + c0;
    assert(sb(s1, e)(i) == s1[i].ev(e));
}
proof fn pad0(f: spec_fn(int) -> bool, n: nat, m: nat) requires n <= m, forall|k: int| n <= k < m ==> !#[trigger] f(k) ensures val(f, n) == val(f, m) decreases m { if n < m { pad0(f, n, (m - 1) as nat); } }
//@fn mux_circuits/src/add.rs :: ripple_carry_adder
//@ret r
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
    requires 0 < n, 0 < m, n + m + 1 < 0xFFFF
    ensures r.nin() == n + m + b2n(cin), r.nout() == lmax(n as int, m as int) + 1,
        forall|e: Seq<bool>| e.len() == r.nin() ==> val(#[trigger] ob(&r, e), r.nout()) == val(abit(n as int, m as int, b2n(cin) as int, e), n as nat) + val(bbit(n as int, m as int, b2n(cin) as int, e), m as nat) + cbit(cin, e)
//@at loop 0
    invariant __s0_0@ == vars@, __n0 == __s0_0@.len(), __i0 <= __n0, __v0@.len() == __i0, variable_set.nv() == in_len, vars@.len() == in_len, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == in_len), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == in_len ==> #[trigger] __v0@[i].ev(e) == e[i]
    decreases __n0 - __i0
//@at before 1
    proof { assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] addinv(sum@, carry, n as int, m as int, cin, 0, e) by {} }
//@at loop 1
    invariant vars@.len() == in_len, isvars(vars@, in_len as nat), in_len == n + m + cin_offset, cin_offset == b2n(cin), min_len == lmin(n as int, m as int), max_len == lmax(n as int, m as int), n + m + 1 < 0xFFFF, 0 < n, 0 < m, sum@.len() == max_len + 1, carry.nv() == in_len, variable_set.nv() == in_len, (forall|k: int| 0 <= k < sum@.len() ==> (#[trigger] sum@[k]).nv() == in_len), __i1 <= min_len, __hi1_1 == min_len, forall|e: Seq<bool>| e.len() == in_len ==> #[trigger] addinv(sum@, carry, n as int, m as int, cin, __i1 as int, e)
    decreases __hi1_1 - __i1
//@at start 1
    let ghost s0 = sum@; let ghost c0 = carry;
//@at end 1
    proof { assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] addinv(sum@, carry, n as int, m as int, cin, __i1 as int, e) by { assert(addinv(s0, c0, n as int, m as int, cin, i as int, e)); assert(a.ev(e) == vars@[cin_offset + 2 * i].ev(e)); assert(b.ev(e) == vars@[cin_offset + 2 * i + 1].ev(e)); addstep(s0, sum@, c0, carry, n as int, m as int, cin, i as int, e); } }
//@at loop 2
    invariant vars@.len() == in_len, isvars(vars@, in_len as nat), in_len == n + m + cin_offset, cin_offset == b2n(cin), min_len == lmin(n as int, m as int), max_len == lmax(n as int, m as int), n + m + 1 < 0xFFFF, 0 < n, 0 < m, sum@.len() == max_len + 1, carry.nv() == in_len, variable_set.nv() == in_len, (forall|k: int| 0 <= k < sum@.len() ==> (#[trigger] sum@[k]).nv() == in_len), __i2 <= max_len - min_len, __hi2_1 == max_len - min_len, forall|e: Seq<bool>| e.len() == in_len ==> #[trigger] addinv(sum@, carry, n as int, m as int, cin, min_len + __i2 as int, e)
    decreases __hi2_1 - __i2
//@at start 2
    let ghost s0 = sum@; let ghost c0 = carry;
//@at end 2
    proof { assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] addinv(sum@, carry, n as int, m as int, cin, min_len + __i2 as int, e) by { assert(addinv(s0, c0, n as int, m as int, cin, min_len + i, e)); assert(a.ev(e) == vars@[2 * min_len + i + cin_offset].ev(e)); addstep(s0, sum@, c0, carry, n as int, m as int, cin, min_len + i, e); } }
//@at after 2
    let ghost s2 = sum@; let ghost c2 = carry;
    proof { assert(min_len + __i2 == max_len); assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] addinv(s2, c2, n as int, m as int, cin, max_len as int, e) by { assert(addinv(sum@, carry, n as int, m as int, cin, min_len + __i2 as int, e)); } }
//@at end-bind
    proof {
        assert(sum@[0].nv() == in_len); assert(__r.nin() == in_len);
        assert forall|e: Seq<bool>| e.len() == __r.nin() implies val(#[trigger] ob(&__r, e), __r.nout()) == val(abit(n as int, m as int, b2n(cin) as int, e), n as nat) + val(bbit(n as int, m as int, b2n(cin) as int, e), m as nat) + cbit(cin, e) by {
            assert(addinv(s2, c2, n as int, m as int, cin, max_len as int, e)); val_ext(sb(s2, e), sb(sum@, e), max_len as nat);
            assert(addinv(sum@, sum@[max_len as int], n as int, m as int, cin, max_len as int, e));
            val_ext(ob(&__r, e), sb(sum@, e), max_len as nat);
            pad0(abit(n as int, m as int, b2n(cin) as int, e), n as nat, max_len as nat); pad0(bbit(n as int, m as int, b2n(cin) as int, e), m as nat, max_len as nat);
        }
    }
//@end
// ---- subtraction: an optional borrow, then the two numbers interleaved; output n is the borrow out ----
pub open spec fn xbit(c: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| e[c + 2 * k] }
pub open spec fn ybit(c: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| e[c + 2 * k + 1] }
pub open spec fn subinv(d: Seq<Bdd>, bo: Bdd, bin: bool, i: int, e: Seq<bool>) -> bool {
    let c = b2n(bin) as int;
    val(sb(d, e), i as nat) + val(ybit(c, e), i as nat) + cbit(bin, e) == val(xbit(c, e), i as nat) + b2n(bo.ev(e)) * p2(i as nat)
}
proof fn substep(s0: Seq<Bdd>, s1: Seq<Bdd>, c0: Bdd, c1: Bdd, bin: bool, i: int, e: Seq<bool>)
    requires 0 <= i < s0.len(), s1.len() == s0.len(), forall|k: int| 0 <= k < i ==> s1[k] == s0[k], subinv(s0, c0, bin, i, e),
        ({ let c = b2n(bin) as int; b2n(s1[i].ev(e)) + b2n(ybit(c, e)(i)) + b2n(c0.ev(e)) == b2n(xbit(c, e)(i)) + 2 * b2n(c1.ev(e)) })
    ensures subinv(s1, c1, bin, i + 1, e)
{
    let c = b2n(bin) as int;
    val_ext(sb(s0, e), sb(s1, e), i as nat);
    let p = p2(i as nat) as int; let s = b2n(s1[i].ev(e)) as int; let c1 = b2n(c1.ev(e)) as int; let a = b2n(xbit(c, e)(i)) as int; let b = b2n(ybit(c, e)(i)) as int; let c0 = b2n(c0.ev(e)) as int;
    assert(p2((i + 1) as nat) == 2 * p);
    assert(s * p + b * p + c0 * p == a * p + c1 * (2 * p)) by (nonlinear_arith) requires s + b + c0 == a + 2 * c1;
    assert(sb(s1, e)(i) == s1[i].ev(e));
}
//@fn mux_circuits/src/sub.rs :: full_subtractor
//@ret r
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
    requires 0 < n, 2 * n + 1 < 0xFFFF
    ensures r.nin() == 2 * n + b2n(bin), r.nout() == n + 1,
        forall|e: Seq<bool>| e.len() == r.nin() ==> val(#[trigger] ob(&r, e), n as nat) + val(ybit(b2n(bin) as int, e), n as nat) + cbit(bin, e) == val(xbit(b2n(bin) as int, e), n as nat) + b2n(r.out(n as int, e)) * p2(n as nat)
//@at loop 0
    invariant __s0_0@ == vars@, __n0 == __s0_0@.len(), __i0 <= __n0, __v0@.len() == __i0, variable_set.nv() == in_len, vars@.len() == in_len, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == in_len), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == in_len ==> #[trigger] __v0@[i].ev(e) == e[i]
    decreases __n0 - __i0
//@at before 1
    proof { assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] subinv(diff@, borrow, bin, 0, e) by {} }
//@at loop 1
    invariant isvars(vars@, in_len as nat), in_len == 2 * n + bin_offset, bin_offset == b2n(bin), 2 * n + 1 < 0xFFFF, 0 < n, diff@.len() == n + 1, borrow.nv() == in_len, variable_set.nv() == in_len, (forall|k: int| 0 <= k < diff@.len() ==> (#[trigger] diff@[k]).nv() == in_len), __i1 <= n, __hi1_1 == n, forall|e: Seq<bool>| e.len() == in_len ==> #[trigger] subinv(diff@, borrow, bin, __i1 as int, e)
    decreases __hi1_1 - __i1
//@at start 1
    let ghost s0 = diff@; let ghost c0 = borrow;
//@at end 1
    proof { assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] subinv(diff@, borrow, bin, __i1 as int, e) by { assert(subinv(s0, c0, bin, i as int, e)); assert(a.ev(e) == vars@[bin_offset + 2 * i].ev(e)); assert(b.ev(e) == vars@[bin_offset + 2 * i + 1].ev(e)); substep(s0, diff@, c0, borrow, bin, i as int, e); } }
//@at after 1
    let ghost s2 = diff@; let ghost c2 = borrow;
    proof { assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] subinv(s2, c2, bin, n as int, e) by { assert(subinv(diff@, borrow, bin, __i1 as int, e)); } }
//@at end-bind
    proof {
        assert(diff@[0].nv() == in_len); assert(__r.nin() == in_len);
        assert forall|e: Seq<bool>| e.len() == __r.nin() implies val(#[trigger] ob(&__r, e), n as nat) + val(ybit(b2n(bin) as int, e), n as nat) + cbit(bin, e) == val(xbit(b2n(bin) as int, e), n as nat) + b2n(__r.out(n as int, e)) * p2(n as nat) by {
            assert(subinv(s2, c2, bin, n as int, e)); val_ext(sb(s2, e), ob(&__r, e), n as nat); assert(__r.out(n as int, e) == diff@[n as int].ev(e));
        }
    }
//@end
/// what the outputs mean: the difference modulo 2^n, and whether a borrow was needed
pub proof fn sub_meaning(d: int, x: int, y: int, c: int, bo: int, n: nat)
    requires d + y + c == x + bo * p2(n), 0 <= d < p2(n), 0 <= x < p2(n), 0 <= y < p2(n), 0 <= c <= 1, 0 <= bo <= 1
    ensures bo == 1 <==> x < y + c, d == x - y - c + bo * p2(n)
{ assert(bo * p2(n) == 0 || bo * p2(n) == p2(n)) by (nonlinear_arith) requires bo == 0 || bo == 1; }
// ---- negation: the number, least significant bit first ------------------------------------------
pub open spec fn ibit(e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| e[k] }
pub open spec fn neginv(d: Seq<Bdd>, f: Bdd, i: int, e: Seq<bool>) -> bool {
    (f.ev(e) <==> val(ibit(e), i as nat) != 0) && val(sb(d, e), i as nat) + val(ibit(e), i as nat) == b2n(f.ev(e)) * p2(i as nat)
}
proof fn p2pos(n: nat) ensures p2(n) > 0 decreases n { if n > 0 { p2pos((n - 1) as nat); } }
proof fn negstep(s0: Seq<Bdd>, s1: Seq<Bdd>, c0: Bdd, c1: Bdd, i: int, e: Seq<bool>)
    requires 0 <= i < s0.len(), s1.len() == s0.len(), forall|k: int| 0 <= k < i ==> s1[k] == s0[k], neginv(s0, c0, i, e),
        s1[i].ev(e) == (c0.ev(e) != e[i]), c1.ev(e) == (c0.ev(e) || e[i])
    ensures neginv(s1, c1, i + 1, e)
{
    val_ext(sb(s0, e), sb(s1, e), i as nat); p2pos(i as nat);
    let p = p2(i as nat) as int;
    assert(p2((i + 1) as nat) == 2 * p);
    assert(sb(s1, e)(i) == s1[i].ev(e)); assert(ibit(e)(i) == e[i]);
    assert(1 * p == p && 0 * p == 0 && 1 * (2 * p) == 2 * p && 0 * (2 * p) == 0);
}
//@fn mux_circuits/src/neg.rs :: negator
//@ret r
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
    requires 0 < n, n < 0xFFFF
    ensures r.nin() == n, r.nout() == n,
        forall|e: Seq<bool>| e.len() == n ==> val(#[trigger] ob(&r, e), n as nat) == (if val(ibit(e), n as nat) == 0 { 0 } else { p2(n as nat) - val(ibit(e), n as nat) })
//@at loop 0
    invariant __s0_0@ == vars@, __n0 == __s0_0@.len(), __i0 <= __n0, __v0@.len() == __i0, variable_set.nv() == n, vars@.len() == n, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == n), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == n ==> #[trigger] __v0@[i].ev(e) == e[i]
    decreases __n0 - __i0
//@at before 1
    proof { assert forall|e: Seq<bool>| e.len() == n implies #[trigger] neginv(neg@, flip, 0, e) by {} }
//@at loop 1
    invariant isvars(vars@, n as nat), 0 < n < 0xFFFF, neg@.len() == n, flip.nv() == n, variable_set.nv() == n, (forall|k: int| 0 <= k < neg@.len() ==> (#[trigger] neg@[k]).nv() == n), __i1 <= n, __hi1_1 == n, forall|e: Seq<bool>| e.len() == n ==> #[trigger] neginv(neg@, flip, __i1 as int, e)
    decreases __hi1_1 - __i1
//@at start 1
    let ghost s0 = neg@; let ghost c0 = flip;
//@at end 1
    proof { assert forall|e: Seq<bool>| e.len() == n implies #[trigger] neginv(neg@, flip, __i1 as int, e) by { assert(neginv(s0, c0, i as int, e)); assert(vars@[i as int].ev(e) == e[i as int]); negstep(s0, neg@, c0, flip, i as int, e); } }
//@at end-bind
    proof {
        assert(neg@[0].nv() == n); assert(__r.nin() == n);
        assert forall|e: Seq<bool>| e.len() == n implies val(#[trigger] ob(&__r, e), n as nat) == (if val(ibit(e), n as nat) == 0 { 0 } else { p2(n as nat) - val(ibit(e), n as nat) }) by {
            assert(neginv(neg@, flip, __i1 as int, e)); val_ext(sb(neg@, e), ob(&__r, e), n as nat); val_lt(sb(neg@, e), n as nat); assert(1 * p2(n as nat) == p2(n as nat) && 0 * p2(n as nat) == 0);
        }
    }
//@end
} // verus!
fn main() {}
