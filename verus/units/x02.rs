//@include ../prelude/base.rs
//@include ../prelude/bdd.rs
verus! {
/// the two numbers interleaved, least significant bit first
pub open spec fn xb(v: Seq<Bdd>, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| v[2 * k].ev(e) }
pub open spec fn yb(v: Seq<Bdd>, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| v[2 * k + 1].ev(e) }
pub open spec fn X(e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| e[2 * k] }
pub open spec fn Y(e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| e[2 * k + 1] }
//@fn mux_circuits/src/comparisons.rs :: equal
//@ret r
    requires a.nv() == b.nv()
    ensures r.nv() == a.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (a.ev(e) == b.ev(e))
//@end
//@fn mux_circuits/src/comparisons.rs :: greater_than
//@ret r
    requires a.nv() == b.nv()
    ensures r.nv() == a.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (a.ev(e) && !b.ev(e))
//@end
//@fn mux_circuits/src/comparisons.rs :: less_than
//@ret r
    requires a.nv() == b.nv()
    ensures r.nv() == a.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == (!a.ev(e) && b.ev(e))
//@end
proof fn p2pos(n: nat) ensures p2(n) > 0 decreases n { if n > 0 { p2pos((n - 1) as nat); } }
/// difference of the parts from bit i up
pub open spec fn dtop(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, i: nat, n: nat) -> int { (val(f, n) - val(f, i)) - (val(g, n) - val(g, i)) }
pub open spec fn cmpinv(v: Seq<Bdd>, res: Bdd, cum: Bdd, greater: bool, i: nat, n: nat, e: Seq<bool>) -> bool {
    let d = if greater { dtop(xb(v, e), yb(v, e), i, n) } else { dtop(yb(v, e), xb(v, e), i, n) };
    (cum.ev(e) <==> d == 0) && (cum.ev(e) ==> !res.ev(e)) && (res.ev(e) ==> d >= p2(i)) && (!res.ev(e) && !cum.ev(e) ==> d <= -p2(i))
}
proof fn cmpstep(v: Seq<Bdd>, r0: Bdd, c0: Bdd, r1: Bdd, c1: Bdd, greater: bool, i: int, n: nat, e: Seq<bool>)
    requires 0 <= i < n, cmpinv(v, r0, c0, greater, (i + 1) as nat, n, e),
        ({ let a = v[2 * i].ev(e); let b = v[2 * i + 1].ev(e); r1.ev(e) == (r0.ev(e) || (if greater { a && !b } else { !a && b }) && c0.ev(e)) && c1.ev(e) == (c0.ev(e) && a == b) })
    ensures cmpinv(v, r1, c1, greater, i as nat, n, e)
{
    p2pos(i as nat);
    let p = p2(i as nat) as int; let a = b2n(v[2 * i].ev(e)) as int; let b = b2n(v[2 * i + 1].ev(e)) as int;
    assert(xb(v, e)(i) == v[2 * i].ev(e)); assert(yb(v, e)(i) == v[2 * i + 1].ev(e));
    assert(p2((i + 1) as nat) == 2 * p);
    assert(a * p == (if v[2 * i].ev(e) { p } else { 0 })) by (nonlinear_arith) requires a == (if v[2 * i].ev(e) { 1int } else { 0int });
    assert(b * p == (if v[2 * i + 1].ev(e) { p } else { 0 })) by (nonlinear_arith) requires b == (if v[2 * i + 1].ev(e) { 1int } else { 0int });
}
//@fn mux_circuits/src/comparisons.rs :: unsigned_comparison_impl
//@ret r
    requires vars@.len() % 2 == 0, forall|k: int| 0 <= k < vars@.len() ==> (#[trigger] vars@[k]).nv() == variable_set.nv()
    ensures r.nv() == variable_set.nv(), forall|e: Seq<bool>| #[trigger] r.ev(e) == ({
        let h = vars@.len() / 2; let x = val(xb(vars@, e), h); let y = val(yb(vars@, e), h);
        (if greater { x > y } else { x < y }) || (or_equal && x == y) })
//@at before 0
    proof { assert forall|e: Seq<bool>| #[trigger] cmpinv(vars@, result, a_and_b_cumprod, greater, vars@.len() / 2, vars@.len() / 2, e) by {} }
//@at loop 0
    invariant vars@.len() % 2 == 0, __lo0_0 == 0, __hi0_1 == vars@.len() / 2, 2 * __hi0_1 <= usize::MAX, __i0 <= __hi0_1, result.nv() == variable_set.nv(), a_and_b_cumprod.nv() == variable_set.nv(), (forall|k: int| 0 <= k < vars@.len() ==> (#[trigger] vars@[k]).nv() == variable_set.nv()), forall|e: Seq<bool>| #[trigger] cmpinv(vars@, result, a_and_b_cumprod, greater, __i0 as nat, vars@.len() / 2, e)
    decreases __i0
//@at start 0
    let ghost r0 = result; let ghost c0 = a_and_b_cumprod;
//@at end 0
    proof { assert forall|e: Seq<bool>| #[trigger] cmpinv(vars@, result, a_and_b_cumprod, greater, __i0 as nat, vars@.len() / 2, e) by { assert(cmpinv(vars@, r0, c0, greater, (i + 1) as nat, vars@.len() / 2, e)); cmpstep(vars@, r0, c0, result, a_and_b_cumprod, greater, i as int, vars@.len() / 2, e); } }
//@at after 0
    let ghost r9 = result;
//@at end-bind
    proof { assert forall|e: Seq<bool>| #[trigger] __r.ev(e) == ({
        let h = vars@.len() / 2; let x = val(xb(vars@, e), h); let y = val(yb(vars@, e), h);
        (if greater { x > y } else { x < y }) || (or_equal && x == y) }) by { assert(cmpinv(vars@, r9, a_and_b_cumprod, greater, 0, vars@.len() / 2, e)); } }
//@end
proof fn eqstep(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, i: nat)
    ensures (val(f, i + 1) == val(g, i + 1)) == (val(f, i) == val(g, i) && f(i as int) == g(i as int))
{
    p2pos(i); val_lt(f, i); val_lt(g, i);
    let p = p2(i) as int;
    assert(b2n(f(i as int)) * p == (if f(i as int) { p } else { 0 })) by (nonlinear_arith) requires b2n(f(i as int)) == (if f(i as int) { 1nat } else { 0nat });
    assert(b2n(g(i as int)) * p == (if g(i as int) { p } else { 0 })) by (nonlinear_arith) requires b2n(g(i as int)) == (if g(i as int) { 1nat } else { 0nat });
}
impl MuxCircuit { pub fn from1(b: Bdd) -> (r: MuxCircuit) ensures r.nin() == b.nv(), r.nout() == 1, forall|e: Seq<bool>| #[trigger] r.out(0, e) == b.ev(e) {
    let mut v = Vec::<Bdd>::new(); v.push(b); let r = MuxCircuit::from(v.as_slice()); proof { assert(v@[0] == b); } r } }
//@fn mux_circuits/src/comparisons.rs :: compare_equal
//@ret r
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
//@sub "MuxCircuit::from([result].as_slice())" => "MuxCircuit::from1(result)"
    requires 0 < n, 2 * n < 0xFFFF
    ensures r.nin() == 2 * n, r.nout() == 1, forall|e: Seq<bool>| e.len() == 2 * n ==> #[trigger] r.out(0, e) == (val(X(e), n as nat) == val(Y(e), n as nat))
//@at loop 0
    invariant __s0_0@ == vars@, __n0 == __s0_0@.len(), __i0 <= __n0, __v0@.len() == __i0, variable_set.nv() == in_len, vars@.len() == in_len, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == in_len), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == in_len ==> #[trigger] __v0@[i].ev(e) == e[i]
    decreases __n0 - __i0
//@at loop 1
    invariant isvars(vars@, in_len as nat), in_len == 2 * n, 0 < n, 2 * n < 0xFFFF, result.nv() == in_len, __i1 <= n, __hi1_1 == n, forall|e: Seq<bool>| e.len() == in_len ==> #[trigger] result.ev(e) == (val(X(e), __i1 as nat) == val(Y(e), __i1 as nat))
    decreases __hi1_1 - __i1
//@at end 1
    proof { assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] result.ev(e) == (val(X(e), __i1 as nat) == val(Y(e), __i1 as nat)) by { assert(vars@[2 * i].ev(e) == e[2 * i]); assert(vars@[2 * i + 1].ev(e) == e[2 * i + 1]); eqstep(X(e), Y(e), i as nat); } }
//@end
//@fn mux_circuits/src/comparisons.rs :: compare_not_equal
//@ret r
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
//@sub "MuxCircuit::from([result].as_slice())" => "MuxCircuit::from1(result)"
    requires 0 < n, 2 * n < 0xFFFF
    ensures r.nin() == 2 * n, r.nout() == 1, forall|e: Seq<bool>| e.len() == 2 * n ==> #[trigger] r.out(0, e) == (val(X(e), n as nat) != val(Y(e), n as nat))
//@at loop 0
    invariant __s0_0@ == vars@, __n0 == __s0_0@.len(), __i0 <= __n0, __v0@.len() == __i0, variable_set.nv() == in_len, vars@.len() == in_len, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == in_len), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == in_len ==> #[trigger] __v0@[i].ev(e) == e[i]
    decreases __n0 - __i0
//@at loop 1
    invariant isvars(vars@, in_len as nat), in_len == 2 * n, 0 < n, 2 * n < 0xFFFF, result.nv() == in_len, __i1 <= n, __hi1_1 == n, forall|e: Seq<bool>| e.len() == in_len ==> #[trigger] result.ev(e) == (val(X(e), __i1 as nat) == val(Y(e), __i1 as nat))
    decreases __hi1_1 - __i1
//@at end 1
    proof { assert forall|e: Seq<bool>| e.len() == in_len implies #[trigger] result.ev(e) == (val(X(e), __i1 as nat) == val(Y(e), __i1 as nat)) by { assert(vars@[2 * i].ev(e) == e[2 * i]); assert(vars@[2 * i + 1].ev(e) == e[2 * i + 1]); eqstep(X(e), Y(e), i as nat); } }
//@end
//@fn mux_circuits/src/comparisons.rs :: compare_or_maybe_equal
//@ret r
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
//@sub "MuxCircuit::from([result].as_slice())" => "MuxCircuit::from1(result)"
    requires 0 < n, 2 * n < 0xFFFF
    ensures r.nin() == 2 * n, r.nout() == 1, forall|e: Seq<bool>| e.len() == 2 * n ==> #[trigger] r.out(0, e) == ({
        let x = val(X(e), n as nat); let y = val(Y(e), n as nat); (if greater { x > y } else { x < y }) || (or_equal && x == y) })
//@at loop 0
    invariant __s0_0@ == vars@, __n0 == __s0_0@.len(), __i0 <= __n0, __v0@.len() == __i0, variable_set.nv() == in_len, vars@.len() == in_len, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == in_len), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == in_len ==> #[trigger] __v0@[i].ev(e) == e[i]
    decreases __n0 - __i0
//@at end-bind
    proof { assert forall|e: Seq<bool>| e.len() == 2 * n implies #[trigger] __r.out(0, e) == ({
        let x = val(X(e), n as nat); let y = val(Y(e), n as nat); (if greater { x > y } else { x < y }) || (or_equal && x == y) }) by {
        assert(vars@.subrange(0, vars@.len() as int) =~= vars@); val_ext(xb(vars@, e), X(e), n as nat); val_ext(yb(vars@, e), Y(e), n as nat); } }
//@end
/// two's complement value of n bits
pub open spec fn sval(f: spec_fn(int) -> bool, n: nat) -> int { val(f, (n - 1) as nat) - b2n(f(n - 1)) * p2((n - 1) as nat) }
//@fn mux_circuits/src/comparisons.rs :: compare_or_maybe_equal_signed
//@ret r
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
//@sub "MuxCircuit::from([result].as_slice())" => "MuxCircuit::from1(result)"
    requires 0 < n, 2 * n < 0xFFFF
    ensures r.nin() == 2 * n, r.nout() == 1, forall|e: Seq<bool>| e.len() == 2 * n ==> #[trigger] r.out(0, e) == ({
        let x = sval(X(e), n as nat); let y = sval(Y(e), n as nat); (if greater { x > y } else { x < y }) || (or_equal && x == y) })
//@at loop 0
    invariant __s0_0@ == vars@, __n0 == __s0_0@.len(), __i0 <= __n0, __v0@.len() == __i0, variable_set.nv() == in_len, vars@.len() == in_len, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == in_len), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == in_len ==> #[trigger] __v0@[i].ev(e) == e[i]
    decreases __n0 - __i0
//@at end-bind
    proof { assert forall|e: Seq<bool>| e.len() == 2 * n implies #[trigger] __r.out(0, e) == ({
        let x = sval(X(e), n as nat); let y = sval(Y(e), n as nat); (if greater { x > y } else { x < y }) || (or_equal && x == y) }) by {
        let h = (n - 1) as nat; let w = vars@.subrange(0, 2 * n - 2);
        val_ext(xb(w, e), X(e), h); val_ext(yb(w, e), Y(e), h);
        val_lt(X(e), h); val_lt(Y(e), h); p2pos(h);
        assert(0 * p2(h) == 0 && 1 * p2(h) == p2(h));
        assert(a.ev(e) == X(e)(n - 1)); assert(b.ev(e) == Y(e)(n - 1)); } }
//@end
} // verus!
fn main() {}
