//@include ../prelude/base.rs
//@include ../prelude/bdd.rs
verus! {
pub assume_specification[ u16::ilog2 ](x: u16) -> (r: u32) requires x >= 1 ensures r < 16, p2(r as nat) <= x < p2((r + 1) as nat);
pub open spec fn isp2(x: int) -> bool { exists|k: nat| k < 16 && x == #[trigger] p2(k) }
pub assume_specification[ u16::is_power_of_two ](x: u16) -> (r: bool) ensures r == isp2(x as int);
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum ShiftDirection { Left, Right }
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum ShiftMode { Logical, Rotation, Arithmetic }
pub trait Rot { spec fn seq(&self) -> Seq<Bdd>;
    fn rotate_left(&mut self, k: usize) requires k <= old(self).seq().len() ensures final(self).seq() == old(self).seq().subrange(k as int, old(self).seq().len() as int) + old(self).seq().subrange(0, k as int);
    fn rotate_right(&mut self, k: usize) requires k <= old(self).seq().len() ensures final(self).seq() == old(self).seq().subrange(old(self).seq().len() - k, old(self).seq().len() as int) + old(self).seq().subrange(0, old(self).seq().len() - k);
}
impl Rot for Vec<Bdd> { open spec fn seq(&self) -> Seq<Bdd> { self@ }
    #[verifier::external_body] fn rotate_left(&mut self, k: usize) { unimplemented!() }
    #[verifier::external_body] fn rotate_right(&mut self, k: usize) { unimplemented!() }
}
proof fn p2mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b), p2(a) > 0 decreases b { if b > 0 { if a < b { p2mono(a, (b - 1) as nat); } else { p2mono((a - 1) as nat, (b - 1) as nat); } } }
proof fn p2strict(a: nat, b: nat) requires p2(a) < p2(b) ensures a < b { if a >= b { p2mono(b, a); } }
proof fn p2_16() ensures p2(16) == 65536 { reveal_with_fuel(p2, 17); }
proof fn shl_p2(k: nat) requires k < 64 ensures (1u64 << (k as u64)) == p2(k) decreases k {
    if k == 0 { assert(1u64 << 0u64 == 1) by (bit_vector); } else { shl_p2((k - 1) as nat); let j = (k - 1) as u64; assert((1u64 << ((j + 1) as u64)) == 2 * (1u64 << j)) by (bit_vector) requires j < 63; }
}
global size_of usize == 8;
pub fn shl1(k: u16) -> (r: usize) requires k < 64 ensures r == p2(k as nat) { proof { shl_p2(k as nat); assert((1usize << k) as u64 == 1u64 << (k as u64)) by (bit_vector); } 1usize << k }
//@fn mux_circuits/src/bitshift.rs :: ilog2_rounded_up
//@ret r
    requires x >= 1
    ensures r <= 16, p2(r as nat) >= x, x == 1 ==> r == 0, x >= 2 ==> r >= 1 && p2((r - 1) as nat) < x
//@at start
    proof { assert(p2(1) == 2) by { reveal_with_fuel(p2, 2); }
        assert forall|k: nat, q: nat| #[trigger] p2(k) == x && p2(q) <= x < #[trigger] p2(q + 1) implies k == q by { p2strict(k, q + 1); if k < q { p2mono(k + 1, q); p2mono(k, k); } }
        assert forall|q: nat| x >= 2 && x < #[trigger] p2(q + 1) implies q >= 1 by { if q == 0 { } }
        assert forall|q: nat| q >= 1 implies #[trigger] p2(q) == 2 * p2((q - 1) as nat) && p2((q - 1) as nat) > 0 by { p2mono((q - 1) as nat, q); } }
//@end
// ---- most significant bit first: input j is bit N-1-j, then the shift amount, most significant bit first ----
pub open spec fn shbits(n: int, ss: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| e[n + ss - 1 - k] }
/// bit j of the input moved by amt places
pub open spec fn moved(mode: ShiftMode, dir: ShiftDirection, f: spec_fn(int) -> bool, n: int, amt: int, j: int) -> bool {
    match mode {
        ShiftMode::Rotation => if dir == ShiftDirection::Left { f((j + amt) % n) } else { f((j - amt) % n) },
        _ => if dir == ShiftDirection::Left { if j + amt < n { f(j + amt) } else { false } } else { if j >= amt { f(j - amt) } else { mode == ShiftMode::Arithmetic && f(0) } },
    }
}
pub open spec fn inb(e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| e[k] }
pub open spec fn resok(res: Seq<Bdd>, mode: ShiftMode, dir: ShiftDirection, n: int, amt: int, e: Seq<bool>) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] res[j].ev(e) == moved(mode, dir, inb(e), n, amt, j) }
proof fn compose(mode: ShiftMode, dir: ShiftDirection, r0: Seq<Bdd>, n: int, a: int, s: int, j: int, e: Seq<bool>)
    requires n > 0, 0 <= j < n, a >= 0, s >= 0, resok(r0, mode, dir, n, a, e), !(mode == ShiftMode::Arithmetic && dir == ShiftDirection::Left)
    ensures moved(mode, dir, sb(r0, e), n, s, j) == moved(mode, dir, inb(e), n, a + s, j)
{
    if mode == ShiftMode::Rotation {
        if dir == ShiftDirection::Left { let q = (j + s) % n; vstd::arithmetic::div_mod::lemma_mod_bound(j + s, n); assert(r0[q].ev(e) == moved(mode, dir, inb(e), n, a, q)); vstd::arithmetic::div_mod::lemma_add_mod_noop(j + s, a, n); vstd::arithmetic::div_mod::lemma_add_mod_noop(q, a, n); vstd::arithmetic::div_mod::lemma_mod_twice(j + s, n); assert(j + s + a == j + (a + s)); assert((q + a) % n == (j + (a + s)) % n); }
        else { let q = (j - s) % n; vstd::arithmetic::div_mod::lemma_mod_bound(j - s, n); assert(r0[q].ev(e) == moved(mode, dir, inb(e), n, a, q)); vstd::arithmetic::div_mod::lemma_sub_mod_noop(j - s, a, n); vstd::arithmetic::div_mod::lemma_sub_mod_noop(q, a, n); vstd::arithmetic::div_mod::lemma_mod_twice(j - s, n); assert(j - s - a == j - (a + s)); assert((q - a) % n == (j - (a + s)) % n); }
    } else if dir == ShiftDirection::Left { if j + s < n { assert(r0[j + s].ev(e) == moved(mode, dir, inb(e), n, a, j + s)); } }
    else { if j >= s { assert(r0[j - s].ev(e) == moved(mode, dir, inb(e), n, a, j - s)); } assert(r0[0].ev(e) == moved(mode, dir, inb(e), n, a, 0)); }
}
proof fn val_top(f: spec_fn(int) -> bool, k: nat, n: nat) requires k < n, f(k as int) ensures val(f, n) >= p2(k) decreases n { if k + 1 < n { val_top(f, k, (n - 1) as nat); } else { assert(1 * p2(k) == p2(k)); } }
proof fn val_pad(f: spec_fn(int) -> bool, n: nat, m: nat) requires n <= m, forall|k: int| n <= k < m ==> !#[trigger] f(k) ensures val(f, n) == val(f, m) decreases m { if n < m { val_pad(f, n, (m - 1) as nat); } }
/// the bits from u up are a multiple of 2^u
proof fn val_mod(f: spec_fn(int) -> bool, u: nat, n: nat) requires u <= n ensures exists|q: int| val(f, n) == val(f, u) + #[trigger] (q * p2(u)) decreases n {
    if u == n { assert(val(f, n) == val(f, u) + 0 * p2(u)); } else { val_mod(f, u, (n - 1) as nat); let q = choose|q: int| val(f, (n - 1) as nat) == val(f, u) + #[trigger] (q * p2(u)); p2split(u, (n - 1) as nat); let t = choose|t: int| p2((n - 1) as nat) == #[trigger] (t * p2(u)); let b = b2n(f(n - 1)) as int; assert(b * (t * p2(u)) + q * p2(u) == (b * t + q) * p2(u)) by (nonlinear_arith); }
}
proof fn p2split(u: nat, n: nat) requires u <= n ensures exists|t: int| p2(n) == #[trigger] (t * p2(u)) decreases n { if u == n { assert(p2(n) == 1 * p2(u)); } else { p2split(u, (n - 1) as nat); let t = choose|t: int| p2((n - 1) as nat) == #[trigger] (t * p2(u)); assert(2 * (t * p2(u)) == (2 * t) * p2(u)) by (nonlinear_arith); } }
proof fn moved_mod(mode: ShiftMode, dir: ShiftDirection, f: spec_fn(int) -> bool, n: int, a: int, b: int, q: int, j: int)
    requires n > 0, mode == ShiftMode::Rotation, b == a + q * n ensures moved(mode, dir, f, n, a, j) == moved(mode, dir, f, n, b, j)
{ vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, j + a, n); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-q, j - a, n); assert((-q) * n == -(q * n)) by (nonlinear_arith); assert(n * q == q * n && n * (-q) == (-q) * n) by (nonlinear_arith); }
//@def u__u (used_shift_bits as int)
//@fn mux_circuits/src/bitshift.rs :: bitshift
//@ret r
//@rangety u16
//@slice result own
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
//@sub "1 << shift_log" => "shl1(shift_log)" optional
    requires 1 <= inputs, inputs + shift_size < 0xFFFF, shift_size >= 1, p2(shift_size as nat) >= inputs, mode == ShiftMode::Rotation ==> isp2(inputs as int), !(mode == ShiftMode::Arithmetic && dir == ShiftDirection::Left)
    ensures r.nin() == inputs + shift_size, r.nout() == inputs,
        forall|e: Seq<bool>, j: int| e.len() == r.nin() && 0 <= j < inputs ==> #[trigger] r.out(j, e) == moved(mode, dir, inb(e), inputs as int, val(shbits(inputs as int, shift_size as int, e), shift_size as nat) as int, j)
//@at start
    let ghost L = (inputs + shift_size) as nat; let ghost N = inputs as int; let ghost S = shift_size as int;
    proof { assert forall|u: nat| #[trigger] p2(u) < inputs implies u < shift_size by { p2strict(u, shift_size as nat); } }
//@at before 0
    proof { if used_shift_bits >= 2 { p2strict((used_shift_bits - 1) as nat, shift_size as nat); } }
//@at loop 0
    invariant __n0 == S - u__u, 0 < u__u <= S, S == shift_size, N == inputs, L == N + S, L < 0xFFFF, u__u == used_shift_bits, __lo0_0 == 0, variable_set.nv() == L, vars@.len() == L, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), __i0 <= __n0, __v0@.len() == __i0,
        (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == L), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == L ==> #[trigger] __v0@[i].ev(e) == e[N + i]
    decreases __n0 - __i0
//@at loop 1
    invariant __n1 == u__u, 0 < u__u <= S, S == shift_size, N == inputs, L == N + S, L < 0xFFFF, u__u == used_shift_bits, __lo1_0 == S - u__u, variable_set.nv() == L, vars@.len() == L, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), __i1 <= __n1, __v1@.len() == __i1,
        (forall|i: int| 0 <= i < __i1 ==> (#[trigger] __v1@[i]).nv() == L), forall|i: int, e: Seq<bool>| 0 <= i < __i1 && e.len() == L ==> #[trigger] __v1@[i].ev(e) == e[N + S - u__u + i]
    decreases __n1 - __i1
//@at loop 2
    invariant __n2 == N, S == shift_size, N == inputs, L == N + S, L < 0xFFFF, __lo2_0 == 0, variable_set.nv() == L, vars@.len() == L, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), __i2 <= __n2, __v2@.len() == __i2,
        (forall|i: int| 0 <= i < __i2 ==> (#[trigger] __v2@[i]).nv() == L), forall|i: int, e: Seq<bool>| 0 <= i < __i2 && e.len() == L ==> #[trigger] __v2@[i].ev(e) == e[i]
    decreases __n2 - __i2
//@at before 3
    proof { assert forall|e: Seq<bool>| e.len() == L implies #[trigger] resok(result@, mode, dir, N, val(shbits(N, S, e), u__u as nat) - val(shbits(N, S, e), u__u as nat), e) by { assert forall|j: int| 0 <= j < N implies #[trigger] result@[j].ev(e) == moved(mode, dir, inb(e), N, 0, j) by { if mode == ShiftMode::Rotation { vstd::arithmetic::div_mod::lemma_small_mod(j as nat, N as nat); } } } }
//@at loop 3
    invariant __n3 == u__u, __lo3_0 == 0, __hi3_1 == u__u, __i3 <= __n3, 0 < u__u <= S, u__u <= 16, S == shift_size, N == inputs, N >= 1, L == N + S, L < 0xFFFF, u__u == used_shift_bits, N >= 2 ==> p2((u__u - 1) as nat) < N, N == 1 ==> u__u == 1, !(mode == ShiftMode::Arithmetic && dir == ShiftDirection::Left),
        used_shift_vars@.len() == u__u, (forall|i: int| 0 <= i < u__u ==> (#[trigger] used_shift_vars@[i]).nv() == L), (forall|i: int, e: Seq<bool>| 0 <= i < u__u && e.len() == L ==> #[trigger] used_shift_vars@[i].ev(e) == e[N + S - u__u + i]),
        result@.len() == N, (forall|i: int| 0 <= i < N ==> (#[trigger] result@[i]).nv() == L), old_msb.nv() == L, variable_set.nv() == L, (forall|e: Seq<bool>| e.len() == L ==> #[trigger] old_msb.ev(e) == e[0]),
        forall|e: Seq<bool>| e.len() == L ==> #[trigger] resok(result@, mode, dir, N, val(shbits(N, S, e), u__u as nat) - val(shbits(N, S, e), (u__u - __i3) as nat), e)
    decreases __n3 - __i3
//@at start 3
    let ghost r0 = result@; proof { if N >= 2 { p2mono((u__u - 1 - i) as nat, (u__u - 1) as nat); } else { } }
//@at before 4
    proof { assert(intermediate@.len() == N);
        assert(shift == p2((u__u - 1 - i) as nat)); assert(shift <= N); p2mono((u__u - 1 - i) as nat, (u__u - 1 - i) as nat);
        assert(N >= 2 ==> shift < N);
        let s1 = if N == 1 { 0 } else { shift as int };
        assert(s1 == shift as int % N) by { if N >= 2 { vstd::arithmetic::div_mod::lemma_small_mod(shift as nat, N as nat); } }
        assert forall|j: int| 0 <= j < N implies #[trigger] intermediate@[j] == r0[if dir == ShiftDirection::Left { (j + shift) % N } else { (j - shift) % N }] by {
            if dir == ShiftDirection::Left { if N >= 2 { if j + s1 < N { vstd::arithmetic::div_mod::lemma_small_mod((j + s1) as nat, N as nat); } else { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(j + s1 - N, N); vstd::arithmetic::div_mod::lemma_small_mod((j + s1 - N) as nat, N as nat); } } }
            else { if N >= 2 { if j - s1 >= 0 { vstd::arithmetic::div_mod::lemma_small_mod((j - s1) as nat, N as nat); } else { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(j - s1, N); vstd::arithmetic::div_mod::lemma_small_mod((j - s1 + N) as nat, N as nat); } } }
        } }
//@at loop 4
    invariant __hi4_1 == N, __lo4_0 == 0, __i4 <= N, N >= 1, N >= 2 ==> shift < N, 1 <= shift <= N, N == inputs, !(mode == ShiftMode::Arithmetic && dir == ShiftDirection::Left), select.nv() == L,
        r0.len() == N, result@.len() == N, intermediate@.len() == N, (forall|i: int| 0 <= i < N ==> (#[trigger] result@[i]).nv() == L), (forall|i: int| 0 <= i < N ==> (#[trigger] r0[i]).nv() == L), old_msb.nv() == L, variable_set.nv() == L,
        (forall|e: Seq<bool>| e.len() == L ==> #[trigger] old_msb.ev(e) == e[0]),
        (forall|j: int| 0 <= j < N ==> #[trigger] intermediate@[j] == r0[if dir == ShiftDirection::Left { (j + shift) % N } else { (j - shift) % N }]),
        (forall|j: int| __i4 <= j < N ==> #[trigger] result@[j] == r0[j]),
        (forall|j: int, e: Seq<bool>| 0 <= j < __i4 && e.len() == L ==> #[trigger] result@[j].ev(e) == (if select.ev(e) { stage(mode, dir, r0, N, shift as int, j, e) } else { r0[j].ev(e) }))
    decreases __hi4_1 - __i4
//@at start 4
    proof { let j = input_index as int; vstd::arithmetic::div_mod::lemma_mod_bound(j + shift, N); vstd::arithmetic::div_mod::lemma_mod_bound(j - shift, N); assert(intermediate@[j].nv() == L); if j + shift < N { vstd::arithmetic::div_mod::lemma_small_mod((j + shift) as nat, N as nat); } if j >= shift { vstd::arithmetic::div_mod::lemma_small_mod((j - shift) as nat, N as nat); } }
//@at end 3
    proof { assert forall|e: Seq<bool>| e.len() == L implies #[trigger] resok(result@, mode, dir, N, val(shbits(N, S, e), u__u as nat) - val(shbits(N, S, e), (u__u - __i3) as nat), e) by {
        let f = shbits(N, S, e); let k = u__u - 1 - i;
        assert(resok(r0, mode, dir, N, val(f, u__u as nat) - val(f, (u__u - i) as nat), e)); assert(f(k) == select.ev(e)); val_mono(f, (u__u - i) as nat, u__u as nat);
        assert(val(f, (u__u - i) as nat) == val(f, k as nat) + (if select.ev(e) { shift as int } else { 0 })) by { assert(1 * p2(k as nat) == p2(k as nat) && 0 * p2(k as nat) == 0); }
        assert forall|j: int| 0 <= j < N implies #[trigger] result@[j].ev(e) == moved(mode, dir, inb(e), N, val(f, u__u as nat) - val(f, k as nat), j) by {
            assert(r0[0].ev(e) == moved(mode, dir, inb(e), N, val(f, u__u as nat) - val(f, (u__u - i) as nat), 0));
            compose(mode, dir, r0, N, val(f, u__u as nat) - val(f, (u__u - i) as nat), shift as int, j, e); assert(r0[j].ev(e) == moved(mode, dir, inb(e), N, val(f, u__u as nat) - val(f, (u__u - i) as nat), j)); } } }
//@at after 3
    let ghost r3 = result@;
    proof { assert forall|e: Seq<bool>| e.len() == L implies #[trigger] resok(r3, mode, dir, N, val(shbits(N, S, e), u__u as nat) as int, e) by { assert(resok(result@, mode, dir, N, val(shbits(N, S, e), u__u as nat) - val(shbits(N, S, e), (u__u - __i3) as nat), e)); } }
//@at loop 5
    invariant __n5 == S - u__u, 0 < u__u <= S, L == N + S, __s5_0@.len() == S - u__u, (forall|i: int| 0 <= i < S - u__u ==> (#[trigger] __s5_0@[i]).nv() == L), (forall|i: int, e: Seq<bool>| 0 <= i < S - u__u && e.len() == L ==> #[trigger] __s5_0@[i].ev(e) == e[N + i]), clear_bit.nv() == L, __i5 <= __n5,
        forall|e: Seq<bool>| e.len() == L ==> #[trigger] clear_bit.ev(e) == exists|k: int| N <= k < N + __i5 && e[k]
    decreases __n5 - __i5
//@at start 5
    let ghost b0 = clear_bit; let ghost p0 = __j5;
//@at end 5
    proof { assert forall|e: Seq<bool>| e.len() == L implies #[trigger] clear_bit.ev(e) == exists|k: int| N <= k < N + __i5 && e[k] by { assert(b0.ev(e) == exists|k: int| N <= k < N + p0 && e[k]); assert(__s5_0@[p0 as int].ev(e) == e[N + p0]); if e[N + p0] { assert(N <= N + p0 < N + __i5); } } }
//@at loop 6
    invariant __n6 == N, __s6_0@.len() == N, __i6 <= N, L == N + S, r3.len() == N, clear_bit.nv() == L, fill.nv() == L, (forall|i: int| 0 <= i < N ==> (#[trigger] __s6_0@[i]).nv() == L), (forall|j: int| __i6 <= j < N ==> #[trigger] __s6_0@[j] == r3[j]),
        forall|j: int, e: Seq<bool>| 0 <= j < __i6 && e.len() == L ==> #[trigger] __s6_0@[j].ev(e) == (if clear_bit.ev(e) { fill.ev(e) } else { r3[j].ev(e) })
    decreases __n6 - __i6
//@at end-bind
    proof { p2_16(); assert(result@[0].nv() == L); assert(__r.nin() == L); p2mono((u__u - 1) as nat, u__u as nat);
        assert forall|e: Seq<bool>, j: int| e.len() == __r.nin() && 0 <= j < inputs implies #[trigger] __r.out(j, e) == moved(mode, dir, inb(e), inputs as int, val(shbits(inputs as int, shift_size as int, e), shift_size as nat) as int, j) by {
            let f = shbits(N, S, e); let a = val(f, u__u as nat) as int; let b = val(f, S as nat) as int;
            assert(resok(r3, mode, dir, N, a, e)); assert(__r.out(j, e) == result@[j].ev(e)); assert(r3[j].ev(e) == moved(mode, dir, inb(e), N, a, j));
            if mode == ShiftMode::Rotation {
                assert(result@ == r3); val_mod(f, u__u as nat, S as nat); let q = choose|q: int| val(f, S as nat) == val(f, u__u as nat) + #[trigger] (q * p2(u__u as nat));
                if N == 1 { moved_mod(mode, dir, inb(e), N, a, b, b - a, j); } else { let k = choose|k: nat| k < 16 && N == #[trigger] p2(k); p2strict((u__u - 1) as nat, k); if k > u__u { p2mono(u__u as nat, (k - 1) as nat); p2mono((k - 1) as nat, (k - 1) as nat); } assert(N == p2(u__u as nat)); moved_mod(mode, dir, inb(e), N, a, b, q, j); }
            } else if exists|k: int| N <= k < N + (S - u__u) && e[k] {
                let k = choose|k: int| N <= k < N + (S - u__u) && e[k]; let i = N + S - 1 - k; assert(f(i)); val_top(f, i as nat, S as nat); p2mono(u__u as nat, i as nat);
            } else { assert forall|i: int| u__u <= i < S implies !#[trigger] f(i) by { assert(!e[N + S - 1 - i]); } val_pad(f, u__u as nat, S as nat); }
        } }
//@end
//@fn mux_circuits/src/and.rs :: make_and_circuit
//@ret r
    requires 1 <= inputs, 2 * inputs < 0xFFFF
    ensures r.nin() == 2 * inputs, r.nout() == inputs, forall|e: Seq<bool>, j: int| e.len() == r.nin() && 0 <= j < inputs ==> #[trigger] r.out(j, e) == (e[2 * j] && e[2 * j + 1])
//@at loop 0
    invariant variable_set.nv() == 2 * inputs, vars@.len() == 2 * inputs, 2 * inputs < 0xFFFF, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), and@.len() == inputs, __hi0_1 == inputs, __i0 <= inputs, (forall|i: int| 0 <= i < inputs ==> (#[trigger] and@[i]).nv() == 2 * inputs),
        forall|j: int, e: Seq<bool>| 0 <= j < __i0 && e.len() == 2 * inputs ==> #[trigger] and@[j].ev(e) == (e[2 * j] && e[2 * j + 1])
    decreases __hi0_1 - __i0
//@at end-bind
    proof { assert(and@[0].nv() == 2 * inputs); }
//@end
//@fn mux_circuits/src/or.rs :: make_or_circuit
//@ret r
    requires 1 <= inputs, 2 * inputs < 0xFFFF
    ensures r.nin() == 2 * inputs, r.nout() == inputs, forall|e: Seq<bool>, j: int| e.len() == r.nin() && 0 <= j < inputs ==> #[trigger] r.out(j, e) == (e[2 * j] || e[2 * j + 1])
//@at loop 0
    invariant variable_set.nv() == 2 * inputs, vars@.len() == 2 * inputs, 2 * inputs < 0xFFFF, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), and@.len() == inputs, __hi0_1 == inputs, __i0 <= inputs, (forall|i: int| 0 <= i < inputs ==> (#[trigger] and@[i]).nv() == 2 * inputs),
        forall|j: int, e: Seq<bool>| 0 <= j < __i0 && e.len() == 2 * inputs ==> #[trigger] and@[j].ev(e) == (e[2 * j] || e[2 * j + 1])
    decreases __hi0_1 - __i0
//@at end-bind
    proof { assert(and@[0].nv() == 2 * inputs); }
//@end
/// one barrel stage
pub open spec fn stage(mode: ShiftMode, dir: ShiftDirection, r0: Seq<Bdd>, n: int, s: int, j: int, e: Seq<bool>) -> bool {
    match mode {
        ShiftMode::Arithmetic => if j >= s { r0[j - s].ev(e) } else { e[0] },
        _ => moved(mode, dir, sb(r0, e), n, s, j),
    }
}
proof fn val_mono(f: spec_fn(int) -> bool, n: nat, m: nat) requires n <= m ensures val(f, n) <= val(f, m) decreases m { if n < m { val_mono(f, n, (m - 1) as nat); } }
} // verus!
fn main() {}
