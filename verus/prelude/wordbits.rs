verus! {
/// bit k of a number
pub open spec fn nbit(v: int) -> spec_fn(int) -> bool { |k: int| (v / (p2(k as nat) as int)) % 2 == 1 }
pub proof fn p2pos(n: nat) ensures p2(n) > 0 decreases n { if n > 0 { p2pos((n - 1) as nat); } }
pub proof fn p2mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b), p2(a) > 0 decreases b { if b > 0 { if a < b { p2mono(a, (b - 1) as nat); } else { p2mono((a - 1) as nat, (b - 1) as nat); } } }
/// the bits of a number recompose to it
pub proof fn bits_of(v: int, n: nat) requires v >= 0 ensures val(nbit(v), n) == v % (p2(n) as int) decreases n {
    if n > 0 { let m = (n - 1) as nat; bits_of(v, m); p2pos(m); let p = p2(m) as int;
        assert(v % (p * 2) == p * ((v / p) % 2) + v % p) by { vstd::arithmetic::div_mod::lemma_breakdown(v, p, 2); }
        assert(2 * p == p * 2);
        let b = (v / p) % 2; vstd::arithmetic::div_mod::lemma_mod_bound(v / p, 2); assert(b == 0 || b == 1);
        assert(b2n(nbit(v)(m as int)) * p == p * b) by (nonlinear_arith) requires b2n(nbit(v)(m as int)) as int == b;
    } else { assert(v % 1 == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(1); } }
}
pub proof fn shr128(x: u128, k: nat) requires k < 128 ensures x >> (k as u128) == x as int / p2(k) as int, ((x >> (k as u128)) & 1 == 1) == nbit(x as int)(k as int) decreases k {
    if k == 0 { assert(x >> 0u128 == x) by (bit_vector); assert(p2(0) == 1); assert(x as int / 1 == x); assert(k as u128 == 0u128); } else {
        shr128(x, (k - 1) as nat); let j = (k - 1) as u128;
        assert((x >> ((j + 1) as u128)) == (x >> j) / 2) by (bit_vector) requires j < 127;
        p2pos((k - 1) as nat); vstd::arithmetic::div_mod::lemma_div_denominator(x as int, p2((k - 1) as nat) as int, 2); let p = p2((k - 1) as nat) as int; assert(p * 2 == p2(k)); assert((j + 1) as u128 == k as u128); assert((x >> j) as int == x as int / p); assert((x as int / p) / 2 == x as int / (p * 2));
    }
    let y = x >> (k as u128); assert((y & 1 == 1) == (y % 2 == 1)) by (bit_vector);
}
pub proof fn shr64(x: u64, k: nat) requires k < 64 ensures ((x >> (k as usize)) & 1 == 1) == nbit(x as int)(k as int) {
    let y = x as u128; let k1 = k as usize; let k2 = k as u128;
    assert(((x >> k1) & 1 == 1) == ((y >> k2) & 1 == 1)) by (bit_vector) requires y == x as u128, k1 < 64, k2 == k1 as u128;
    shr128(x as u128, k);
}
pub proof fn shl64(k: nat) requires k < 64 ensures (1u64 << (k as usize)) == p2(k) decreases k {
    if k == 0 { assert(1u64 << 0usize == 1) by (bit_vector); } else { shl64((k - 1) as nat); let j = (k - 1) as usize; assert((1u64 << ((j + 1) as usize)) == 2 * (1u64 << j)) by (bit_vector) requires j < 63; }
}
pub proof fn shl128(k: nat) requires k < 128 ensures (1u128 << (k as u32)) == p2(k) decreases k {
    if k == 0 { assert(1u128 << 0u32 == 1) by (bit_vector); } else { shl128((k - 1) as nat); let j = (k - 1) as u32; assert((1u128 << ((j + 1) as u32)) == 2 * (1u128 << j)) by (bit_vector) requires j < 127; }
}
pub proof fn p2_128() ensures p2(128) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000, p2(64) == 0x1_0000_0000_0000_0000 { shl64(63); assert(1u64 << 63usize == 0x8000_0000_0000_0000) by (bit_vector); shl128(127); assert(1u128 << 127u32 == 0x8000_0000_0000_0000_0000_0000_0000_0000) by (bit_vector); }
/// masking keeps the low bits
pub proof fn mask128(x: u128, w: nat) requires w < 128 ensures x & ((1u128 << (w as u32)) - 1) as u128 == val(nbit(x as int), w), (1u128 << (w as u32)) >= 1 decreases w {
    shl128(w); p2pos(w);
    if w == 0 { assert(x & ((1u128 << 0u32) - 1) as u128 == 0) by (bit_vector); } else {
        let j = (w - 1) as u32; mask128(x, (w - 1) as nat); shr128(x, (w - 1) as nat); let jj = j as u128; let k = w as u32;
        assert(x & ((1u128 << k) - 1) as u128 == (x & ((1u128 << j) - 1) as u128) + (if (x >> jj) & 1 == 1 { 1u128 << j } else { 0 })) by (bit_vector) requires j < 127, jj == j as u128, k == j + 1;
        assert(0 * p2((w - 1) as nat) == 0 && 1 * p2((w - 1) as nat) == p2((w - 1) as nat)); shl128((w - 1) as nat);
    }
}
pub assume_specification[ u128::overflowing_sub ](a: u128, b: u128) -> (r: (u128, bool)) ensures r.0 as int == (a - b) % (u128::MAX as int + 1), r.1 == (a < b);
//@fn mux_circuits/src/util.rs :: borrowing_sub
//@ret r
    ensures r.0 as int == (lhs - rhs - b2n(borrow)) % (u128::MAX as int + 1), r.1 == (lhs < rhs + b2n(borrow))
//@at start
    proof { let M = u128::MAX as int + 1; vstd::arithmetic::div_mod::lemma_sub_mod_noop(lhs - rhs, b2n(borrow) as int, M); vstd::arithmetic::div_mod::lemma_sub_mod_noop((lhs - rhs) % M, b2n(borrow) as int, M); vstd::arithmetic::div_mod::lemma_mod_twice(lhs - rhs, M);
        if lhs >= rhs { vstd::arithmetic::div_mod::lemma_small_mod((lhs - rhs) as nat, M as nat); } else { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(lhs - rhs, M); vstd::arithmetic::div_mod::lemma_small_mod((lhs - rhs + M) as nat, M as nat); } }
//@end
//@fn mux_circuits/src/util.rs :: arbitrary_width_borrowing_sub
//@ret r
    requires 0 <= width <= 128, lhs < p2(width as nat), rhs < p2(width as nat), borrow <= 1
    ensures r.0 as int == (lhs - rhs - borrow) % (p2(width as nat) as int), r.1 == b2n(lhs < rhs + borrow)
//@at start
    proof { assert forall|y: u128| y & 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff == y by { assert(y & 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff == y) by (bit_vector); } p2_128(); p2pos(width as nat); let d = lhs - rhs - borrow; let M = u128::MAX as int + 1; assert(M == p2(128));
        if width < 128 { shl128(width as nat); let x = (d % M) as u128; mask128(x, width as nat); bits_of(x as int, width as nat); vstd::arithmetic::div_mod::lemma_mod_bound(d, M);
            p2split(width as nat, 128); let t = choose|t: int| p2(128) == #[trigger] (t * p2(width as nat)); p2pos(128); assert(t > 0) by (nonlinear_arith) requires t * p2(width as nat) == p2(128), p2(128) > 0, p2(width as nat) > 0;
            assert(p2(width as nat) * t == t * p2(width as nat)) by (nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_mod_mod(d, p2(width as nat) as int, t); } }
//@end
pub proof fn p2split(u: nat, n: nat) requires u <= n ensures exists|t: int| p2(n) == #[trigger] (t * p2(u)) decreases n { if u == n { assert(p2(n) == 1 * p2(u)); } else { p2split(u, (n - 1) as nat); let t = choose|t: int| p2((n - 1) as nat) == #[trigger] (t * p2(u)); assert(2 * (t * p2(u)) == (2 * t) * p2(u)) by (nonlinear_arith); } }
} // verus!
