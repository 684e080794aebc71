verus! {
pub proof fn p2dbl(w: nat) requires w >= 1 ensures p2(w) == 2 * p2((w - 1) as nat) {}
pub proof fn p2add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases b { if b == 0 { assert(p2(a) * 1 == p2(a)); } else { p2add(a, (b - 1) as nat); assert(a + b - 1 == a + (b - 1)); let x = p2(a); let y = p2((b - 1) as nat); assert(2 * (x * y) == x * (2 * y)) by (nonlinear_arith); } }
pub proof fn p2le128(w: nat) requires w <= 128 ensures 0 < p2(w) <= u128::MAX as int + 1 { p2pos(w); p2mono(w, 128); p2_128(); }
pub open spec fn M128() -> int { (u128::MAX as int + 1) }
/// reducing modulo 2^128 first changes nothing modulo a smaller power of two
pub proof fn mod128(x: int, w: nat) requires w <= 128 ensures (x % M128()) % (p2(w) as int) == x % (p2(w) as int), p2(128) == M128() {
    p2_128(); p2split(w, 128); let t = choose|t: int| p2(128) == #[trigger] (t * p2(w)); p2pos(128); p2pos(w); assert(t > 0) by (nonlinear_arith) requires t * p2(w) == p2(128), p2(128) > 0, p2(w) > 0;
    assert(p2(w) * t == t * p2(w)) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_mod(x, p2(w) as int, t);
}
/// a sum or difference of two words, wrapped once
pub proof fn wrap128(x: int) ensures 0 <= x < M128() ==> x % M128() == x, M128() <= x < 2 * M128() ==> x % M128() == x - M128(), -M128() <= x < 0 ==> x % M128() == x + M128() {
    if 0 <= x < M128() { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, M128() as nat); }
    if M128() <= x < 2 * M128() { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(x - M128(), M128()); vstd::arithmetic::div_mod::lemma_small_mod((x - M128()) as nat, M128() as nat); }
    if -M128() <= x < 0 { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(x, M128()); vstd::arithmetic::div_mod::lemma_small_mod((x + M128()) as nat, M128() as nat); }
}
pub proof fn shr_is(v: u128, s: u128, w: nat) requires v < p2(w), w <= 128 ensures 0 <= v as int / (p2(s as nat) as int) < p2(w), s >= w ==> v as int / (p2(s as nat) as int) == 0, s < w ==> (v >> s) as int == v as int / (p2(s as nat) as int) {
    let P = p2(s as nat) as int; p2pos(s as nat); p2pos(w); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(v as int, P);
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(v as int, 1, P); assert(v as int / 1 == v);
    if s >= w { p2mono(w, s as nat); vstd::arithmetic::div_mod::lemma_basic_div(v as int, P); } else { shr128(v, s as nat); }
}
pub proof fn shl_is(v: u128, s: u128) requires s < 128 ensures (v << s) as int == (v * p2(s as nat)) % M128() decreases s {
    p2_128(); if s == 0 { assert(v << 0u128 == v) by (bit_vector); assert(p2(0) == 1); assert(v * p2(0) == v); vstd::arithmetic::div_mod::lemma_small_mod(v as nat, M128() as nat); } else {
        let t = (s - 1) as u128; shl_is(v, t); assert((v << s) == mul2(v << t)) by { let u = v << t; assert((v << s) == u << 1u128) by (bit_vector) requires u == v << t, s == t + 1, s < 128; assert((u << 1u128) == (if u < 0x8000_0000_0000_0000_0000_0000_0000_0000 { (u * 2) as u128 } else { ((u - 0x8000_0000_0000_0000_0000_0000_0000_0000) * 2) as u128 })) by (bit_vector); }
        let q = v * p2(t as nat); assert(v * p2(s as nat) == 2 * q) by (nonlinear_arith) requires p2(s as nat) == 2 * p2(t as nat), q == v * p2(t as nat);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(2, q as int, M128()); let u = q as int % M128(); assert((2 * u) % M128() == (2 * (q as int)) % M128());
        if 2 * u < M128() { vstd::arithmetic::div_mod::lemma_small_mod((2 * u) as nat, M128() as nat); } else { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, 2 * u - M128(), M128()); assert(M128() * 1 + (2 * u - M128()) == 2 * u); vstd::arithmetic::div_mod::lemma_small_mod((2 * u - M128()) as nat, M128() as nat); }
    }
}
pub open spec fn mul2(u: u128) -> u128 { if u < 0x8000_0000_0000_0000_0000_0000_0000_0000 { (u * 2) as u128 } else { ((u - 0x8000_0000_0000_0000_0000_0000_0000_0000) * 2) as u128 } }
/// a mask of `w` bits keeps what fits
pub proof fn maskid(x: u128, w: nat) requires w <= 128, x < p2(w) ensures x & ((p2(w) - 1) as u128) == x { p2le128(w); p2_128(); if w < 128 { shl128(w); mask128(x, w); bits_of(x as int, w); vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p2(w)); } else { assert(x & 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff == x) by (bit_vector); } }
} // verus!
