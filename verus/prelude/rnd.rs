verus! {
/// nearest integer to x / 2^shift (ties up)
pub open spec fn rnd(x: int, shift: nat) -> int { if shift == 0 { x } else { (x + pow2((shift - 1) as nat)) / (pow2(shift) as int) } }
pub proof fn rnd_bits(x: WORD, sh: usize)
    requires 1 <= sh < WBITS
    ensures (x >> ((sh - 1) as usize)) & 1 <= 1, wadd(x >> sh, (x >> ((sh - 1) as usize)) & 1) == rnd(x as int, sh as nat), rnd(x as int, sh as nat) <= pow2((WBITS - sh) as nat)
{
    let s1 = (sh - 1) as usize;
    pw(); pw_lt(sh as nat); pw_lt(s1 as nat); lemma_pow2_unfold(sh as nat); lemma_pow2_adds(sh as nat, (WBITS - sh) as nat);
    assert(x >> sh == x >> (sh as WORD)) by (bit_vector) requires sh < WBITS;
    assert(x >> s1 == x >> (s1 as WORD)) by (bit_vector) requires s1 < WBITS;
    lemma_WORD_shr_is_div(x, sh as WORD); lemma_WORD_shr_is_div(x, s1 as WORD);
    let (h, p) = (pow2(s1 as nat) as int, pow2(sh as nat) as int);
    let y = x >> s1;
    assert(y & 1 == y % 2) by (bit_vector);
    vstd::arithmetic::div_mod::lemma_div_denominator(x as int, h, 2);
    let q = (x as int) / p; let r = (x as int) % p; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, p);
    assert((x as int) / h / 2 == q);
    let b = (x as int) / h - 2 * q;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, h); let r2 = (x as int) % h;
    assert(x == h * (2 * q + b) + r2); assert(h * (2 * q + b) == p * q + h * b) by (nonlinear_arith) requires p == 2 * h;
    assert((x + h) == p * q + (h * b + r2 + h)); assert(p * q == q * p) by (nonlinear_arith); assert((q + 1) * p == q * p + p) by (nonlinear_arith); assert(b == 0 || b == 1);
    if b == 0 { assert(h * b == 0) by (nonlinear_arith) requires b == 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + h, p, q, r2 + h); }
    else { assert(h * b == h) by (nonlinear_arith) requires b == 1; assert(p * (q + 1) == p * q + p) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + h, p, q + 1, r2); }
    let top = pow2((WBITS - sh) as nat) as int; assert(q < top) by (nonlinear_arith) requires p * q <= x, x < p * top, p > 0;
}
} // verus!
