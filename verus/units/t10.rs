//@include ../prelude/lwe.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@all "S::BITS" => "WORD::BITS"
verus! {
/// x (shifted left by chi first) rounded to the grid of step 2^(BITS - (lm - lv)), kept to lm bits, as a multiple of 2^lv
pub open spec fn switched(x: WORD, chi: int, lv: int, lm: int) -> int {
    (rnd(md(x * pow2(chi as nat)) as int, (W() - (lm - lv)) as nat) % (pow2(lm as nat) as int)) * pow2(lv as nat)
}
pub open spec fn ms_ok(chi: int, lv: int, lm: int) -> bool { 0 <= chi < W() && 0 <= lv < lm && lm < W() }
proof fn ms_bits(x: WORD, y: WORD, chi: usize, lv: usize, lm: usize)
    requires ms_ok(chi as int, lv as int, lm as int), y == x << chi
    ensures ({ let sh = (WBITS - (lm - lv)) as usize; let r = wadd(y >> sh, (y >> ((sh - 1) as usize)) & 1); let mask = (pow2(lm as nat) - 1) as WORD;
        (1 as WORD) << lm == pow2(lm as nat) && pow2(lm as nat) >= 1 && ((r & mask) << lv) == switched(x, chi as int, lv as int, lm as int) && 1 <= sh < WBITS })
{
    let sh = (WBITS - (lm - lv)) as usize; pw(); pw_lt(lm as nat); pw_lt(chi as nat); pw_lt(lv as nat);
    one_shl(lm as WORD); assert((1 as WORD) << lm == (1 as WORD) << (lm as WORD)) by (bit_vector) requires lm < WBITS;
    shl_md(x, chi);
    rnd_bits(y, sh); let r = wadd(y >> sh, (y >> ((sh - 1) as usize)) & 1); let mask = (pow2(lm as nat) - 1) as WORD;
    lemma_low_bits_mask_values(); lemma_WORD_low_bits_mask_is_mod(r, lm as nat); assert(low_bits_mask(lm as nat) == mask);
    let t = r & mask; assert(t <= r) by (bit_vector) requires t == r & mask;
    lemma_pow2_adds((lm - lv) as nat, lv as nat); lemma_pow2_pos(lv as nat);
    let (a, b) = (pow2((lm - lv) as nat) as int, pow2(lv as nat) as int); assert(t * b <= a * b) by (nonlinear_arith) requires t <= a, b >= 0;
    assert(t << lv == t << (lv as WORD)) by (bit_vector) requires lv < WBITS; lemma_WORD_shl_is_mul(t, lv as WORD);
}
proof fn shl_md(x: WORD, c: usize) requires c < WBITS ensures (x << c) == md(x * pow2(c as nat))
{
    // x << c == (x mod 2^(BITS-c)) * 2^c
    pw(); lemma_pow2_pos(c as nat); lemma_pow2_pos((WBITS - c) as nat); lemma_pow2_adds((WBITS - c) as nat, c as nat); pw_lt(c as nat);
    let (p, t) = (pow2(c as nat) as int, pow2((WBITS - c) as nat) as int);
    if c == 0 { assert(x << 0usize == x) by (bit_vector); assert(x * 1 == x); } else {
        pw_lt((WBITS - c) as nat); let k = (WBITS - c) as usize; let m = (t - 1) as WORD;
        lemma_low_bits_mask_values(); lemma_WORD_low_bits_mask_is_mod(x, k as nat); assert(low_bits_mask(k as nat) == m);
        one_shl(k as WORD); assert((1 as WORD) << k == (1 as WORD) << (k as WORD)) by (bit_vector) requires k < WBITS;
        let lo = x & m; assert(x << c == lo << c) by (bit_vector) requires lo == x & m, m == sub((1 as WORD) << k, 1), k == WBITS - c, 0 < c < WBITS;
        assert(lo << c == lo << (c as WORD)) by (bit_vector) requires c < WBITS;
        assert(lo * p <= M() - p) by (nonlinear_arith) requires lo <= t - 1, t * p == M(), p >= 0; lemma_WORD_shl_is_mul(lo, c as WORD);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, t); let q = x as int / t;
        assert(x * p == lo * p + M() * q) by (nonlinear_arith) requires x == t * q + lo, t * p == M(); md_shift(lo * p, q); vstd::arithmetic::div_mod::lemma_small_mod((lo * p) as nat, M() as nat);
    }
}
//@fn sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs :: modulus_switch
//@byref
//@sub "<S as sunscreen_math::One>::one()" => "(1 as WORD)"
    requires ms_ok(log_chi as int, log_v as int, log_modulus as int)
    ensures ret == switched(x, log_chi as int, log_v as int, log_modulus as int)
//@at start
    proof { ms_bits(x, x << log_chi, log_chi, log_v, log_modulus); }
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs :: lwe_ciphertext_modulus_switch
//@slice c_a mut
    requires old(ct).wf(params.dim.0 as int), ms_ok(log_chi as int, log_v as int, log_modulus as int)
    ensures final(ct).wf(params.dim.0 as int), forall|i: int| 0 <= i <= params.dim.0 ==> (#[trigger] final(ct).data@[i]).0 == switched(old(ct).data@[i].0, log_chi as int, log_v as int, log_modulus as int)
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __n0 == params.dim.0, c0 == old(ct).data@.subrange(0, __n0 as int), __s0_0@.len() == __n0, c0.len() == __n0, __i0 <= __n0, ms_ok(log_chi as int, log_v as int, log_modulus as int),
        forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0_0@[j]).0 == if j < __i0 { switched(c0[j].0, log_chi as int, log_v as int, log_modulus as int) } else { c0[j].0 as int }
    decreases __n0 - __i0
//@end
/// T10: with chi = v = 0 the result is x/step rounded to nearest, modulo 2^lm: x moves by at most half a step.
proof fn half_step(x: WORD, lm: int)
    requires 1 <= lm < W()
    ensures ({ let g = switched(x, 0, 0, lm); let step = pow2((W() - lm) as nat) as int; let m = pow2(lm as nat) as int;
        0 <= g < m && exists|q: int| -step <= 2 * (x - (g + q * m) * step) <= step && 0 <= q <= 1 && #[trigger] (q * m) == q * m })
{
    pw(); lemma_pow2_adds((W() - lm) as nat, lm as nat); let sh = (W() - lm) as nat; let (p, m) = (pow2(sh) as int, pow2(lm as nat) as int); lemma_pow2_unfold(sh); lemma_pow2_pos((sh - 1) as nat); lemma_pow2_pos(lm as nat);
    assert(x * 1 == x); vstd::arithmetic::div_mod::lemma_small_mod(x as nat, M() as nat);
    let h = pow2((sh - 1) as nat) as int; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x + h, p); let n = rnd(x as int, sh); let r = (x + h) % p;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, m); let g = n % m; let q = n / m;
    assert(m * q == q * m) by (nonlinear_arith); assert(p * n == n * p) by (nonlinear_arith); assert(x - n * p == r - h);
    assert(0 <= n <= m) by (nonlinear_arith) requires n * p == x + h - r, 0 <= r < p, 0 <= x, 0 <= h < p, x < m * p, p == 2 * h, p > 0, m > 0;
    assert(0 <= q <= 1) by (nonlinear_arith) requires n == q * m + g, 0 <= g < m, 0 <= n <= m;
    assert(switched(x, 0, 0, lm) == g * 1); assert((g + q * m) * p == n * p);
}
} // verus!
fn main() {}
