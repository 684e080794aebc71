verus! {
pub proof fn digit_bits(c: WORD, l: usize)
    requires 1 <= l < WBITS
    ensures ({ let m = (pow2(l as nat) - 1) as WORD; let d0 = c & m; let carry = d0 >> ((l - 1) as usize); let nx = (c >> l) + carry; let d = wsub(d0, carry << l);
        &&& pow2(l as nat) >= 2 &&& nx <= WORD::MAX &&& c == nx * pow2(l as nat) + sd(d) &&& -(pow2((l - 1) as nat) as int) <= sd(d) < pow2((l - 1) as nat) &&& nx <= c / (pow2(l as nat) as WORD) + 1 })
{
    let (b, h) = (pow2(l as nat) as int, pow2((l - 1) as nat) as int);
    pw(); pw_lt(l as nat); pw_lt((l - 1) as nat); lemma_pow2_unfold(l as nat); lemma_pow2_pos((l - 1) as nat);
    let m = (b - 1) as WORD; let l1 = (l - 1) as usize;
    one_shl(l as WORD);
    let lw = l as WORD; lemma_low_bits_mask_values(); lemma_WORD_low_bits_mask_is_mod(c, l as nat); assert(low_bits_mask(l as nat) == b - 1);
    let d0 = c & m; assert(d0 == c as int % b);
    assert(c >> l == c >> (l as WORD)) by (bit_vector) requires l < WBITS; lemma_WORD_shr_is_div(c, l as WORD);
    assert(d0 >> l1 == d0 >> (l1 as WORD)) by (bit_vector) requires l1 < WBITS; lemma_WORD_shr_is_div(d0, l1 as WORD);
    let carry = d0 >> l1; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d0 as int, h);
    assert(carry <= 1) by (nonlinear_arith) requires carry == d0 as int / h, d0 < 2 * h, h > 0;
    if d0 < h { vstd::arithmetic::div_mod::lemma_basic_div(d0 as int, h); assert(carry == 0); assert((0 as WORD) << l == 0) by (bit_vector) requires l < WBITS; }
    else { assert(carry == 1) by (nonlinear_arith) requires carry == d0 as int / h, d0 as int >= h, d0 < 2 * h, h > 0; assert((1 as WORD) << l == (1 as WORD) << lw) by (bit_vector) requires lw == l, l < WBITS; }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c as int, b); let q = c as int / b;
    assert(2 * q <= c) by (nonlinear_arith) requires b * q <= c, b >= 2, q >= 0;
    assert((q + 1) * b == q * b + b) by (nonlinear_arith); assert(q * b == b * q) by (nonlinear_arith);
    assert(c <= WORD::MAX); assert(q + carry <= WORD::MAX);
}
pub proof fn small_cur(c: WORD, nx: WORD, l: nat, rest: nat) requires 1 <= l < WBITS, c <= pow2(l + rest), nx * pow2(l) <= c + pow2((l - 1) as nat) ensures nx <= pow2(rest)
{ lemma_pow2_adds(l, rest); lemma_pow2_pos(rest); lemma_pow2_unfold(l); lemma_pow2_pos((l - 1) as nat); let (b, r, h) = (pow2(l) as int, pow2(rest) as int, pow2((l - 1) as nat) as int); assert(nx <= r) by (nonlinear_arith) requires nx * b <= b * r + h, b == 2 * h, h >= 1; }
pub proof fn round_err(x: int, sh: nat) requires 0 <= x < M(), sh < WBITS ensures 2 * (rnd(x, sh) * pow2(sh) - x) <= pow2(sh), 2 * (x - rnd(x, sh) * pow2(sh)) <= pow2(sh), sh == 0 ==> rnd(x, sh) * pow2(sh) == x
{ pw(); if sh > 0 { lemma_pow2_unfold(sh); lemma_pow2_pos((sh - 1) as nat); let (p, h) = (pow2(sh) as int, pow2((sh - 1) as nat) as int); let q = (x + h) / p; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x + h, p); assert(q * p == p * q) by (nonlinear_arith); } else { assert(pow2(sh) == 1); assert(x * 1 == x); } }
/// what remains of a rounded word after t digits have been taken from it
pub open spec fn rst(c: WORD, l: usize, t: int) -> WORD decreases t { if t <= 0 { c } else { rest_of(rst(c, l, t - 1), l) } }
/// sum_{t<m} d_t B^t of the digits taken from c
pub open spec fn dsum(c: WORD, l: usize, m: int) -> int decreases m { if m <= 0 { 0 } else { dsum(c, l, m - 1) + sd(digit_of(rst(c, l, m - 1), l)) * pow2((l * (m - 1)) as nat) } }
pub proof fn dsum_tele(c: WORD, l: usize, m: int, cnt: int) requires 1 <= l < WBITS, 0 <= m <= cnt, c <= pow2((l * cnt) as nat) ensures c == rst(c, l, m) * pow2((l * m) as nat) + dsum(c, l, m), rst(c, l, m) <= pow2((l * (cnt - m)) as nat) decreases m
{
    if m <= 0 { assert(l * 0 == 0); pw(); assert(c * 1 == c); } else {
        let t = m - 1; dsum_tele(c, l, t, cnt); let x = rst(c, l, t); digit_bits(x, l); let nx = rest_of(x, l); assert(nx == rst(c, l, m));
        assert(l * m == l + l * t) by (nonlinear_arith) requires t == m - 1; assert(l * t >= 0) by (nonlinear_arith) requires l >= 0, t >= 0; lemma_pow2_adds(l as nat, (l * t) as nat);
        let (b, p, e) = (pow2(l as nat) as int, pow2((l * t) as nat) as int, sd(digit_of(x, l))); assert((nx * b + e) * p == nx * (b * p) + e * p) by (nonlinear_arith);
        let rest = l * (cnt - m); assert(l * (cnt - t) == l + rest) by (nonlinear_arith) requires rest == l * (cnt - m), t == m - 1; assert(rest >= 0) by (nonlinear_arith) requires rest == l * (cnt - m), l >= 0, cnt >= m;
        small_cur(x, nx, l as nat, rest as nat);
    }
}
/// the digits of x, weighted by the gadget factors 2^(W - l (cnt - t))
pub open spec fn closest(x: WORD, r: RadixDecomposition) -> int { dsum(rnd(x as int, (W() - r.radix_log.0 * r.count.0) as nat) as WORD, r.radix_log.0, r.count.0 as int) * pow2((W() - r.radix_log.0 * r.count.0) as nat) }
/// ... differ from x, modulo the word, by at most half of the smallest factor
pub proof fn closest_err(x: WORD, r: RadixDecomposition) -> (carry: int)
    requires r.ok(), r.radix_log.0 * r.count.0 < W()
    ensures ({ let sh = (W() - r.radix_log.0 * r.count.0) as nat; let e = closest(x, r) - x + carry * M(); 2 * e <= pow2(sh) && -2 * e <= pow2(sh) })
{
    let (l, k) = (r.radix_log.0, r.count.0 as int); let sh = (W() - l * k) as nat; pw(); assert(l * k >= 1) by (nonlinear_arith) requires l >= 1, k >= 1; rnd_bits(x, sh as usize); let s0 = rnd(x as int, sh) as WORD;
    pw_lt((l * k) as nat); dsum_tele(s0, l, k, k); round_err(x as int, sh); lemma_pow2_adds((l * k) as nat, sh);
    let (p, q, c, w) = (pow2((l * k) as nat) as int, pow2(sh) as int, rst(s0, l, k) as int, dsum(s0, l, k)); assert((c * p + w) * q == c * (p * q) + w * q) by (nonlinear_arith); c
}
} // verus!
