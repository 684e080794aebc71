verus! {
pub assume_specification[ usize::ilog2 ](x: usize) -> (r: u32) requires x >= 1 ensures r < usize::BITS, pow2(r as nat) <= x < pow2((r + 1) as nat);
/// the least power of two that is at least v, searched from c
pub open spec fn cpf(c: int, v: int) -> int decreases (if v > c { v - c } else { 0 }) { if c >= v || c <= 0 { c } else { cpf(2 * c, v) } }
pub open spec fn cpow(v: int) -> int { cpf(1, v) }
pub proof fn cpf_is(k: nat, c: int, v: int)
    requires ispow2(c), pow2(k) <= c, v <= c < 2 * v ensures cpf(pow2(k) as int, v) == c
    decreases c - pow2(k)
{
    lemma_pow2_pos(k); let m = choose|m: nat| pow2(m) == c; lemma_pow2_unfold((k + 1) as nat);
    if k < m { lemma_pow2_strictly_increases(k, m); if k + 1 < m { lemma_pow2_strictly_increases((k + 1) as nat, m); } lemma_pow2_unfold(m); if pow2(k) >= v { if k + 1 < m { } assert(2 * pow2(k) <= c); assert(false) by { assert(c < 2 * v); } } cpf_is((k + 1) as nat, c, v); }
    else if m < k { lemma_pow2_strictly_increases(m, k); }
}
/// r is a value map f may return for x
pub open spec fn gives<F: Fn(u64) -> u64>(f: F, x: int, r: u64) -> bool { f.ensures((x as u64,), r) }
pub open spec fn maps_ok<F: Fn(u64) -> u64>(maps: Seq<F>, p: int) -> bool {
    forall|f: int, x: u64| 0 <= f < maps.len() && x < p ==> #[trigger] maps[f].requires((x,)) && forall|r: u64| #[trigger] maps[f].ensures((x,), r) ==> r < p
}
/// the word t is the encoding (step 2^(BITS - w)) of what function number k mod 2^ceil(log2(#maps)) gives for message x; zero for the padding functions
pub open spec fn cell<F: Fn(u64) -> u64>(maps: Seq<F>, w: int, x: int, k: int, t: WORD) -> bool {
    let f = k % cpow(maps.len() as int);
    if f < maps.len() { exists|r: u64| #[trigger] gives(maps[f], x, r) && t == md(r * pow2((W() - w) as nat)) } else { t == 0 }
}
/// table position i, read in the ring with X^N = -1, belongs to message (i + half) / stride; the first half window of message 0 wraps around negated
pub open spec fn table_at<F: Fn(u64) -> u64>(o: Seq<Torus<WORD>>, maps: Seq<F>, n: int, w: int, i: int) -> bool {
    let stride = n / (pow2(w as nat) as int); let s = i + stride / 2;
    if s < n { cell(maps, w, s / stride, s % stride, o[i].0) } else { cell(maps, w, 0, s - n, wneg(o[i].0)) }
}
pub open spec fn table_ok<F: Fn(u64) -> u64>(o: Seq<Torus<WORD>>, maps: Seq<F>, n: int, w: int) -> bool { o.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] table_at(o, maps, n, w, i) }
pub open spec fn lut_pre(n: int, w: int) -> bool { 1 <= w < 31 && w < WBITS && n % (pow2(w as nat) as int) == 0 && n >= pow2(w as nat) }
proof fn stride_facts(n: int, p: int) requires p >= 1, n >= p, n % p == 0 ensures n / p >= 1, p * (n / p) == n, (n / p) * p == n
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, p); assert((n / p) >= 1) by (nonlinear_arith) requires n == p * (n / p), n >= p, p >= 1; assert((n / p) * p == p * (n / p)) by (nonlinear_arith); }
proof fn lv_facts(v: int) requires 1 <= v <= isize::MAX
    ensures forall|l: nat| #![trigger pow2(l)] pow2(l) <= v < pow2((l + 1) as nat) ==> l < 63 && (if ispow2(v) { pow2(l) == cpow(v) } else { pow2((l + 1) as nat) == cpow(v) }) && cpow(v) >= 1
{
    assert forall|l: nat| #![trigger pow2(l)] pow2(l) <= v < pow2((l + 1) as nat) implies l < 63 && (if ispow2(v) { pow2(l) == cpow(v) } else { pow2((l + 1) as nat) == cpow(v) }) && cpow(v) >= 1 by {
        lemma2_to64(); lemma2_to64_rest(); if l >= 63 { if l > 63 { lemma_pow2_strictly_increases(63, l); } }
        lemma_pow2_unfold((l + 1) as nat); lemma_pow2_pos(l);
        if ispow2(v) { let m = choose|m: nat| pow2(m) == v; if l < m { if l + 1 < m { lemma_pow2_strictly_increases((l + 1) as nat, m); } } else if m < l { lemma_pow2_strictly_increases(m, l); } cpf_is(0, v, v); }
        else { assert(pow2(l) != v); let c = pow2((l + 1) as nat) as int; assert(ispow2(c)); cpf_is(0, c, v); }
    }
}
proof fn word_enc(r: u64, w: u32) requires 1 <= w < WBITS, r < pow2(w as nat), w < 64
    ensures ((r << ((WBITS - w) as u32)) as int) == r * pow2((WBITS - w) as nat), r * pow2((WBITS - w) as nat) < M()
{
    let d = (WBITS - w) as u32; lemma_pow2_adds(w as nat, d as nat); pw(); lemma_pow2_pos(d as nat);
    assert((r + 1) * pow2(d as nat) <= pow2(w as nat) * pow2(d as nat)) by (nonlinear_arith) requires r + 1 <= pow2(w as nat);
    assert(r * pow2(d as nat) <= (r + 1) * pow2(d as nat) - pow2(d as nat)) by (nonlinear_arith);
    vstd::bits::lemma_u64_shl_is_mul(r, d as u64); assert(r << d == r << (d as u64)) by (bit_vector) requires d < 64;
}
/// maps[i](x)
pub fn call1<F: Fn(u64) -> u64>(maps: &[F], i: usize, x: u64) -> (r: u64) requires i < maps@.len(), maps@[i as int].requires((x,)) ensures maps@[i as int].ensures((x,), r), gives(maps@[i as int], x as int, r), forall|p: int| #[trigger] maps_ok(maps@, p) && x < p ==> r < p { maps[i](x) }
pub fn tneg(c: &Torus<WORD>) -> (r: Torus<WORD>) ensures r.0 == wneg(c.0) { Torus(c.0.w_neg()) }
proof fn one_shl_i32(w: u32) requires w < 31 ensures 1i32 << w == pow2(w as nat), 1 <= pow2(w as nat) <= 0x4000_0000
{
    lemma2_to64(); lemma_pow2_pos(w as nat); if w < 30 { lemma_pow2_strictly_increases(w as nat, 30); }
    vstd::bits::lemma_u32_shl_is_mul(1, w as u32); assert(1i32 << w == (1u32 << w) as i32 && 1u32 << w <= 0x4000_0000u32) by (bit_vector) requires w < 31;
}
proof fn one_shl_us() ensures forall|l: u32| l < 64 ==> #[trigger] (1usize << l) == pow2(l as nat)
{
    assert forall|l: u32| l < 64 implies #[trigger] (1usize << l) == pow2(l as nat) by {
        lemma2_to64(); lemma2_to64_rest(); if l < 63 { lemma_pow2_strictly_increases(l as nat, 63); }
        vstd::bits::lemma_u64_shl_is_mul(1, l as u64); assert(1u64 << (l as u64) == pow2(l as nat)); assert(1usize << l == (1u64 << (l as u64)) as usize) by (bit_vector) requires l < 64; assert((1u64 << (l as u64)) as usize == pow2(l as nat));
    }
}
proof fn cellpos(j: int, k: int, stride: int) requires 0 <= k < stride, j >= 0 ensures (j * stride + k) / stride == j, (j * stride + k) % stride == k
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j * stride + k, stride, j, k); }
proof fn lut_done<F: Fn(u64) -> u64>(c1: Seq<Torus<WORD>>, c2: Seq<Torus<WORD>>, c: Seq<Torus<WORD>>, ms: Seq<F>, n: int, w: int, sd: int)
    requires w >= 1, n >= 1, sd == n / (pow2(w as nat) as int), 1 <= sd <= n, c1.len() == n, c2.len() == n, c == c2.subrange(sd / 2, n) + c2.subrange(0, sd / 2),
        forall|s: int| 0 <= s < n ==> #[trigger] cell(ms, w, s / sd, s % sd, c1[s].0), c2.subrange(sd / 2, n) == c1.subrange(sd / 2, n),
        forall|j: int| 0 <= j < sd / 2 ==> (#[trigger] c2.subrange(0, sd / 2)[j]).0 == wneg(c1[j].0)
    ensures table_ok(c, ms, n, w)
{
    let half = sd / 2;
    assert forall|i: int| 0 <= i < n implies #[trigger] table_at(c, ms, n, w, i) by {
        let s = i + half;
        if s < n { assert(c[i] == c2.subrange(half, n)[i] && c1.subrange(half, n)[i] == c1[s]); assert(cell(ms, w, s / sd, s % sd, c1[s].0)); }
        else { let s0 = s - n; assert(c[i] == c2.subrange(0, half)[s0]); cellpos(0, s0, sd); assert(cell(ms, w, s0 / sd, s0 % sd, c1[s0].0)); assert(wneg(c[i].0) == c1[s0].0); }
    }
}
//@fn sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs :: generate_lut
//@sig fn generate_lut<F: Fn(u64) -> u64>(output: &mut TP, maps: &[F], params: &GlweDef, plaintext_bits: PlaintextBits)
//@presub "num::traits::WrappingNeg::wrapping_neg(" => "tneg("
//@sub "maps[fn_id](p_i_unmapped as u64)" => "call1(maps, fn_id, p_i_unmapped as u64)"
    requires lut_pre(params.n(), plaintext_bits.0 as int), 1 <= maps@.len() <= isize::MAX, maps_ok(maps@, pow2(plaintext_bits.0 as nat) as int), old(output).data@.len() == params.n()
    ensures table_ok(final(output).data@, maps@, params.n(), plaintext_bits.0 as int)
//@at start
    let ghost w = plaintext_bits.0 as int; let ghost nn = params.n(); let ghost pp = pow2(plaintext_bits.0 as nat) as int; let ghost sd = nn / pp; let ghost ms = maps@;
    proof { one_shl_i32(plaintext_bits.0); stride_facts(nn, pp); lv_facts(maps@.len() as int); one_shl_us(); }
//@at init 0
    proof { assert(p == pp && stride == sd); }
    let ghost cv = ceil_v as int;
    proof { assert(cv == cpow(ms.len() as int) && cv >= 1); assert forall|r: u64| r < pp implies (#[trigger] (r << delta)) == md(r * pow2((W() - w) as nat)) && (r << delta) < M() by { word_enc(r, plaintext_bits.0); vstd::arithmetic::div_mod::lemma_small_mod((r * pow2((WBITS - w) as nat)) as nat, M() as nat); } }
//@at loop 0
    invariant __n0 == pp, __lo0_0 == 0, 0 <= __i0 <= __n0, n == nn, p == pp, stride == sd, sd >= 1, pp * sd == nn, pp >= 1, w == plaintext_bits.0, 1 <= w < 31, w < WBITS, pp == pow2(w as nat), delta == WBITS - w,
        ms == maps@, v == ms.len(), v >= 1, ceil_v == cpow(v as int), ceil_v >= 1, maps_ok(ms, pp), c@.len() == nn,
        forall|r: u64| r < pp ==> (#[trigger] (r << delta)) == md(r * pow2((W() - w) as nat)) && (r << delta) < M(),
        forall|s: int| 0 <= s < __i0 * sd ==> #[trigger] cell(ms, w, s / sd, s % sd, c@[s].0)
    decreases __n0 - __i0
//@at start 0
    proof { assert((__i0 - 1) * sd + sd == __i0 * sd && 0 <= (__i0 - 1) * sd && __i0 * sd <= pp * sd) by (nonlinear_arith) requires 1 <= __i0 <= pp, sd >= 1; }
    let ghost c0 = c@; let ghost b = (__i0 - 1) * sd;
//@at loop 1
    invariant __n1 == sd, __s1_0@.len() == sd, 0 <= __i1 <= __n1, p == pp, pp == pow2(w as nat), w == plaintext_bits.0, 1 <= w < 31, w < WBITS, delta == WBITS - w, ms == maps@, v == ms.len(), v >= 1, ceil_v == cpow(v as int), ceil_v >= 1, maps_ok(ms, pp),
        0 <= p_i_unmapped < pp, forall|r: u64| r < pp ==> (#[trigger] (r << delta)) == md(r * pow2((W() - w) as nat)) && (r << delta) < M(),
        forall|k: int| 0 <= k < __i1 ==> #[trigger] cell(ms, w, p_i_unmapped as int, k, __s1_0@[k].0)
    decreases __n1 - __i1
//@at end 1
    proof { assert(k == __i1 - 1); assert(fn_id as int == k as int % cpow(ms.len() as int)); if fn_id < v { assert(exists|r: u64| #[trigger] gives(ms[fn_id as int], p_i_unmapped as int, r)); assert(exists|r: u64| #[trigger] gives(ms[fn_id as int], p_i_unmapped as int, r) && c.0 == md(r * pow2((W() - w) as nat))); } else { assert(c.0 == 0); } assert(cell(ms, w, p_i_unmapped as int, __i1 - 1, __s1_0@[__i1 - 1].0)); }
//@at after 1
    proof {
        assert forall|s: int| 0 <= s < __i0 * sd implies #[trigger] cell(ms, w, s / sd, s % sd, c@[s].0) by {
            if s < b { assert(c@[s] == c0[s]); assert(cell(ms, w, s / sd, s % sd, c0[s].0)); } else { cellpos(__i0 - 1, s - b, sd); }
        }
    }
//@at after 0
    let ghost c1 = c@; let ghost half = sd / 2;
    proof { assert(__i0 * sd == nn); assert(half <= nn) by (nonlinear_arith) requires half <= sd, pp >= 1, pp * sd == nn, sd >= 1; }
//@at init 2
    let ghost s0 = __s2_0@;
//@at loop 2
    invariant __n2 == half, __s2_0@.len() == half, s0.len() == half, 0 <= __i2 <= __n2,
        forall|j: int| 0 <= j < half ==> (#[trigger] __s2_0@[j]).0 == if j < __i2 { wneg(s0[j].0) } else { s0[j].0 }
    decreases __n2 - __i2
//@at after 2
    let ghost c2 = c@;
    proof { assert(c2.len() == nn); assert(c2.subrange(0, half) =~= __s2_0@); assert(c2.subrange(half, nn) =~= c1.subrange(half, nn)); assert(s0 =~= c1.subrange(0, half)); }
//@at end
    proof { lut_done(c1, c2, c@, ms, nn, w, sd); }
//@end
} // verus!
