//@include ../prelude/lwe.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@include ../prelude/encode.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
//@include ../prelude/poly.rs
//@include ../prelude/polyops.rs
//@include ../prelude/conv.rs
//@include ../prelude/mono.rs
//@include ../prelude/glwe.rs
//@include ../prelude/sums.rs
//@include ../prelude/gphase.rs
//@include ../prelude/encrypt.rs
//@include ../prelude/decomp.rs
//@include ../prelude/glweops.rs
//@include ../prelude/lweops.rs
//@include ../prelude/lwephase.rs
//@include ../prelude/ent_glwe.rs
//@include ../prelude/ent_lwe.rs
//@include ../prelude/digits.rs
//@include ../prelude/gadget.rs
//@iter rows_mut rows_mut_at rows_count
//@iter lwe_ciphertexts_mut lwe_ciphertexts_mut_at lwe_ciphertexts_count
fn main() {}
verus! {
pub proof fn rows_nz(d: int, cnt: int) requires d >= 0, cnt >= 1 ensures (d + 1) * cnt >= 1 { assert((d + 1) * cnt >= 1) by (nonlinear_arith) requires d >= 0, cnt >= 1; }
#[verifier::external_body] pub fn zero_lwe(p: &LweDef) -> (r: &'static mut LweCiphertextRef<WORD>) ensures r.wf(p.dim.0 as int), forall|i: int| 0 <= i < r.data@.len() ==> (#[trigger] r.data@[i]).0 == 0 { unimplemented!() }
#[verifier::external_body] pub fn single(x: Torus<WORD>) -> (r: &'static PolynomialRef<Torus<WORD>>) ensures r.data@ == seq![x] { unimplemented!() }
/// word x of sum_{t<m} digit_t * row_{cnt-1-t}
pub open spec fn lsum(b: Seq<Torus<WORD>>, sc: WORD, l: usize, n1: int, cnt: int, x: int, m: int) -> int decreases m
{ if m <= 0 { 0 } else { lsum(b, sc, l, n1, cnt, x, m - 1) + comp(b, cnt - m, n1)[x].0 * digit_of(rst(sc, l, m - 1), l) } }
//@fn sunscreen_tfhe/src/ops/ciphertext/lev_ciphertext_ops.rs :: decomposed_scalar_lev_mad
//@slice b_lwe chunk len
//@sub "let mut cur_radix: Polynomial<S> = Polynomial::zero" => "let cur_radix = zero_digits"
//@sub "&mut cur_radix" => "cur_radix"
    requires params.dim.0 < usize::MAX, old(c).wf(params.dim.0 as int), a.level == 0, a.radix.ok(), a.scratch.data@.len() == 1, b.wf(params, a.radix.count.0 as int)
    ensures final(c).wf(params.dim.0 as int), final(a.scratch).data@.len() == 1,
        forall|x: int| 0 <= x <= params.dim.0 ==> (#[trigger] final(c).data@[x]).0 == md(old(c).data@[x].0 + lsum(b.data@, old(a.scratch).data@[0], a.radix.radix_log.0, params.dim.0 + 1, a.radix.count.0 as int, x, a.radix.count.0 as int))
//@at start
    let ghost (n1, cnt, l) = (params.dim.0 + 1, a.radix.count.0 as int, a.radix.radix_log.0); let ghost (c0, sc, bd, fs) = (c.data@, a.scratch.data@[0], b.data@, final(a.scratch).data@);
    proof { div_mul(n1, cnt); }
//@at loop 0
    invariant n1 == params.dim.0 + 1, params.dim.0 < usize::MAX, __n0 == cnt, __i0 <= __n0, b_lwe.stride == n1, b_lwe.data@ == bd, bd.len() == n1 * cnt, c.wf(params.dim.0 as int), c0.len() == n1, cur_radix.data@.len() == 1,
        a.level == __i0, a.radix.ok(), a.radix.count.0 == cnt, a.radix.radix_log.0 == l, a.scratch.data@.len() == 1, final(a.scratch).data@ == fs, a.scratch.data@[0] == rst(sc, l, __i0 as int),
        forall|x: int| 0 <= x < n1 ==> (#[trigger] c.data@[x]).0 == md(c0[x].0 + lsum(bd, sc, l, n1, cnt, x, __i0 as int))
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(cnt - 1 - __j0, n1, cnt); div_mul(n1, cnt); }
    let ghost (c1, t) = (c.data@, __j0 as int);
//@at start 0
    proof { assert(b.data@ =~= comp(bd, cnt - 1 - t, n1)); }
//@at end 0
    proof { assert forall|x: int| 0 <= x < n1 implies (#[trigger] c.data@[x]).0 == md(c0[x].0 + lsum(bd, sc, l, n1, cnt, x, t + 1)) by { let (u, w) = (comp(bd, cnt - 1 - t, n1)[x].0, digit_of(rst(sc, l, t), l)); let v = u * w; md_id(wmul(u, w)); md_id(c1[x].0); cong_add(c1[x].0 as int, c0[x].0 + lsum(bd, sc, l, n1, cnt, x, t), wmul(u, w) as int, v); } }
//@end
/// word x of sum_{i<m} <digits of a_i, row i of the key>
pub open spec fn kssum(k: Seq<Torus<WORD>>, a: Seq<Torus<WORD>>, r: RadixDecomposition, n1: int, x: int, m: int) -> int decreases m
{ if m <= 0 { 0 } else { kssum(k, a, r, n1, x, m - 1) + lsum(comp(k, m - 1, n1 * r.count.0), rnd(a[m - 1].0 as int, (W() - r.radix_log.0 * r.count.0) as nat) as WORD, r.radix_log.0, n1, r.count.0 as int, x, r.count.0 as int) } }
//@fn sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch.rs :: keyswitch_lwe_to_lwe
//@slice keyswitch_levs chunk len
//@sub "let mut a_i_decomp_sum = LweCiphertext::new(new_params);" => "let a_i_decomp_sum = zero_lwe(new_params);"
//@sub "let mut trivial_b = LweCiphertext::new(new_params);" => "let trivial_b = zero_lwe(new_params);"
//@sub "&mut a_i_decomp_sum" => "a_i_decomp_sum"
//@sub "&a_i_decomp_sum" => "a_i_decomp_sum"
//@sub "&mut trivial_b" => "trivial_b"
//@sub "&trivial_b" => "trivial_b"
//@sub "PolynomialRef::from_slice(&[*a_i])" => "single(*a_i)"
    requires new_params.dim.0 < usize::MAX, old(output).wf(new_params.dim.0 as int), ciphertext_under_original_key.wf(old_params.dim.0 as int), radix.ok(), radix.radix_log.0 * radix.count.0 < W(),
        keyswitch_key.wf(old_params.dim.0 as int, new_params, radix.count.0 as int)
    ensures final(output).wf(new_params.dim.0 as int), forall|x: int| 0 <= x <= new_params.dim.0 ==> (#[trigger] final(output).data@[x]).0 == md((if x == new_params.dim.0 { ciphertext_under_original_key.data@[old_params.dim.0 as int].0 } else { 0 }) - kssum(keyswitch_key.data@, ciphertext_under_original_key.data@, *radix, new_params.dim.0 + 1, x, old_params.dim.0 as int))
//@at start
    let ghost (n1, cnt, m, ct, kd) = (new_params.dim.0 + 1, radix.count.0 as int, old_params.dim.0 as int, ciphertext_under_original_key.data@, keyswitch_key.data@); let ghost st = n1 * cnt;
    proof { rows_nz(new_params.dim.0 as int, cnt); div_mul(st, m); div_mul(n1, cnt); }
//@at loop 0
    invariant new_params.dim.0 < usize::MAX, n1 == new_params.dim.0 + 1, m == old_params.dim.0, cnt == radix.count.0, radix.ok(), radix.radix_log.0 * radix.count.0 < W(), st == n1 * cnt, st >= 1, st <= usize::MAX, __n0 == m, __i0 <= __n0, __s0_0@ == ct.subrange(0, m), ct.len() == m + 1,
        keyswitch_levs.stride == st, keyswitch_levs.data@ == kd, kd.len() == st * m, a_i_decomp_sum.wf(new_params.dim.0 as int), scratch.data@.len() == 1,
        forall|x: int| 0 <= x < n1 ==> (#[trigger] a_i_decomp_sum.data@[x]).0 == md(kssum(kd, ct, *radix, n1, x, __i0 as int))
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, st, m); }
    let ghost (c1, t) = (a_i_decomp_sum.data@, __j0 as int);
//@at start 0
    let ghost row = lev_i.data@;
    proof { assert(row =~= comp(kd, t, st)); }
//@at end 0
    proof { assert forall|x: int| 0 <= x < n1 implies (#[trigger] a_i_decomp_sum.data@[x]).0 == md(kssum(kd, ct, *radix, n1, x, t + 1)) by { let v = lsum(row, rnd(ct[t].0 as int, (W() - radix.radix_log.0 * radix.count.0) as nat) as WORD, radix.radix_log.0, n1, cnt, x, cnt); md_id(c1[x].0); cong_add(c1[x].0 as int, kssum(kd, ct, *radix, n1, x, t), v, v); } }
//@at end
    proof { assert forall|x: int| 0 <= x < n1 implies (#[trigger] output.data@[x]).0 == md((if x == new_params.dim.0 { ct[m].0 } else { 0 }) - kssum(kd, ct, *radix, n1, x, m)) by { let t = (if x == new_params.dim.0 { ct[m].0 } else { 0 as WORD }); md_id(t); md_sub(t as int, kssum(kd, ct, *radix, n1, x, m)); } }
//@end
} // verus!
verus! {
// ---- with noiseless rows the phase is preserved up to the decomposition rounding ---------------
pub proof fn phase_mad(a: Seq<Torus<WORD>>, b: Seq<Torus<WORD>>, c: Seq<Torus<WORD>>, m: WORD, s: Seq<WORD>, n: int)
    requires n >= 0, a.len() == n + 1, b.len() == n + 1, forall|i: int| 0 <= i <= n ==> (#[trigger] c[i]).0 == wadd(a[i].0, wmul(b[i].0, m))
    ensures phase(c, s, n) == wadd(phase(a, s, n), wmul(phase(b, s, n), m))
{ let sum = Seq::new(a.len(), |i: int| Torus(wadd(a[i].0, b[i].0))); let dif = Seq::new(a.len(), |i: int| Torus(wsub(a[i].0, b[i].0))); phase_linear(a, b, sum, dif, c, m, s, n); }
pub proof fn phase_sub(a: Seq<Torus<WORD>>, b: Seq<Torus<WORD>>, c: Seq<Torus<WORD>>, s: Seq<WORD>, n: int)
    requires n >= 0, a.len() == n + 1, b.len() == n + 1, forall|i: int| 0 <= i <= n ==> (#[trigger] c[i]).0 == wsub(a[i].0, b[i].0)
    ensures phase(c, s, n) == wsub(phase(a, s, n), phase(b, s, n))
{ let sum = Seq::new(a.len(), |i: int| Torus(wadd(a[i].0, b[i].0))); let mad = Seq::new(a.len(), |i: int| Torus(wadd(a[i].0, wmul(b[i].0, 0)))); phase_linear(a, b, sum, c, mad, 0, s, n); }
pub proof fn phase_zero(c: Seq<Torus<WORD>>, s: Seq<WORD>, n: int) requires n >= 0, forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).0 == 0 ensures phase(c, s, n) == c[n].0 { dot_zero(c, s, n); md_id(c[n].0); }
/// sum_{t<m} digit_t * phase(row_{cnt-1-t})
pub open spec fn lsum_ph(b: Seq<Torus<WORD>>, sc: WORD, l: usize, n1: int, cnt: int, s: Seq<WORD>, m: int) -> int decreases m
{ if m <= 0 { 0 } else { lsum_ph(b, sc, l, n1, cnt, s, m - 1) + phase(comp(b, cnt - m, n1), s, n1 - 1) * digit_of(rst(sc, l, m - 1), l) } }
pub proof fn lsum_phase(c0: Seq<Torus<WORD>>, c: Seq<Torus<WORD>>, b: Seq<Torus<WORD>>, sc: WORD, l: usize, n1: int, cnt: int, s: Seq<WORD>, m: int)
    requires n1 >= 1, 0 <= m <= cnt, b.len() == n1 * cnt, c0.len() == n1, c.len() == n1, forall|x: int| 0 <= x < n1 ==> (#[trigger] c[x]).0 == md(c0[x].0 + lsum(b, sc, l, n1, cnt, x, m))
    ensures phase(c, s, n1 - 1) == md(phase(c0, s, n1 - 1) + lsum_ph(b, sc, l, n1, cnt, s, m)) decreases m
{
    let n = n1 - 1;
    if m <= 0 { assert forall|x: int| 0 <= x < n1 implies c[x].0 == c0[x].0 by { md_id(c0[x].0); } assert(c =~= c0); md_id(phase(c0, s, n)); } else {
        let c1 = Seq::new(n1 as nat, |x: int| Torus(md(c0[x].0 + lsum(b, sc, l, n1, cnt, x, m - 1)))); lsum_phase(c0, c1, b, sc, l, n1, cnt, s, m - 1);
        chunk_bounds(cnt - m, n1, cnt); let row = comp(b, cnt - m, n1); let d = digit_of(rst(sc, l, m - 1), l);
        assert forall|x: int| 0 <= x <= n implies (#[trigger] c[x]).0 == wadd(c1[x].0, wmul(row[x].0, d)) by { md_add(c0[x].0 + lsum(b, sc, l, n1, cnt, x, m - 1), row[x].0 * d); }
        phase_mad(c1, row, c, d, s, n); let q = phase(row, s, n); md_add(phase(c0, s, n) + lsum_ph(b, sc, l, n1, cnt, s, m - 1), q * d);
    }
}
/// row i of a key-switching key for s_old without noise: level j holds s_old[i] 2^(W - l (j + 1))
pub open spec fn exact_row(b: Seq<Torus<WORD>>, si: WORD, r: RadixDecomposition, n1: int, s: Seq<WORD>) -> bool
{ forall|j: int| 0 <= j < r.count.0 ==> phase(#[trigger] comp(b, j, n1), s, n1 - 1) == md(si * pow2((W() - r.radix_log.0 * (j + 1)) as nat)) }
pub proof fn sd_cong(d: WORD) ensures cong(d as int, sd(d)) { md_shift(d as int, 1); }
pub proof fn exact_sum(b: Seq<Torus<WORD>>, si: WORD, sc: WORD, r: RadixDecomposition, n1: int, s: Seq<WORD>, m: int)
    requires r.ok(), 0 <= m <= r.count.0, n1 >= 1, exact_row(b, si, r, n1, s)
    ensures cong(lsum_ph(b, sc, r.radix_log.0, n1, r.count.0 as int, s, m), si * (dsum(sc, r.radix_log.0, m) * pow2((W() - r.radix_log.0 * r.count.0) as nat))) decreases m
{
    let (l, cnt) = (r.radix_log.0, r.count.0 as int); let sh = (W() - l * cnt) as nat; let p = pow2(sh) as int;
    if m <= 0 { assert(0 * p == 0); assert(si * 0 == 0); } else {
        exact_sum(b, si, sc, r, n1, s, m - 1); let j = cnt - m; let d = digit_of(rst(sc, l, m - 1), l); let w = (l * (m - 1)) as nat; assert(comp(b, j, n1) == comp(b, cnt - m, n1));
        assert(l * (m - 1) >= 0) by (nonlinear_arith) requires l >= 0, m >= 1; assert(l * (j + 1) + l * (m - 1) == l * cnt) by (nonlinear_arith) requires j == cnt - m; lemma_pow2_adds(w, sh); let e = pow2((w + sh) as nat) as int; assert(W() - l * (j + 1) == w + sh);
        let (q, t, v, u) = (phase(comp(b, cnt - m, n1), s, n1 - 1) as int, dsum(sc, l, m - 1), sd(d), pow2(w) as int); let f = si * e; md_id(q as WORD); sd_cong(d); cong_mul(q, f, d as int); cong_mul(d as int, v, f);
        assert(f * v == si * ((v * u) * p)) by (nonlinear_arith) requires f == si * e, e == u * p; assert(si * ((t + v * u) * p) == si * (t * p) + si * ((v * u) * p)) by (nonlinear_arith);
        cong_add(lsum_ph(b, sc, l, n1, cnt, s, m - 1), si * (t * p), q * d, f * v);
    }
}
/// sum_{i<m} s_i * (a_i rounded to what its digits represent)
pub open spec fn close_dot(a: Seq<Torus<WORD>>, so: Seq<WORD>, r: RadixDecomposition, m: int) -> int decreases m { if m <= 0 { 0 } else { close_dot(a, so, r, m - 1) + so[m - 1] * closest(a[m - 1].0, r) } }
pub proof fn ks_phase(k: Seq<Torus<WORD>>, a: Seq<Torus<WORD>>, c: Seq<Torus<WORD>>, so: Seq<WORD>, s: Seq<WORD>, r: RadixDecomposition, n1: int, nrow: int, m: int)
    requires r.ok(), n1 >= 1, 0 <= m <= nrow, k.len() == (n1 * r.count.0) * nrow, c.len() == n1, forall|i: int| 0 <= i < nrow ==> exact_row(#[trigger] comp(k, i, n1 * r.count.0), so[i], r, n1, s), forall|x: int| 0 <= x < n1 ==> (#[trigger] c[x]).0 == md(kssum(k, a, r, n1, x, m))
    ensures phase(c, s, n1 - 1) == md(close_dot(a, so, r, m)) decreases m
{
    let n = n1 - 1; let st = n1 * r.count.0;
    if m <= 0 { assert forall|i: int| 0 <= i < n1 implies (#[trigger] c[i]).0 == 0 by { md_id(0); } phase_zero(c, s, n); md_id(0); } else {
        let c1 = Seq::new(n1 as nat, |x: int| Torus(md(kssum(k, a, r, n1, x, m - 1)))); ks_phase(k, a, c1, so, s, r, n1, nrow, m - 1);
        assert(st >= 1) by (nonlinear_arith) requires st == n1 * r.count.0, n1 >= 1, r.count.0 >= 1; chunk_bounds(m - 1, st, nrow);
        let b = comp(k, m - 1, st); let x0 = a[m - 1].0; let sc = rnd(x0 as int, (W() - r.radix_log.0 * r.count.0) as nat) as WORD; let cnt = r.count.0 as int;
        assert forall|x: int| 0 <= x < n1 implies (#[trigger] c[x]).0 == md(c1[x].0 + lsum(b, sc, r.radix_log.0, n1, cnt, x, cnt)) by { let v = lsum(b, sc, r.radix_log.0, n1, cnt, x, cnt); md_id(c1[x].0); cong_add(c1[x].0 as int, kssum(k, a, r, n1, x, m - 1), v, v); }
        lsum_phase(c1, c, b, sc, r.radix_log.0, n1, cnt, s, cnt); exact_sum(b, so[m - 1], sc, r, n1, s, cnt); let (ph, cd) = (phase(c1, s, n), close_dot(a, so, r, m - 1)); md_id(ph);
        cong_add(ph as int, cd, lsum_ph(b, sc, r.radix_log.0, n1, cnt, s, cnt), so[m - 1] * closest(x0, r));
    }
}
/// T18: key switching with a noiseless key; closest(a_i) is within half of the smallest gadget factor of a_i (closest_err)
pub fn t18_phase(output: &mut LweCiphertextRef<WORD>, ct: &LweCiphertextRef<WORD>, key: &LweKeyswitchKeyRef<WORD>, old_params: &LweDef, new_params: &LweDef, radix: &RadixDecomposition, old_key: &LweSecretKeyRef<WORD>, new_key: &LweSecretKeyRef<WORD>)
    requires new_params.dim.0 < usize::MAX, old(output).wf(new_params.dim.0 as int), ct.wf(old_params.dim.0 as int), radix.ok(), radix.radix_log.0 * radix.count.0 < W(), key.wf(old_params.dim.0 as int, new_params, radix.count.0 as int),
        old_key.data@.len() == old_params.dim.0, new_key.data@.len() == new_params.dim.0,
        forall|i: int| 0 <= i < old_params.dim.0 ==> exact_row(#[trigger] comp(key.data@, i, (new_params.dim.0 + 1) * radix.count.0), old_key.data@[i], *radix, new_params.dim.0 + 1, new_key.data@)
    ensures phase(final(output).data@, new_key.data@, new_params.dim.0 as int) == md(ct.data@[old_params.dim.0 as int].0 - close_dot(ct.data@, old_key.data@, *radix, old_params.dim.0 as int))
{
    keyswitch_lwe_to_lwe(output, ct, key, old_params, new_params, radix);
    proof {
        let (n, m, s, so, k, a) = (new_params.dim.0 as int, old_params.dim.0 as int, new_key.data@, old_key.data@, key.data@, ct.data@); let n1 = n + 1; let b = a[m].0;
        let triv = Seq::new(n1 as nat, |x: int| Torus(if x == n { b } else { 0 as WORD })); let sm = Seq::new(n1 as nat, |x: int| Torus(md(kssum(k, a, *radix, n1, x, m))));
        phase_zero(triv, s, n); ks_phase(k, a, sm, so, s, *radix, n1, m, m);
        assert forall|x: int| 0 <= x <= n implies (#[trigger] output.data@[x]).0 == wsub(triv[x].0, sm[x].0) by { md_id(triv[x].0); md_sub(triv[x].0 as int, kssum(k, a, *radix, n1, x, m)); }
        phase_sub(triv, sm, output.data@, s, n); md_id(b); md_sub(b as int, close_dot(a, so, *radix, m));
    }
}
} // verus!
verus! {
//@fn sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs :: keyswitch_glwe_to_glwe
//@slice ciphertext_a chunk len
//@slice keyswitch_glevs chunk len
//@sub "let mut a_i_decomp_sum = GlweCiphertext::new(params);" => "let a_i_decomp_sum = zero_glwe(params);"
//@sub "let mut trivial_b = GlweCiphertext::new(params);" => "let trivial_b = zero_glwe(params);"
//@sub "&mut a_i_decomp_sum" => "a_i_decomp_sum"
//@sub "&a_i_decomp_sum" => "a_i_decomp_sum"
//@sub "&mut trivial_b" => "trivial_b"
//@sub "&trivial_b" => "trivial_b"
//@sub "decomposed_polynomial_glev_mad(" => "proof { assert(decomp.scratch.data@ =~= rpoly(aa, *radix)); } decomposed_polynomial_glev_mad("
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, old(output).wf(params), ciphertext_under_original_key.wf(params), radix.ok(), radix.radix_log.0 * radix.count.0 < W(), keyswitch_key.wf(params, radix.count.0 as int)
    ensures final(output).wf(params), forall|x: int| 0 <= x < old(output).data@.len() ==> (#[trigger] final(output).data@[x]).0 == md((if x >= params.n() * params.k() { ciphertext_under_original_key.data@[x].0 } else { 0 }) - esum(keyswitch_key.data@, ciphertext_under_original_key.data@, *radix, params.n(), params.sz(), x, params.k()))
//@at start
    let ghost (n, k, sz, cnt) = (params.n(), params.k(), params.sz(), radix.count.0 as int); let ghost (nk, gz) = (n * k, sz * cnt); let ghost (ad, bd) = (ciphertext_under_original_key.data@, keyswitch_key.data@);
    proof { sz_facts(*params); div_mul(n, k); div_mul(sz, cnt); assert(gz >= 1) by (nonlinear_arith) requires gz == sz * cnt, sz >= 1, cnt >= 1; div_mul(gz, k); }
//@at loop 0
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, n == params.n(), k == params.k(), sz == params.sz(), sz >= 1, sz == n * k + n, nk == n * k, nk >= 0, gz == sz * cnt, gz >= 1, gz <= usize::MAX, __n0 == k, __i0 <= __n0, ciphertext_a.stride == n, ciphertext_a.data@ == ad.subrange(0, nk), ad.len() == nk + n, nk / n == k,
        keyswitch_glevs.stride == gz, keyswitch_glevs.data@ == bd, bd.len() == gz * k, a_i_decomp_sum.wf(params), scratch.data@.len() == n, radix.ok(), radix.radix_log.0 * radix.count.0 < W(), cnt == radix.count.0,
        forall|x: int| 0 <= x < sz ==> (#[trigger] a_i_decomp_sum.data@[x]).0 == md(esum(bd, ad, *radix, n, sz, x, __i0 as int))
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); assert(k * n == nk) by (nonlinear_arith) requires nk == n * k; chunk_bounds(__j0 as int, gz, k); }
    let ghost (c1, t) = (a_i_decomp_sum.data@, __j0 as int);
//@at start 0
    let ghost (aa, rr) = (a_i.data@, glev_i.data@);
    proof { assert(aa =~= comp(ad, t, n)); assert(rr =~= comp(bd, t, gz)); }
//@at end 0
    proof { assert forall|x: int| 0 <= x < sz implies (#[trigger] a_i_decomp_sum.data@[x]).0 == md(esum(bd, ad, *radix, n, sz, x, t + 1)) by { let v = gsum(rr, rpoly(aa, *radix), radix.radix_log.0, n, sz, cnt, x, cnt); md_id(c1[x].0); cong_add(c1[x].0 as int, esum(bd, ad, *radix, n, sz, x, t), v, v); } }
//@at end
    proof { assert forall|x: int| 0 <= x < sz implies (#[trigger] output.data@[x]).0 == md((if x >= nk { ad[x].0 } else { 0 }) - esum(bd, ad, *radix, n, sz, x, k)) by { let t = (if x >= nk { ad[x].0 } else { 0 as WORD }); if x >= nk { assert(trivial_b.data@[nk + (x - nk)] == ad.subrange(nk, nk + n)[x - nk]); } md_id(t); md_sub(t as int, esum(bd, ad, *radix, n, sz, x, k)); } }
//@end
/// entry (i, j) of a freshly generated key: the scaled key bit plus a noise draw
pub open spec fn fresh(std: Stddev, ph: WORD, si: WORD, l: int, j: int) -> bool { noisy(std, md(si * pow2((W() - l * (j + 1)) as nat)), ph) }
pub open spec fn fresh_row(std: Stddev, row: Seq<Torus<WORD>>, si: WORD, l: int, n1: int, s: Seq<WORD>, m: int) -> bool { forall|j: int| 0 <= j < m ==> fresh(std, phase(#[trigger] comp(row, j, n1), s, n1 - 1), si, l, j) }
//@fn sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs :: generate_keyswitch_key_lwe
//@byref
    requires new_params.dim.0 < usize::MAX, radix.ok(), old(keyswitch_key).wf(old_params.dim.0 as int, new_params, radix.count.0 as int), original_lwe_secret_key.data@.len() == old_params.dim.0, new_lwe_secret_key.data@.len() == new_params.dim.0
    ensures final(keyswitch_key).wf(old_params.dim.0 as int, new_params, radix.count.0 as int),
        forall|i: int| 0 <= i < old_params.dim.0 ==> fresh_row(new_params.std, #[trigger] comp(final(keyswitch_key).data@, i, (new_params.dim.0 + 1) * radix.count.0), original_lwe_secret_key.data@[i], radix.radix_log.0 as int, new_params.dim.0 + 1, new_lwe_secret_key.data@, radix.count.0 as int)
//@at start
    let ghost (n1, cnt, m, l, so, sn) = (new_params.dim.0 + 1, radix.count.0 as int, old_params.dim.0 as int, radix.radix_log.0 as int, original_lwe_secret_key.data@, new_lwe_secret_key.data@); let ghost st = n1 * cnt;
    proof { rows_nz(new_params.dim.0 as int, cnt); div_mul(st, m); div_mul(n1, cnt); }
//@at init 0
    let ghost fo = final(__e0_0).data@;
//@at loop 0
    invariant new_params.dim.0 < usize::MAX, n1 == new_params.dim.0 + 1, m == old_params.dim.0, cnt == radix.count.0, l == radix.radix_log.0, radix.ok(), st == n1 * cnt, st >= 1, st <= usize::MAX, st / n1 == cnt, (st * m) / st == m, decomposition_radix_log == l, so == original_lwe_secret_key.data@, sn == new_lwe_secret_key.data@, so.len() == m, sn.len() == n1 - 1,
        __n0 == m, __i0 <= __n0, __e0_0.wf(m, new_params, cnt), fo == final(__e0_0).data@,
        forall|q: int| 0 <= q < __i0 ==> fresh_row(new_params.std, #[trigger] comp(__e0_0.data@, q, st), so[q], l, n1, sn, cnt)
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, st, m); }
    let ghost o0 = __e0_0.data@;
//@at init 1
    let ghost fr = final(__e1_0).data@;
//@at loop 1
    invariant new_params.dim.0 < usize::MAX, n1 == new_params.dim.0 + 1, cnt == radix.count.0, l == radix.radix_log.0, radix.ok(), st == n1 * cnt, st <= usize::MAX, st / n1 == cnt, decomposition_radix_log == l, sn == new_lwe_secret_key.data@, sn.len() == n1 - 1, fr == final(__e1_0).data@,
        __n1 == cnt, __i1 <= __n1, __e1_0.wf(new_params, cnt), fresh_row(new_params.std, __e1_0.data@, s_i, l, n1, sn, __i1 as int)
    decreases __n1 - __i1
//@at first 1
    proof { let jj = __j1 as int; chunk_bounds(jj, n1, cnt); assert(l * (jj + 1) <= l * cnt && l * (jj + 1) >= 1) by (nonlinear_arith) requires jj + 1 <= cnt, l >= 1, jj >= 0; assert(jj + 1 <= l * (jj + 1)) by (nonlinear_arith) requires l >= 1, jj >= 0;
        let sh = (W() - l * (jj + 1)) as u64; assert(0x1u64 << (sh as usize) == 0x1u64 << sh) by (bit_vector) requires sh < 64; pw_lt(sh as nat); lemma_u64_shl_is_mul(1, sh); }
    let ghost r0 = __e1_0.data@;
//@at end 1
    proof { let jj = __j1 as int; let y = col.data@; let col1 = __e1_0.data@; md_mul(decomp_factor as int, s_i as int); md_id(decomp_factor); md_id(s_i); let f = pow2((W() - l * (jj + 1)) as nat) as int; assert(f * s_i == s_i * f) by (nonlinear_arith);
        assert forall|q: int| 0 <= q < jj + 1 implies fresh(new_params.std, phase(#[trigger] comp(col1, q, n1), sn, n1 - 1), s_i, l, q) by { chunk_bounds(q, n1, cnt); if q < jj { chunk_bounds(q, n1, jj); assert(n1 * jj == jj * n1) by (nonlinear_arith); assert(comp(col1, q, n1) =~= comp(r0, q, n1)); } else { assert(comp(col1, q, n1) =~= y); } } }
//@at end 0
    proof { let jj = __j0 as int; assert forall|q: int| 0 <= q < jj + 1 implies fresh_row(new_params.std, #[trigger] comp(__e0_0.data@, q, st), so[q], l, n1, sn, cnt) by { chunk_bounds(q, st, m); if q < jj { chunk_bounds(q, st, jj); assert(st * jj == jj * st) by (nonlinear_arith); assert(comp(__e0_0.data@, q, st) =~= comp(o0, q, st)); } else { assert(comp(__e0_0.data@, q, st) =~= fr); } } }
//@end
} // verus!
