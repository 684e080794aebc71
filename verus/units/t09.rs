//@include ../prelude/lwe.rs
//@include ../prelude/radix.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
//@include ../prelude/poly.rs
//@include ../prelude/polyops.rs
//@include ../prelude/conv.rs
//@include ../prelude/mono.rs
//@include ../prelude/glwe.rs
//@include ../prelude/sums.rs
//@include ../prelude/gphase.rs
verus! {
impl GlweDimension {
//@fn sunscreen_tfhe/src/params.rs :: GlweDimension::as_lwe_dimension
    requires self.polynomial_degree.0 * self.size.0 <= usize::MAX
    ensures ret.0 == self.polynomial_degree.0 * self.size.0
//@end
}
impl GlweDef {
//@fn sunscreen_tfhe/src/params.rs :: GlweDef::as_lwe_def
    requires self.n() * self.k() <= usize::MAX
    ensures ret.dim.0 == self.n() * self.k()
//@end
}
// dst! FromSlice for the key: the transparent wrapper cast
impl LweSecretKeyRef<WORD> { #[verifier::external_body] pub fn from_slice(s: &[WORD]) -> (r: &LweSecretKeyRef<WORD>) ensures r.data@ == s@ { unsafe { &*(s as *const [WORD] as *const LweSecretKeyRef<WORD>) } } }
impl GlweSecretKeyRef<WORD> {
//@fn sunscreen_tfhe/src/entities/glwe_secret_key.rs :: GlweSecretKeyRef::to_lwe_secret_key
    ensures ret.data@ == self.data@
//@end
}
/// element x of the mask of the extracted ciphertext
pub open spec fn se(g: Seq<Torus<WORD>>, n: int, h: int, x: int) -> WORD { let (i, j) = (x / n, x % n); if j <= h { g[i * n + h - j].0 } else { wneg(g[i * n + h + n - j].0) } }
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: sample_extract
//@slice a_glwe chunk len
    requires params.ok(), glwe.wf(params), h < params.n(), old(output).wf(params.n() * params.k())
    ensures final(output).wf(params.n() * params.k()), forall|x: int| 0 <= x < params.n() * params.k() ==> (#[trigger] final(output).data@[x]).0 == se(glwe.data@, params.n(), h as int, x), final(output).data@[params.n() * params.k()] == glwe.data@[params.n() * params.k() + h]
//@at start
    let ghost (n, kk) = (params.n(), params.k()); let ghost nk = n * kk; let ghost g = glwe.data@;
    proof { div_mul(n, kk); assert(n * (kk + 1) == nk + n) by (nonlinear_arith) requires nk == n * kk; assert(params.dim.polynomial_degree.0 * params.dim.size.0 == nk); }
//@at init 0
    let ghost fa = final(a_lwe)@;
//@at loop 0
    invariant n == params.n(), N == n, n >= 1, kk >= 0, nk == n * kk, nk + n <= isize::MAX, __n0 == kk, __i0 <= __n0, g.len() == nk + n, a_glwe.stride == n, a_glwe.data@ == g.subrange(0, nk), a_lwe@.len() == nk, fa == final(a_lwe)@, 0 <= h < n,
        forall|x: int| 0 <= x < __i0 * n ==> (#[trigger] a_lwe@[x]).0 == se(g, n, h as int, x)
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, kk); assert(N * __j0 == __j0 * n) by (nonlinear_arith) requires N == n; }
//@at start 0
    let ghost ag = a_gwe_i.data@;
    proof { assert(ag =~= comp(g, i as int, n)); }
//@at loop 1
    invariant N == n, n >= 1, nk == n * kk, nk + n <= isize::MAX, 0 <= i < kk, Ni == i * n, i * n + n <= nk, g.len() == nk + n, a_glwe_i_coeffs@ == comp(g, i as int, n), a_lwe@.len() == nk, fa == final(a_lwe)@, 0 <= h < n, __hi1_1 == h + 1, __i1 <= h + 1,
        forall|x: int| 0 <= x < i * n + __i1 ==> (#[trigger] a_lwe@[x]).0 == se(g, n, h as int, x)
    decreases __hi1_1 - __i1
//@at start 1
    proof { assert((i + 1) * n == i * n + n) by (nonlinear_arith); comp_ix(i * n + j, n, i as int); }
//@at loop 2
    invariant N == n, n >= 1, nk == n * kk, nk + n <= isize::MAX, 0 <= i < kk, Ni == i * n, i * n + n <= nk, g.len() == nk + n, a_glwe_i_coeffs@ == comp(g, i as int, n), a_lwe@.len() == nk, fa == final(a_lwe)@, 0 <= h < n, __hi2_1 == n, h + 1 <= __i2 <= n,
        forall|x: int| 0 <= x < i * n + __i2 ==> (#[trigger] a_lwe@[x]).0 == se(g, n, h as int, x)
    decreases __hi2_1 - __i2
//@at start 2
    proof { assert((i + 1) * n == i * n + n) by (nonlinear_arith); comp_ix(i * n + j, n, i as int); }
//@end
pub open spec fn lterm(o: Seq<Torus<WORD>>, s: Seq<WORD>) -> spec_fn(int) -> int { |t: int| o[t].0 * s[t] }
pub proof fn sdot_isum(o: Seq<Torus<WORD>>, s: Seq<WORD>, m: int) ensures sdot(o, s, m) == isum(lterm(o, s), 0, m) decreases m { if m > 0 { sdot_isum(o, s, m - 1); } }
proof fn isum_shift(f: spec_fn(int) -> int, g: spec_fn(int) -> int, lo: int, hi: int, d: int) requires forall|t: int| lo <= t < hi ==> cong(#[trigger] g(t), f(t + d)) ensures cong(isum(g, lo, hi), isum(f, lo + d, hi + d)) decreases hi - lo
{ if lo < hi { isum_shift(f, g, lo, hi - 1, d); cong_add(isum(g, lo, hi - 1), isum(f, lo + d, hi - 1 + d), g(hi - 1), f(hi - 1 + d)); } }
proof fn extract_dot(o: Seq<Torus<WORD>>, g: Seq<Torus<WORD>>, s: Seq<WORD>, n: int, k: int, h: int, m: int)
    requires n >= 1, 0 <= m <= k, g.len() == n * k + n, s.len() == n * k, 0 <= h < n, forall|x: int| 0 <= x < n * k ==> (#[trigger] o[x]).0 == se(g, n, h, x)
    ensures cong(sdot(o, s, m * n), gdot(g, s, n, h, m)) decreases m
{
    if m > 0 {
        let i = m - 1; extract_dot(o, g, s, n, k, h, i); chunk_bounds(i, n, k); chunk_bounds(0, n, k); 
        let (a, b) = (comp(g, i, n), scomp(s, i, n)); let (f, c) = (lterm(o, s), cterm2(a, b, h));
        sdot_isum(o, s, m * n); sdot_isum(o, s, i * n); isum_split(f, 0, i * n, m * n); conv_comm(a, b, h);
        assert forall|t: int| 0 <= t < n implies cong(#[trigger] c(t), f(t + i * n)) by {
            comp_ix(i * n + t, n, i); let x = i * n + t; let ov = o[x].0; assert(ov == se(g, n, h, x)); assert(b[t] == s[x]);
            if t > h { let w = g[i * n + h + n - t].0; assert(a[h - t + n] == g[i * n + h + n - t]); md_neg(w as int); md_id(w); md_id(ov); assert(md(-(w as int)) == ov); cong_mul(ov as int, -(w as int), s[x] as int); }
            else { assert(a[h - t] == g[i * n + h - t]); }
        }
        isum_shift(f, c, 0, n, i * n); assert(m * n == i * n + n); assert(isum(c, 0, n) == conv(a, b, h));
        cong_add(sdot(o, s, i * n), gdot(g, s, n, h, i), isum(f, i * n, m * n), isum(c, 0, n));
    } else { assert(0 * n == 0); }
}
/// T09: the extracted ciphertext has, under the extracted key, the phase of coefficient h.
pub proof fn extract_phase(o: Seq<Torus<WORD>>, g: Seq<Torus<WORD>>, s: Seq<WORD>, n: int, k: int, h: int)
    requires n >= 1, k >= 0, g.len() == n * k + n, s.len() == n * k, 0 <= h < n, o.len() == n * k + 1, forall|x: int| 0 <= x < n * k ==> (#[trigger] o[x]).0 == se(g, n, h, x), o[n * k] == g[n * k + h]
    ensures phase(o, s, n * k) == gphase(g, s, n, k, h)
{
    extract_dot(o, g, s, n, k, h, k); div_mul(n, k); let b = o[n * k].0 as int; cong_add(b, b, sdot(o, s, n * k), gdot(g, s, n, h, k));
}
/// the same statement through the code: extraction, then the key cast, then decryption.
pub fn t09_extract_then_decrypt(output: &mut LweCiphertextRef<WORD>, glwe: &GlweCiphertextRef<WORD>, key: &GlweSecretKeyRef<WORD>, h: usize, params: &GlweDef) -> (r: Torus<WORD>)
    requires params.ok(), glwe.wf(params), key.data@.len() == params.n() * params.k(), h < params.n(), old(output).wf(params.n() * params.k())
    ensures r.0 == gphase(glwe.data@, key.data@, params.n(), params.k(), h as int)
{
    proof { assert(params.n() * (params.k() + 1) == params.n() * params.k() + params.n()) by (nonlinear_arith); }
    sample_extract(output, glwe, h, params);
    let r = key.to_lwe_secret_key().decrypt_without_decode(output, &params.as_lwe_def());
    proof { extract_phase(output.data@, glwe.data@, key.data@, params.n(), params.k(), h as int); }
    r
}
} // verus!
fn main() {}
