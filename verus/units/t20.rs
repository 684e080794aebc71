//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
//@include ../prelude/poly.rs
//@include ../prelude/polyops.rs
//@include ../prelude/conv.rs
//@include ../prelude/mono.rs
//@include ../prelude/glwe.rs
//@include ../prelude/decomp.rs
//@include ../prelude/glweops.rs
//@include ../prelude/ent_glwe.rs
//@include ../prelude/digits.rs
//@include ../prelude/gadget.rs
//@include ../prelude/triidx.rs
//@iter rows_mut rows_mut_at rows_count
//@iter glwe_ciphertexts glwe_ciphertexts_at glwe_ciphertexts_count
//@iter glwe_ciphertexts_mut glwe_ciphertexts_mut_at glwe_ciphertexts_count
fn main() {}
verus! {
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: glwe_ggsw_mad
//@presub "let a_then_b_glwe_polynomials = a_a.chain(std::iter::once(a_b));" => ""
//@presub "a_then_b_glwe_polynomials.zip(rows)" => "a_a.chain(std::iter::once(a_b)).zip(rows)"
//@slice a_a chunk len
//@slice rows chunk len
//@sub "decomposed_polynomial_glev_mad(" => "proof { assert(decomp.scratch.data@ =~= rpoly(aa, *radix)); } decomposed_polynomial_glev_mad("
    requires glwe_def.ok(), glwe_def.dim.size.0 < usize::MAX, ispow2(glwe_def.n()), 2 * glwe_def.n() <= usize::MAX, old(c).wf(glwe_def), a.wf(glwe_def), radix.ok(), radix.radix_log.0 * radix.count.0 < W(), b.wf(glwe_def, radix.count.0 as int)
    ensures final(c).wf(glwe_def), forall|x: int| 0 <= x < old(c).data@.len() ==> (#[trigger] final(c).data@[x]).0 == md(old(c).data@[x].0 + esum(b.data@, a.data@, *radix, glwe_def.n(), glwe_def.sz(), x, glwe_def.k() + 1))
//@at start
    let ghost (n, k, sz, cnt) = (glwe_def.n(), glwe_def.k(), glwe_def.sz(), radix.count.0 as int); let ghost (nk, gz) = (n * k, sz * cnt); let ghost (c0, ad, bd) = (c.data@, a.data@, b.data@);
    proof { sz_facts(*glwe_def); div_mul(n, k); div_mul(sz, cnt); assert(gz >= 1) by (nonlinear_arith) requires gz == sz * cnt, sz >= 1, cnt >= 1; div_mul(gz, k + 1); }
//@at loop 0
    invariant glwe_def.ok(), ispow2(n), 2 * n <= usize::MAX, n == glwe_def.n(), k == glwe_def.k(), sz == glwe_def.sz(), sz >= 1, sz == n * k + n, nk == n * k, nk >= 0, gz == sz * cnt, gz >= 1, gz <= usize::MAX, __n0 == k + 1, __i0 <= __n0, a_a.stride == n, a_a.data@ == ad.subrange(0, nk), __o0_1.data@ == ad.subrange(nk, nk + n), ad.len() == nk + n, nk / n == k,
        rows.stride == gz, rows.data@ == bd, bd.len() == gz * (k + 1), c.wf(glwe_def), c0.len() == sz, scratch.data@.len() == n, radix.ok(), radix.radix_log.0 * radix.count.0 < W(), cnt == radix.count.0,
        forall|x: int| 0 <= x < sz ==> (#[trigger] c.data@[x]).0 == md(c0[x].0 + esum(bd, ad, *radix, n, sz, x, __i0 as int))
    decreases __n0 - __i0
//@at first 0
    proof { if __j0 < k { chunk_bounds(__j0 as int, n, k); } assert((k + 1) * n == nk + n) by (nonlinear_arith) requires nk == n * k; assert(k * n == nk) by (nonlinear_arith) requires nk == n * k; chunk_bounds(__j0 as int, gz, k + 1); }
    let ghost (c1, t) = (c.data@, __j0 as int);
//@at start 0
    let ghost (aa, rr) = (a_i.data@, r.data@);
    proof { assert(aa =~= comp(ad, t, n)); assert(rr =~= comp(bd, t, gz)); }
//@at end 0
    proof { assert forall|x: int| 0 <= x < sz implies (#[trigger] c.data@[x]).0 == md(c0[x].0 + esum(bd, ad, *radix, n, sz, x, t + 1)) by { let v = gsum(rr, rpoly(aa, *radix), radix.radix_log.0, n, sz, cnt, x, cnt); md_id(c1[x].0); cong_add(c1[x].0 as int, c0[x].0 + esum(bd, ad, *radix, n, sz, x, t), v, v); } }
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs :: external_product_ggsw_glwe
//@sig fn external_product_ggsw_glwe(ggsw: &GgswCiphertextRef<WORD>, glwe: &GlweCiphertextRef<WORD>, params: &GlweDef, radix: &RadixDecomposition) -> (ret: &'static mut GlweCiphertextRef<WORD>)
//@sub "let mut result = GlweCiphertext::new(params);" => "let result = zero_glwe(params);"
//@sub "&mut result" => "result"
    requires params.ok(), params.dim.size.0 < usize::MAX, ispow2(params.n()), 2 * params.n() <= usize::MAX, glwe.wf(params), radix.ok(), radix.radix_log.0 * radix.count.0 < W(), ggsw.wf(params, radix.count.0 as int)
    ensures ret.wf(params), forall|x: int| 0 <= x < ret.data@.len() ==> (#[trigger] ret.data@[x]).0 == md(esum(ggsw.data@, glwe.data@, *radix, params.n(), params.sz(), x, params.k() + 1))
//@end
} // verus!
verus! {
pub assume_specification<T: Clone>[ <[T]>::fill ](d: &mut [T], v: T)
    ensures final(d)@.len() == old(d)@.len(), forall|i: int| 0 <= i < old(d)@.len() ==> #[trigger] final(d)@[i] == v;
#[verifier::external_body] pub fn rem_euclid_isize(a: isize, b: isize) -> (r: isize) requires b > 0 ensures r == a as int % b as int { a.rem_euclid(b) }
impl GlweCiphertextRef<WORD> {
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::zero_out_a_at_index
//@sub ".nth(" => ".into_chunk("
//@sub ".unwrap()" => ""
//@sub "<S as num::Zero>::zero()" => "0"
    requires params.ok(), old(self).wf(params), index < params.k()
    ensures final(self).wf(params), forall|x: int| 0 <= x < old(self).data@.len() ==> #[trigger] final(self).data@[x] == if index * params.n() <= x < (index + 1) * params.n() { Torus(0 as WORD) } else { old(self).data@[x] }
//@at start
    proof { div_mul(params.n(), params.k()); chunk_bounds(index as int, params.n(), params.k()); }
//@end
//@fn sunscreen_tfhe/src/entities/glwe_ciphertext.rs :: GlweCiphertextRef::fill_a_at_index
//@sub ".nth(" => ".into_chunk("
//@sub ".unwrap()" => ""
    requires params.ok(), old(self).wf(params), index < params.k(), polynomial.data@.len() == params.n()
    ensures final(self).wf(params), forall|x: int| 0 <= x < old(self).data@.len() ==> #[trigger] final(self).data@[x] == if index * params.n() <= x < (index + 1) * params.n() { polynomial.data@[x - index * params.n()] } else { old(self).data@[x] }
//@at start
    proof { div_mul(params.n(), params.k()); chunk_bounds(index as int, params.n(), params.k()); }
//@end
//@fn sunscreen_tfhe/src/dst.rs :: GlweCiphertextRef::clear
//@macro dst(GlweCiphertext, GlweCiphertextRef, Torus)
//@sub "<Torus<T> as num::Zero>::zero()" => "Torus::zero()"
    ensures final(self).data@.len() == old(self).data@.len(), forall|x: int| 0 <= x < old(self).data@.len() ==> (#[trigger] final(self).data@[x]).0 == 0
//@at loop 0
    invariant __s0_0@.len() == __n0, __i0 <= __n0, forall|x: int| 0 <= x < __i0 ==> (#[trigger] __s0_0@[x]).0 == 0
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/dst.rs :: GlweCiphertextRef::clone_from_ref
//@macro dst(GlweCiphertext, GlweCiphertextRef, Torus)
//@sig fn clone_from_ref(&mut self, rhs: &GlweCiphertextRef<WORD>)
    requires old(self).data@.len() == rhs.data@.len()
    ensures final(self).data@ == rhs.data@
//@at loop 0
    invariant __n0 == rhs.data@.len(), __i0 <= __n0, __s0_0@.len() == __n0, __s0_1@ == rhs.data@, forall|i: int| 0 <= i < __i0 ==> __s0_0@[i] == rhs.data@[i]
    decreases __n0 - __i0
//@at end
    proof { assert(self.data@ =~= rhs.data@); }
//@end
}
impl GlevCiphertextRef<WORD> {
//@fn sunscreen_tfhe/src/dst.rs :: GlevCiphertextRef::clone_from_ref
//@macro dst(GlevCiphertext, GlevCiphertextRef, Torus)
//@sig fn clone_from_ref(&mut self, rhs: &GlevCiphertextRef<WORD>)
    requires old(self).data@.len() == rhs.data@.len()
    ensures final(self).data@ == rhs.data@
//@at loop 0
    invariant __n0 == rhs.data@.len(), __i0 <= __n0, __s0_0@.len() == __n0, __s0_1@ == rhs.data@, forall|i: int| 0 <= i < __i0 ==> __s0_0@[i] == rhs.data@[i]
    decreases __n0 - __i0
//@at end
    proof { assert(self.data@ =~= rhs.data@); }
//@end
}
} // verus!
verus! {
pub open spec fn pair_ix(i: int, j: int, k: int) -> int { if i <= j { lin(i, j, k) } else { lin(j, i, k) } }
pub proof fn pair_ok(i: int, j: int, k: int) requires 0 <= i < k, 0 <= j < k ensures 0 <= pair_ix(i, j, k) < tri(k) { tri_nn(k); even(k); if i <= j { bijection(i, j, i, j, k); } else { bijection(j, i, j, i, k); } }
impl SchemeSwitchKeyRef<WORD> {
//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: SchemeSwitchKeyRef::get_glev_at_index
//@sub ".nth(" => ".chunk("
//@sub ".expect("Index out of bounds")" => ""
    requires params.ok(), radix.count.0 >= 1, self.wf(params, radix.count.0 as int), i < params.k(), j < params.k(), params.k() * (params.k() + 1) <= usize::MAX, params.k() < usize::MAX
    ensures ret.data@ == comp(self.data@, pair_ix(i as int, j as int, params.k()), params.sz() * radix.count.0)
//@at start
    proof { sz_facts(*params); let st = params.sz() * radix.count.0; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * radix.count.0, params.sz() >= 1, radix.count.0 >= 1; pair_ok(i as int, j as int, params.k()); chunk_bounds(pair_ix(i as int, j as int, params.k()), st, tri(params.k())); }
//@end
}
//@fn sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs :: update_encrypted_secret_key_component
    requires params.ok(), old(output).wf(params), glwe_ciphertext.wf(params), index < params.k()
    ensures final(output).wf(params), forall|x: int| 0 <= x < old(output).data@.len() ==> #[trigger] final(output).data@[x] == if index * params.n() <= x < (index + 1) * params.n() { glwe_ciphertext.data@[params.n() * params.k() + x - index * params.n()] } else { old(output).data@[x] }
//@at start
    proof { div_mul(params.n(), params.k()); chunk_bounds(index as int, params.n(), params.k()); }
//@end
/// coefficient c of sum_{q<m} <digits of mask polynomial q of x, key entry (j, q)>
pub open spec fn ssum(ssk: Seq<Torus<WORD>>, x: Seq<Torus<WORD>>, j: int, r: RadixDecomposition, n: int, sz: int, k: int, c: int, m: int) -> int decreases m
{ if m <= 0 { 0 } else { ssum(ssk, x, j, r, n, sz, k, c, m - 1) + gsum(comp(ssk, pair_ix(j, m - 1, k), sz * r.count.0), rpoly(comp(x, m - 1, n), r), r.radix_log.0, n, sz, r.count.0 as int, c, r.count.0 as int) } }
/// the trivial encryption of b in component j
pub open spec fn tjb(x: Seq<Torus<WORD>>, j: int, n: int, k: int, c: int) -> WORD { if j * n <= c < (j + 1) * n { x[n * k + c - j * n].0 } else { 0 } }
/// level i of row j of the result, coefficient c
pub open spec fn sswitch(ssk: Seq<Torus<WORD>>, x: Seq<Torus<WORD>>, j: int, r: RadixDecomposition, n: int, sz: int, k: int, c: int) -> WORD { md(tjb(x, j, n, k, c) + ssum(ssk, x, j, r, n, sz, k, c, k)) }
pub open spec fn row_done(row: Seq<Torus<WORD>>, gl: Seq<Torus<WORD>>, ssk: Seq<Torus<WORD>>, j: int, r: RadixDecomposition, n: int, sz: int, k: int, m: int) -> bool
{ forall|x: int| 0 <= x < m * sz ==> (#[trigger] row[x]).0 == sswitch(ssk, comp(gl, x / sz, sz), j, r, n, sz, k, x % sz) }
pub open spec fn zero_except(e: Seq<Torus<WORD>>, q: int, n: int) -> bool { forall|x: int| 0 <= x < e.len() && !(q * n <= x < (q + 1) * n) ==> (#[trigger] e[x]).0 == 0 }
pub proof fn upd_comp(o: Seq<Torus<WORD>>, row: Seq<Torus<WORD>>, j: int, q: int, st: int, m: int) requires o.len() == st * m, 0 <= j < m, 0 <= q < m, st >= 1, row.len() == st
    ensures ({ let o2 = o.subrange(0, j * st) + row + o.subrange((j + 1) * st, st * m); o2.len() == o.len() && comp(o2, q, st) == if q == j { row } else { comp(o, q, st) } })
{ chunk_bounds(j, st, m); chunk_bounds(q, st, m); if q < j { chunk_bounds(q, st, j); } if q > j { chunk_bounds(j, st, q); assert(st * q == q * st) by (nonlinear_arith); } if q < j { assert(st * j == j * st) by (nonlinear_arith); } let o2 = o.subrange(0, j * st) + row + o.subrange((j + 1) * st, st * m); assert(comp(o2, q, st) =~= if q == j { row } else { comp(o, q, st) }); }
//@fn sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs :: scheme_switch
//@slice a_i chunk len
//@sub "(j as isize - 1).rem_euclid(k as isize)" => "rem_euclid_isize(j as isize - 1, k as isize)"
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, params.k() >= 1, params.k() * (params.k() + 1) <= usize::MAX,
        old(output).wf(params, radix_ggsw.count.0 as int), glev_ciphertext.wf(params, radix_ggsw.count.0 as int), ssk.wf(params, radix_ss.count.0 as int), radix_ggsw.count.0 >= 1, radix_ss.ok(), radix_ss.radix_log.0 * radix_ss.count.0 < W()
    ensures final(output).wf(params, radix_ggsw.count.0 as int),
        comp(final(output).data@, params.k(), params.sz() * radix_ggsw.count.0) == glev_ciphertext.data@,
        forall|j: int| 0 <= j < params.k() ==> row_done(#[trigger] comp(final(output).data@, j, params.sz() * radix_ggsw.count.0), glev_ciphertext.data@, ssk.data@, j, *radix_ss, params.n(), params.sz(), params.k(), radix_ggsw.count.0 as int)
//@sub "continue;" => "proof { assert(row0.len() == gz); assert forall|q: int| 0 <= q < k implies row_done(#[trigger] comp(__e0_0.data@, q, gz), gl, sk, q, *radix_ss, n, sz, k as int, cg) by { upd_comp(o0, gl, j as int, q, gz, k + 1); assert(row_done(comp(o0, q, gz), gl, sk, q, *radix_ss, n, sz, k as int, cg)); } upd_comp(o0, gl, j as int, k as int, gz, k + 1); } continue;"
//@sub "decomposed_polynomial_glev_mad(" => "proof { assert(decomp.scratch.data@ =~= rpoly(comp(x, r as int, n), *radix_ss)); } decomposed_polynomial_glev_mad("
//@at start
    let ghost (n, sz, cg, cs, gl, sk) = (params.n(), params.sz(), radix_ggsw.count.0 as int, radix_ss.count.0 as int, glev_ciphertext.data@, ssk.data@); let ghost (gz, gs, nk, kk) = (sz * cg, sz * cs, n * params.k(), params.k());
    proof { sz_facts(*params); div_mul(n, kk); div_mul(sz, cg); assert(gz >= 1) by (nonlinear_arith) requires gz == sz * cg, sz >= 1, cg >= 1; div_mul(gz, kk + 1); assert(kk + 1 <= n * (kk + 1)) by (nonlinear_arith) requires n >= 1, kk >= 0; assert(gs >= 1) by (nonlinear_arith) requires gs == sz * cs, sz >= 1, cs >= 1; }
//@at init 0
    let ghost fo = final(__e0_0).data@; proof { vstd::arithmetic::div_mod::lemma_small_mod((kk - 1) as nat, kk as nat); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, -1, kk); }
//@at loop 0
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, k >= 1, k == kk, k * (k + 1) <= usize::MAX, k < isize::MAX, n == params.n(), k == params.k(), sz == params.sz(), sz >= 1, sz == nk + n, nk == n * k, nk >= 0, sz == gsz(params.dim), sz <= isize::MAX, gz == sz * cg, gz == cg * sz, gz / sz == cg, gz % sz == 0, gz >= 1, gz <= usize::MAX, gs == sz * cs, gs >= 1, gs <= usize::MAX, cg == radix_ggsw.count.0, cs == radix_ss.count.0, cg >= 1, radix_ss.ok(), radix_ss.radix_log.0 * radix_ss.count.0 < W(),
        gl == glev_ciphertext.data@, glev_ciphertext.wf(params, cg), sk == ssk.data@, ssk.wf(params, cs), scratch.data@.len() == n, encoded_b_i.wf(params), fo == final(__e0_0).data@, __n0 == k + 1, __i0 <= __n0, __e0_0.wf(params, cg), (gz * (k + 1)) / gz == k + 1,
        __i0 <= k ==> zero_except(encoded_b_i.data@, (__i0 - 1) % (k as int), n),
        forall|q: int| 0 <= q < __i0 && q < k ==> row_done(#[trigger] comp(__e0_0.data@, q, gz), gl, sk, q, *radix_ss, n, sz, k as int, cg),
        __i0 == k + 1 ==> comp(__e0_0.data@, k as int, gz) == gl
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, gz, k + 1); }
    let ghost o0 = __e0_0.data@;
//@at start 0
    let ghost row0 = output_glev.data@;
//@at init 1
    let ghost fr = final(__e1_1).data@; proof { chunk_bounds(last_index as int, n, k as int); assert(zero_except(encoded_b_i.data@, j as int, n)); }
//@at loop 1
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, k >= 1, k * (k + 1) <= usize::MAX, k < isize::MAX, n == params.n(), k == params.k(), sz == params.sz(), sz >= 1, sz == nk + n, nk == n * k, nk >= 0, gz == sz * cg, gz / sz == cg, gz % sz == 0, gz >= 1, gz <= usize::MAX, gs == sz * cs, gs >= 1, gs <= usize::MAX, cg == radix_ggsw.count.0, cs == radix_ss.count.0, cg >= 1, radix_ss.ok(), radix_ss.radix_log.0 * radix_ss.count.0 < W(), j < k,
        gl == glev_ciphertext.data@, glev_ciphertext.wf(params, cg), sk == ssk.data@, ssk.wf(params, cs), scratch.data@.len() == n, encoded_b_i.wf(params), fr == final(__e1_1).data@, __n1 == cg, __i1 <= __n1, __e1_0.data@ == gl, __e1_0.wf(params, cg), __e1_1.wf(params, cg),
        zero_except(encoded_b_i.data@, j as int, n), row_done(__e1_1.data@, gl, sk, j as int, *radix_ss, n, sz, k as int, __i1 as int)
    decreases __n1 - __i1
//@at first 1
    proof { chunk_bounds(__j1 as int, sz, cg); }
    let ghost (r0, x) = (__e1_1.data@, comp(gl, __j1 as int, sz));
//@at init 2
    proof { assert(x_i.data@ == x); assert forall|c: int| 0 <= c < sz implies (#[trigger] y_i_j.data@[c]).0 == md(tjb(x, j as int, n, k as int, c) + ssum(sk, x, j as int, *radix_ss, n, sz, k as int, c, 0)) by { md_id(tjb(x, j as int, n, k as int, c)); } div_mul(n, k as int); }
//@at loop 2
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, k >= 1, k * (k + 1) <= usize::MAX, k < isize::MAX, n == params.n(), k == params.k(), sz == params.sz(), sz >= 1, sz == nk + n, nk == n * k, nk >= 0, gs == sz * cs, gs >= 1, gs <= usize::MAX, cs == radix_ss.count.0, radix_ss.ok(), radix_ss.radix_log.0 * radix_ss.count.0 < W(), j < k,
        sk == ssk.data@, ssk.wf(params, cs), scratch.data@.len() == n, __n2 == k, __i2 <= __n2, a_i.stride == n, a_i.data@ == x.subrange(0, nk), x.len() == sz, y_i_j.wf(params),
        forall|c: int| 0 <= c < sz ==> (#[trigger] y_i_j.data@[c]).0 == md(tjb(x, j as int, n, k as int, c) + ssum(sk, x, j as int, *radix_ss, n, sz, k as int, c, __i2 as int))
    decreases __n2 - __i2
//@at first 2
    proof { chunk_bounds(__j2 as int, n, k as int); pair_ok(j as int, __j2 as int, k as int); chunk_bounds(pair_ix(j as int, __j2 as int, k as int), gs, tri(k as int)); }
    let ghost y0 = y_i_j.data@;
//@at start 2
    proof { assert(a_i_r.data@ =~= comp(x, r as int, n)); }
//@at end 2
    proof { assert forall|c: int| 0 <= c < sz implies (#[trigger] y_i_j.data@[c]).0 == md(tjb(x, j as int, n, k as int, c) + ssum(sk, x, j as int, *radix_ss, n, sz, k as int, c, r + 1)) by { let v = gsum(comp(sk, pair_ix(j as int, r as int, k as int), gs), rpoly(comp(x, r as int, n), *radix_ss), radix_ss.radix_log.0, n, sz, cs, c, cs); md_id(y0[c].0); cong_add(y0[c].0 as int, tjb(x, j as int, n, k as int, c) + ssum(sk, x, j as int, *radix_ss, n, sz, k as int, c, r as int), v, v); } }
//@at end 1
    proof { let i = __j1 as int; let y = y_i_j.data@; assert forall|q: int| 0 <= q < (i + 1) * sz implies (#[trigger] __e1_1.data@[q]).0 == sswitch(sk, comp(gl, q / sz, sz), j as int, *radix_ss, n, sz, k as int, q % sz) by { if q >= i * sz { comp_ix(q, sz, i); assert(__e1_1.data@[q] == y[q - i * sz]); } else { assert(__e1_1.data@[q] == r0[q]); } } }
//@at end 0
    proof { let rw = fr; vstd::arithmetic::div_mod::lemma_small_mod(j as nat, k as nat); assert forall|q: int| 0 <= q <= j && q < k implies row_done(#[trigger] comp(__e0_0.data@, q, gz), gl, sk, q, *radix_ss, n, sz, k as int, cg) by { upd_comp(o0, rw, j as int, q, gz, k + 1); if q < j { assert(row_done(comp(o0, q, gz), gl, sk, q, *radix_ss, n, sz, k as int, cg)); } } }
//@end
} // verus!
