//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@include ../prelude/encode.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
//@include ../prelude/poly.rs
//@include ../prelude/polyops.rs
//@include ../prelude/conv.rs
//@include ../prelude/mono.rs
//@include ../prelude/glwe.rs
//@include ../prelude/sums.rs
//@include ../prelude/gphase.rs
//@include ../prelude/glweenc.rs
//@include ../prelude/ent_glwe.rs
//@include ../prelude/lut.rs
fn main() {}
verus! {
pub struct UnivariateLookupTableRef<S> { pub data: [Torus<S>] }
pub struct BivariateLookupTableRef<S> { pub data: [Torus<S>] }
pub struct UnivariateLookupTable<S> { pub data: Vec<Torus<S>> }
pub struct BivariateLookupTable<S> { pub data: Vec<Torus<S>> }
#[derive(Copy, Clone, PartialEq, Eq)] pub struct CarryBits(pub u32);
// avec![Torus::zero(); n]
#[verifier::external_body] pub fn tzeros(n: usize) -> (r: Vec<Torus<WORD>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).0 == 0 { unimplemented!() }
impl GlweCiphertextRef<WORD> {
    #[verifier::external_body] pub fn from_slice(s: &[Torus<WORD>]) -> (r: &GlweCiphertextRef<WORD>) ensures r.data@ == s@ { unsafe { &*(s as *const [Torus<WORD>] as *const GlweCiphertextRef<WORD>) } }
    #[verifier::external_body] pub fn from_mut_slice(s: &mut [Torus<WORD>]) -> (r: &mut GlweCiphertextRef<WORD>) ensures r.data@ == old(s)@, final(s)@ == final(r).data@ { unsafe { &mut *(s as *mut [Torus<WORD>] as *mut GlweCiphertextRef<WORD>) } }
}
/// a table is the noiseless encryption of its polynomial
pub open spec fn holds(d: Seq<Torus<WORD>>, t: Seq<Torus<WORD>>, n: int, k: int) -> bool { d.len() == n * k + n && t.len() == n && (forall|x: int| 0 <= x < n * k ==> (#[trigger] d[x]).0 == 0) && forall|x: int| 0 <= x < n ==> d[n * k + x] == #[trigger] t[x] }
pub open spec fn body(d: Seq<Torus<WORD>>, n: int, k: int) -> Seq<Torus<WORD>> { d.subrange(n * k, n * k + n) }
pub open spec fn lut_holds<F: Fn(u64) -> u64>(d: Seq<Torus<WORD>>, maps: Seq<F>, n: int, k: int, w: int) -> bool { d.len() == n * k + n && (forall|x: int| 0 <= x < n * k ==> (#[trigger] d[x]).0 == 0) && table_ok(body(d, n, k), maps, n, w) }
pub open spec fn const_holds(d: Seq<Torus<WORD>>, v: int, n: int, k: int) -> bool { d.len() == n * k + n && (forall|x: int| 0 <= x < n * k ==> (#[trigger] d[x]).0 == 0) && forall|x: int| n * k <= x < n * k + n ==> (#[trigger] d[x]).0 == v }
impl UnivariateLookupTableRef<WORD> {
    pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<WORD>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data }
//@fn sunscreen_tfhe/src/entities/univariate_lookup_table.rs :: <OverlaySize for UnivariateLookupTableRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
        requires gsz(t) <= usize::MAX ensures ret == gsz(t)
//@end
//@fn sunscreen_tfhe/src/dst.rs :: UnivariateLookupTableRef::clear
//@macro dst(UnivariateLookupTable, UnivariateLookupTableRef, Torus)
//@sub "<Torus<T> as num::Zero>::zero()" => "Torus::zero()"
        ensures final(self).data@.len() == old(self).data@.len(), forall|x: int| 0 <= x < old(self).data@.len() ==> (#[trigger] final(self).data@[x]).0 == 0
//@at loop 0
        invariant __s0_0@.len() == __n0, __i0 <= __n0, forall|x: int| 0 <= x < __i0 ==> (#[trigger] __s0_0@[x]).0 == 0
        decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/entities/univariate_lookup_table.rs :: UnivariateLookupTableRef::glwe
        ensures ret.data@ == self.data@
//@end
//@fn sunscreen_tfhe/src/entities/univariate_lookup_table.rs :: UnivariateLookupTableRef::glwe_mut
        ensures ret.data@ == old(self).data@, final(ret).data@ == final(self).data@
//@end
//@fn sunscreen_tfhe/src/entities/univariate_lookup_table.rs :: UnivariateLookupTableRef::fill_trivial_from_fns
//@sig fn fill_trivial_from_fns<F: Fn(u64) -> u64>(&mut self, maps: &[F], glwe: &GlweDef, plaintext_bits: PlaintextBits)
        requires glwe.ok(), old(self).data@.len() == glwe.sz(), lut_pre(glwe.n(), plaintext_bits.0 as int), 1 <= maps@.len() <= isize::MAX, maps_ok(maps@, pow2(plaintext_bits.0 as nat) as int)
        ensures lut_holds(final(self).data@, maps@, glwe.n(), glwe.k(), plaintext_bits.0 as int)
//@at start
        proof { sz_facts(*glwe); }
//@at end
        proof { let d = self.data@; assert(body(d, glwe.n(), glwe.k()) =~= poly.data@); }
//@end
//@fn sunscreen_tfhe/src/entities/univariate_lookup_table.rs :: UnivariateLookupTableRef::fill_with_constant
        requires glwe.ok(), old(self).data@.len() == glwe.sz(), 1 <= plaintext_bits.0 < WBITS
        ensures const_holds(final(self).data@, md(val * pow2((W() - plaintext_bits.0) as nat)) as int, glwe.n(), glwe.k())
//@at start
        proof { sz_facts(*glwe); }
//@at init 0
        let ghost e = md(val * pow2((W() - plaintext_bits.0) as nat));
//@at loop 0
        invariant __n0 == glwe.n(), __s0_0@.len() == __n0, __i0 <= __n0, 1 <= plaintext_bits.0 < WBITS, e == md(val * pow2((W() - plaintext_bits.0) as nat)), forall|x: int| 0 <= x < __i0 ==> (#[trigger] __s0_0@[x]).0 == e
        decreases __n0 - __i0
//@at end
        proof { let (n, k) = (glwe.n(), glwe.k()); let d = self.data@; assert forall|x: int| n * k <= x < n * k + n implies (#[trigger] d[x]).0 == e by { assert(d.subrange(n * k, n * k + n)[x - n * k].0 == e); } }
//@end
}
impl UnivariateLookupTable<WORD> {
    #[verifier::external_body] pub fn r(&mut self) -> (r: &mut UnivariateLookupTableRef<WORD>) ensures r.data@ == old(self).data@, final(self).data@ == final(r).data@ { unimplemented!() }
//@fn sunscreen_tfhe/src/entities/univariate_lookup_table.rs :: UnivariateLookupTable::trivial_from_fn
//@sig fn trivial_from_fn<F: Fn(u64) -> u64>(map: F, glwe: &GlweDef, plaintext_bits: PlaintextBits) -> (ret: Self)
//@presub "avec![Torus::zero(); UnivariateLookupTableRef::<S>::size(glwe.dim)]" => "tzeros(UnivariateLookupTableRef::<S>::size(glwe.dim))"
//@sub "lut.fill" => "lut.r().fill"
        requires glwe.ok(), lut_pre(glwe.n(), plaintext_bits.0 as int), maps_ok(seq![map], pow2(plaintext_bits.0 as nat) as int)
        ensures lut_holds(ret.data@, seq![map], glwe.n(), glwe.k(), plaintext_bits.0 as int)
//@at start
        proof { sz_facts(*glwe); assert([map]@ =~= seq![map]); }
//@end
//@fn sunscreen_tfhe/src/entities/univariate_lookup_table.rs :: UnivariateLookupTable::trivivial_multifunctional
//@sig fn trivivial_multifunctional<F: Fn(u64) -> u64>(maps: &[F], glwe: &GlweDef, plaintext_bits: PlaintextBits) -> (ret: Self)
//@presub "avec![Torus::zero(); UnivariateLookupTableRef::<S>::size(glwe.dim)]" => "tzeros(UnivariateLookupTableRef::<S>::size(glwe.dim))"
//@sub "lut.fill" => "lut.r().fill"
        requires glwe.ok(), lut_pre(glwe.n(), plaintext_bits.0 as int), 1 < maps@.len() <= isize::MAX, maps_ok(maps@, pow2(plaintext_bits.0 as nat) as int)
        ensures lut_holds(ret.data@, maps@, glwe.n(), glwe.k(), plaintext_bits.0 as int)
//@at start
        proof { sz_facts(*glwe); }
//@end
}

/// r is what the two-argument map gives for the packed input x: high half first, reduced modulo the plaintext modulus
pub open spec fn biv<F: Fn(u64, u64) -> u64>(map: &F, x: u64, r: u64, w: int) -> bool { let m = pow2(w as nat) as int; map.ensures((((x as int / m) % m) as u64, (x as int % m) as u64), r) }
pub open spec fn biv_pre<F: Fn(u64, u64) -> u64>(map: &F, w: int) -> bool { let m = pow2(w as nat); forall|x: u64, y: u64| x < m && y < m ==> #[trigger] map.requires((x, y)) && forall|r: u64| #[trigger] map.ensures((x, y), r) ==> r < m }
/// cell of a two-argument table
pub open spec fn cell2<F: Fn(u64, u64) -> u64>(map: F, w: int, wt: int, x: int, t: WORD) -> bool { exists|r: u64| #[trigger] biv(&map, x as u64, r, w) && t == md(r * pow2((W() - wt) as nat)) }
pub open spec fn table2_at<F: Fn(u64, u64) -> u64>(o: Seq<Torus<WORD>>, map: F, n: int, w: int, wt: int, i: int) -> bool {
    let stride = n / (pow2(wt as nat) as int); let s = i + stride / 2;
    if s < n { cell2(map, w, wt, s / stride, o[i].0) } else { cell2(map, w, wt, 0, wneg(o[i].0)) }
}
pub open spec fn table2_ok<F: Fn(u64, u64) -> u64>(o: Seq<Torus<WORD>>, map: F, n: int, w: int, wt: int) -> bool { o.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] table2_at(o, map, n, w, wt, i) }
proof fn one_shl_u64(w: u32) requires w < 64 ensures 1u64 << w == pow2(w as nat), pow2(w as nat) >= 1 { one_shl_us(); assert(1u64 << w == (1usize << w) as u64) by (bit_vector) requires w < 64; lemma_pow2_pos(w as nat); }
pub open spec fn map_ok<G: Fn(u64) -> u64>(f: G, p: int) -> bool { forall|x: u64| x < p ==> #[trigger] f.requires((x,)) && forall|r: u64| #[trigger] f.ensures((x,), r) ==> r < p }
/// generate_lut on the one-element array [f]
pub fn generate_lut1<G: Fn(u64) -> u64>(output: &mut TP, f: G, params: &GlweDef, w: PlaintextBits)
    requires lut_pre(params.n(), w.0 as int), map_ok(f, pow2(w.0 as nat) as int), old(output).data@.len() == params.n()
    ensures table_ok(final(output).data@, seq![f], params.n(), w.0 as int)
{ proof { assert([f]@ =~= seq![f]); } generate_lut(output, &[f], params, w) }
proof fn pgrow(a: nat, b: nat) ensures pow2(a) <= pow2(a + b) { lemma_pow2_adds(a, b); lemma_pow2_pos(b); assert(pow2(a) * pow2(b) >= pow2(a)) by (nonlinear_arith) requires pow2(b) >= 1; }
proof fn biv_table<F: Fn(u64, u64) -> u64, G: Fn(u64) -> u64>(o: Seq<Torus<WORD>>, map: F, f: G, n: int, w: int, wt: int)
    requires lut_pre(n, wt), table_ok(o, seq![f], n, wt), forall|x: u64, r: u64| #[trigger] f.ensures((x,), r) ==> biv(&map, x, r, w)
    ensures table2_ok(o, map, n, w, wt)
{
    assert(ispow2(1)) by { lemma2_to64(); assert(pow2(0) == 1); } lemma2_to64(); cpf_is(0, 1, 1);
    let ms = seq![f];
    assert forall|i: int| 0 <= i < n implies #[trigger] table2_at(o, map, n, w, wt, i) by { assert(table_at(o, ms, n, wt, i)); }
}
//@fn sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs :: bivariate_function
//@sig fn bivariate_function<F: Fn(u64, u64) -> u64>(map: &F, input: u64, plaintext_bits: PlaintextBits) -> (ret: u64)
    requires plaintext_bits.0 < 31, biv_pre(map, plaintext_bits.0 as int)
    ensures biv(map, input, ret, plaintext_bits.0 as int), ret < pow2(plaintext_bits.0 as nat)
//@at start
    proof { one_shl_u64(plaintext_bits.0); let m = pow2(plaintext_bits.0 as nat) as int; assert forall|x: int| 0 <= #[trigger] (x % m) < m by { vstd::arithmetic::div_mod::lemma_mod_bound(x, m); } assert forall|x: int| x >= 0 implies 0 <= #[trigger] (x / m) <= x by { vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(x, 1, m); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, m); } }
//@at end-bind
    proof { assert(modulus == pow2(plaintext_bits.0 as nat)); }
//@end
//@fn sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs :: generate_bivariate_lut
//@sig fn generate_bivariate_lut<F: Fn(u64, u64) -> u64>(output: &mut TP, map: F, params: &GlweDef, plaintext_bits: PlaintextBits, carry_bits: CarryBits)
//@sub "generate_lut(" => "let ghost gf = wrapped_func; proof { one_shl_u64((plaintext_bits.0 + carry_bits.0) as u32); lemma_pow2_adds(plaintext_bits.0 as nat, carry_bits.0 as nat); lemma_pow2_pos(carry_bits.0 as nat); pgrow(plaintext_bits.0 as nat, carry_bits.0 as nat); assert(biv_pre(gm, plaintext_bits.0 as int)); assert forall|x: u64| #[trigger] gf.requires((x,)) by {} assert forall|x: u64, r: u64| #[trigger] gf.ensures((x,), r) implies r < pow2(plaintext_bits.0 as nat) && biv(gm, x, r, plaintext_bits.0 as int) by {} assert(map_ok(gf, pow2((plaintext_bits.0 + carry_bits.0) as nat) as int)); } generate_lut1("
//@sub "&[wrapped_func]" => "wrapped_func"
//@sub "|input: u64| bivariate_function(&map, input, plaintext_bits)" => "|input: u64| -> (r: u64) requires biv_pre(gm, plaintext_bits.0 as int), plaintext_bits.0 < 31 ensures biv(gm, input, r, plaintext_bits.0 as int), r < pow2(plaintext_bits.0 as nat) { bivariate_function(&map, input, plaintext_bits) }"
    requires plaintext_bits.0 <= carry_bits.0, plaintext_bits.0 + carry_bits.0 < 31, lut_pre(params.n(), plaintext_bits.0 + carry_bits.0), biv_pre(&map, plaintext_bits.0 as int), old(output).data@.len() == params.n()
    ensures table2_ok(final(output).data@, map, params.n(), plaintext_bits.0 as int, plaintext_bits.0 + carry_bits.0)
//@at start
    let ghost gm = &map; let ghost g2 = map;
//@at end
    proof { biv_table(output.data@, g2, gf, params.n(), plaintext_bits.0 as int, plaintext_bits.0 + carry_bits.0); }
//@end
pub open spec fn lut2_holds<F: Fn(u64, u64) -> u64>(d: Seq<Torus<WORD>>, map: F, n: int, k: int, w: int, wt: int) -> bool { d.len() == n * k + n && (forall|x: int| 0 <= x < n * k ==> (#[trigger] d[x]).0 == 0) && table2_ok(body(d, n, k), map, n, w, wt) }
impl BivariateLookupTableRef<WORD> {
    pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<WORD>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ { &mut self.data }
//@fn sunscreen_tfhe/src/entities/bivariate_lookup_table.rs :: <OverlaySize for BivariateLookupTableRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
        requires gsz(t) <= usize::MAX ensures ret == gsz(t)
//@end
//@fn sunscreen_tfhe/src/dst.rs :: BivariateLookupTableRef::clear
//@macro dst(BivariateLookupTable, BivariateLookupTableRef, Torus)
//@sub "<Torus<T> as num::Zero>::zero()" => "Torus::zero()"
        ensures final(self).data@.len() == old(self).data@.len(), forall|x: int| 0 <= x < old(self).data@.len() ==> (#[trigger] final(self).data@[x]).0 == 0
//@at loop 0
        invariant __s0_0@.len() == __n0, __i0 <= __n0, forall|x: int| 0 <= x < __i0 ==> (#[trigger] __s0_0@[x]).0 == 0
        decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/entities/bivariate_lookup_table.rs :: BivariateLookupTableRef::glwe
        ensures ret.data@ == self.data@
//@end
//@fn sunscreen_tfhe/src/entities/bivariate_lookup_table.rs :: BivariateLookupTableRef::glwe_mut
        ensures ret.data@ == old(self).data@, final(ret).data@ == final(self).data@
//@end
//@fn sunscreen_tfhe/src/entities/bivariate_lookup_table.rs :: BivariateLookupTableRef::fill_trivial_from_fn
//@sig fn fill_trivial_from_fn<F: Fn(u64, u64) -> u64>(&mut self, map: F, glwe: &GlweDef, plaintext_bits: PlaintextBits, carry_bits: CarryBits)
        requires glwe.ok(), old(self).data@.len() == glwe.sz(), plaintext_bits.0 <= carry_bits.0, plaintext_bits.0 + carry_bits.0 < 31, lut_pre(glwe.n(), plaintext_bits.0 + carry_bits.0), biv_pre(&map, plaintext_bits.0 as int)
        ensures lut2_holds(final(self).data@, map, glwe.n(), glwe.k(), plaintext_bits.0 as int, plaintext_bits.0 + carry_bits.0)
//@at start
        proof { sz_facts(*glwe); }
//@at end
        proof { let d = self.data@; assert(body(d, glwe.n(), glwe.k()) =~= poly.data@); }
//@end
//@fn sunscreen_tfhe/src/entities/bivariate_lookup_table.rs :: BivariateLookupTableRef::fill_with_constant
        requires glwe.ok(), old(self).data@.len() == glwe.sz(), 1 <= plaintext_bits.0 < WBITS
        ensures const_holds(final(self).data@, md(val * pow2((W() - plaintext_bits.0) as nat)) as int, glwe.n(), glwe.k())
//@at start
        proof { sz_facts(*glwe); }
//@at init 0
        let ghost e = md(val * pow2((W() - plaintext_bits.0) as nat));
//@at loop 0
        invariant __n0 == glwe.n(), __s0_0@.len() == __n0, __i0 <= __n0, 1 <= plaintext_bits.0 < WBITS, e == md(val * pow2((W() - plaintext_bits.0) as nat)), forall|x: int| 0 <= x < __i0 ==> (#[trigger] __s0_0@[x]).0 == e
        decreases __n0 - __i0
//@at end
        proof { let (n, k) = (glwe.n(), glwe.k()); let d = self.data@; assert forall|x: int| n * k <= x < n * k + n implies (#[trigger] d[x]).0 == e by { assert(d.subrange(n * k, n * k + n)[x - n * k].0 == e); } }
//@end
}
impl BivariateLookupTable<WORD> {
    #[verifier::external_body] pub fn r(&mut self) -> (r: &mut BivariateLookupTableRef<WORD>) ensures r.data@ == old(self).data@, final(self).data@ == final(r).data@ { unimplemented!() }
//@fn sunscreen_tfhe/src/entities/bivariate_lookup_table.rs :: BivariateLookupTable::trivial_from_fn
//@sig fn trivial_from_fn<F: Fn(u64, u64) -> u64>(map: F, glwe: &GlweDef, plaintext_bits: PlaintextBits, carry_bits: CarryBits) -> (ret: Self)
//@presub "avec!(Torus::zero(); BivariateLookupTableRef::<S>::size(glwe.dim))" => "tzeros(BivariateLookupTableRef::<S>::size(glwe.dim))"
//@sub "lut.fill" => "lut.r().fill"
        requires glwe.ok(), plaintext_bits.0 <= carry_bits.0, plaintext_bits.0 + carry_bits.0 < 31, lut_pre(glwe.n(), plaintext_bits.0 + carry_bits.0), biv_pre(&map, plaintext_bits.0 as int)
        ensures lut2_holds(ret.data@, map, glwe.n(), glwe.k(), plaintext_bits.0 as int, plaintext_bits.0 + carry_bits.0)
//@at start
        proof { sz_facts(*glwe); }
//@end
}
/// T17: a phase within half a step of message x (position x * stride + e read with X^N = -1) meets the encoded value of x, whatever the function.
pub proof fn t17_window<F: Fn(u64) -> u64>(o: Seq<Torus<WORD>>, maps: Seq<F>, n: int, w: int, x: int, e: int)
    requires lut_pre(n, w), table_ok(o, maps, n, w), 0 <= x < pow2(w as nat), ({ let stride = n / (pow2(w as nat) as int); -(stride / 2) <= e < stride - stride / 2 })
    ensures ({ let stride = n / (pow2(w as nat) as int); let pos = x * stride + e; -n < pos < n && cell(maps, w, x, e + stride / 2, if pos >= 0 { o[pos].0 } else { wneg(o[n + pos].0) }) })
{
    let p = pow2(w as nat) as int; let stride = n / p; let half = stride / 2; lemma_pow2_pos(w as nat); stride_facts(n, p); let pos = x * stride + e;
    assert((x + 1) * stride <= n && x * stride >= 0 && (x + 1) * stride == x * stride + stride) by (nonlinear_arith) requires 0 <= x, x + 1 <= p, p * stride == n, stride >= 1;
    if pos >= 0 { assert(table_at(o, maps, n, w, pos)); cellpos(x, e + half, stride); }
    else { assert(x == 0) by (nonlinear_arith) requires x * stride + e < 0, e >= -half, half <= stride / 2, stride >= 1, x >= 0; assert(half <= n) by (nonlinear_arith) requires half <= stride, p >= 1, p * stride == n, stride >= 1; assert(table_at(o, maps, n, w, n + pos)); }
}
} // verus!
