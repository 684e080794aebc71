#!/usr/bin/env python3
"""Writes the size/accessor half of verus/units/t13.rs (verus/prelude/layout.rs) from the table below."""
M = "usize::MAX"
GD, LD, RC, PD = "GlweDimension", "LweDimension", "RadixCount", "PolynomialDegree"
# name, file, input type, spec size in terms of t, extra no-overflow condition (callee conditions are added by hand), element
S = []
def e(name, file, inp, size, ok): S.append((name, file, inp, size, ok))
e("Polynomial","polynomial",PD,"t.0 as int","true")
e("PolynomialFft","polynomial_fft",PD,"t.0 as int / 2","true")
e("LweSecretKey","lwe_secret_key",LD,"t.0 as int","true")
e("LweCiphertext","lwe_ciphertext",LD,"t.0 + 1","@")
e("GlweSecretKey","glwe_secret_key",GD,"sz_Polynomial(t.polynomial_degree) * t.size.0","@")
e("GlweCiphertext","glwe_ciphertext",GD,"sz_GlweSecretKey(t) + t.polynomial_degree.0","@ && ok_GlweSecretKey(t)")
e("GlweCiphertextFft","glwe_ciphertext_fft",GD,"sz_PolynomialFft(t.polynomial_degree) * (t.size.0 + 1)","@ && t.size.0 < usize::MAX")
e("PolynomialList","polynomial_list",f"({PD}, usize)","sz_Polynomial(t.0) * t.1","@")
e("LweCiphertextList","lwe_ciphertext_list",f"({LD}, usize)","sz_LweCiphertext(t.0) * t.1","@ && ok_LweCiphertext(t.0)")
e("GlweCiphertextList","glwe_ciphertext_list",f"({GD}, usize)","sz_GlweCiphertext(t.0) * t.1","@ && ok_GlweCiphertext(t.0)")
e("LevCiphertext","lev_ciphertext",f"({LD}, {RC})","sz_LweCiphertext(t.0) * t.1.0","@ && ok_LweCiphertext(t.0)")
e("GlevCiphertext","glev_ciphertext",f"({GD}, {RC})","sz_GlweCiphertext(t.0) * t.1.0","@ && ok_GlweCiphertext(t.0)")
e("GlevCiphertextFft","glev_ciphertext_fft",f"({GD}, {RC})","sz_GlweCiphertextFft(t.0) * t.1.0","@ && ok_GlweCiphertextFft(t.0)")
e("GgswCiphertext","ggsw_ciphertext",f"({GD}, {RC})","sz_GlevCiphertext(t) * (t.0.size.0 + 1)","@ && ok_GlevCiphertext(t) && t.0.size.0 < usize::MAX")
e("GgswCiphertextFft","ggsw_ciphertext_fft",f"({GD}, {RC})","sz_GlevCiphertextFft(t) * (t.0.size.0 + 1)","@ && ok_GlevCiphertextFft(t) && t.0.size.0 < usize::MAX")
e("GlweKeyswitchKey","glwe_keyswitch_key",f"({GD}, {RC})","sz_GlevCiphertext(t) * t.0.size.0","@ && ok_GlevCiphertext(t)")
e("GlweKeyswitchKeyFft","glwe_keyswitch_key_fft",f"({GD}, {RC})","sz_GlevCiphertextFft(t) * t.0.size.0","@ && ok_GlevCiphertextFft(t)")
e("AutomorphismKey","automorphism_key",f"({GD}, {RC})","sz_GlweKeyswitchKey(t) * lg(t.0.polynomial_degree.0 as int)","@ && ok_GlweKeyswitchKey(t) && t.0.polynomial_degree.0 >= 1")
e("AutomorphismKeyFft","automorphism_key_fft",f"({GD}, {RC})","sz_GlweKeyswitchKeyFft(t) * lg(t.0.polynomial_degree.0 as int)","@ && ok_GlweKeyswitchKeyFft(t) && t.0.polynomial_degree.0 >= 1")
e("BlindRotationShift","blind_rotation_shift",f"({GD}, {RC})","sz_GgswCiphertext(t) * lg(t.0.polynomial_degree.0 as int)","@ && ok_GgswCiphertext(t) && t.0.polynomial_degree.0 >= 1")
e("BlindRotationShiftFft","blind_rotation_shift",f"({GD}, {RC})","sz_GgswCiphertextFft(t) * lg(t.0.polynomial_degree.0 as int)","@ && ok_GgswCiphertextFft(t) && t.0.polynomial_degree.0 >= 1")
e("BootstrapKey","bootstrap_key",f"({LD}, {GD}, {RC})","sz_GgswCiphertext((t.1, t.2)) * t.0.0","@ && ok_GgswCiphertext((t.1, t.2))")
e("BootstrapKeyFft","bootstrap_key",f"({LD}, {GD}, {RC})","sz_GgswCiphertextFft((t.1, t.2)) * t.0.0","@ && ok_GgswCiphertextFft((t.1, t.2))")
e("LweKeyswitchKey","lwe_keyswitch_key",f"({LD}, {LD}, {RC})","sz_LevCiphertext((t.1, t.2)) * t.0.0","@ && ok_LevCiphertext((t.1, t.2))")
e("LwePublicKey","lwe_public_key",LD,"sz_LweCiphertext(t) * t.0","@ && ok_LweCiphertext(t)")
e("RlwePublicKey","rlwe_public_key",GD,"sz_GlweCiphertext(t)","ok_GlweCiphertext(t)")
e("UnivariateLookupTable","univariate_lookup_table",GD,"sz_GlweCiphertext(t)","ok_GlweCiphertext(t)")
e("BivariateLookupTable","bivariate_lookup_table",GD,"sz_GlweCiphertext(t)","ok_GlweCiphertext(t)")
e("PrivateFunctionalKeyswitchKey","private_functional_keyswitch_key",f"({LD}, {GD}, {RC}, PrivateFunctionalKeyswitchLweCount)","sz_GlevCiphertext((t.1, t.2)) * (t.0.0 + 1) * t.3.0","@ && ok_GlevCiphertext((t.1, t.2)) && t.0.0 < usize::MAX && sz_GlevCiphertext((t.1, t.2)) * (t.0.0 + 1) <= usize::MAX")
e("CircuitBootstrappingKeyswitchKeys","circuit_bootstrapping_private_keyswitch_keys",f"({LD}, {GD}, {RC})","sz_PrivateFunctionalKeyswitchKey((t.0, t.1, t.2, PrivateFunctionalKeyswitchLweCount(1))) * (t.1.size.0 + 1)","@ && ok_PrivateFunctionalKeyswitchKey((t.0, t.1, t.2, PrivateFunctionalKeyswitchLweCount(1))) && t.1.size.0 < usize::MAX")
e("PublicFunctionalKeyswitchKey","public_functional_keyswitch_key",f"({LD}, {GD}, {RC})","sz_GlweCiphertext(t.1) * t.0.0 * t.2.0","@ && ok_GlweCiphertext(t.1) && sz_GlweCiphertext(t.1) * t.0.0 <= usize::MAX")
e("SchemeSwitchKey","scheme_switch_key",f"({GD}, {RC})","sz_GlevCiphertext(t) * tri(t.0.size.0 as int)","@ && ok_GlevCiphertext(t) && t.0.size.0 < usize::MAX && t.0.size.0 * (t.0.size.0 + 1) <= usize::MAX")
e("SchemeSwitchKeyFft","scheme_switch_key_fft",f"({GD}, {RC})","sz_GlevCiphertextFft(t) * tri(t.0.size.0 as int)","@ && ok_GlevCiphertextFft(t) && t.0.size.0 < usize::MAX && t.0.size.0 * (t.0.size.0 + 1) <= usize::MAX")
# owner, accessor, kind (it/mut/par/parmut), item, item size (call args), owner total size, number of items, params
A = []
def a(owner, base, kinds, item, size, count, params="params: &GlweDef, radix: &RadixDecomposition", file=None, recv=None):
    for k in kinds: A.append((owner, base + {"it": "", "mut": "_mut", "par": "_par", "parmut": "_par_mut"}[k] if base != "iter" or k != "mut" else "iter_mut", k, item, size, count, params))
G2 = ["it", "mut"]; G4 = ["it", "mut", "par", "parmut"]
g = "(params.dim, radix.count)"
for F in ("", "Fft"):
    a(f"GlevCiphertext{F}", "glwe_ciphertexts", G2, f"GlweCiphertext{F}", "(params.dim)", "l", "params: &GlweDef")
    a(f"GgswCiphertext{F}", "rows", G2, f"GlevCiphertext{F}", g, "(params.dim.size.0 + 1)")
    a(f"GlweKeyswitchKey{F}", "rows", G2, f"GlevCiphertext{F}", g, "params.dim.size.0 as int")
    a(f"AutomorphismKey{F}", "keyswitch_keys", G2, f"GlweKeyswitchKey{F}", "(glwe.dim, radix.count)", "lg(glwe.dim.polynomial_degree.0 as int)", "glwe: &GlweDef, radix: &RadixDecomposition")
    a(f"BlindRotationShift{F}", "rows", G2, f"GgswCiphertext{F}", g, "lg(params.dim.polynomial_degree.0 as int)")
    a(f"BootstrapKey{F}", "rows", G2 if F else G4, f"GgswCiphertext{F}", g, "m")
    a(f"SchemeSwitchKey{F}", "glev_ciphertexts", G2, f"GlevCiphertext{F}", g, "tri(params.dim.size.0 as int)")
a("GlweSecretKey", "s", ["it", "par", "mut"], "Polynomial", "(params.dim.polynomial_degree)", "params.dim.size.0 as int", "params: &GlweDef")
a("LevCiphertext", "lwe_ciphertexts", G2, "LweCiphertext", "(params.dim)", "l", "params: &LweDef")
a("LweCiphertextList", "ciphertexts", G2, "LweCiphertext", "(lwe.dim)", "c", "lwe: &LweDef")
a("GlweCiphertextList", "ciphertexts", G2, "GlweCiphertext", "(lwe.dim)", "c", "lwe: &GlweDef")
a("PolynomialList", "iter", G2, "Polynomial", "(degree)", "c", "degree: PolynomialDegree")
a("LweKeyswitchKey", "rows", G2, "LevCiphertext", "(new_params.dim, radix.count)", "m", "new_params: &LweDef, radix: &RadixDecomposition")
a("LwePublicKey", "enc_zeros", G2, "LweCiphertext", "(params.dim)", "params.dim.0 as int", "params: &LweDef")
a("PrivateFunctionalKeyswitchKey", "glevs", G4, "GlevCiphertext", "(to_glwe.dim, radix.count)", "m", "to_glwe: &GlweDef, radix: &RadixDecomposition")
a("PublicFunctionalKeyswitchKey", "glevs", G2, "GlevCiphertext", "(to_glwe.dim, radix.count)", "m", "to_glwe: &GlweDef, radix: &RadixDecomposition")
out = ["// generated by verus/gen/t13.py"]
w = out.append
w("verus! {")
w("""#[derive(Copy, Clone)] pub struct PolynomialDegree(pub usize);
#[derive(Copy, Clone)] pub struct GlweSize(pub usize);
#[derive(Copy, Clone)] pub struct LweDimension(pub usize);
#[derive(Copy, Clone)] pub struct RadixCount(pub usize);
#[derive(Copy, Clone)] pub struct RadixLog(pub usize);
#[derive(Copy, Clone)] pub struct PrivateFunctionalKeyswitchLweCount(pub usize);
#[derive(Copy, Clone)] pub struct GlweDimension { pub polynomial_degree: PolynomialDegree, pub size: GlweSize }
pub struct GlweDef { pub dim: GlweDimension }
pub struct LweDef { pub dim: LweDimension }
pub struct RadixDecomposition { pub count: RadixCount, pub radix_log: RadixLog }
pub struct Torus<S>(pub S);
pub struct Complex<T> { pub re: T, pub im: T }
pub open spec fn lg(n: int) -> int { vstd::arithmetic::logarithm::log(2, n) }
pub open spec fn tri(n: int) -> int { (n * (n + 1)) / 2 }""")
for n, *_ in S:
    el = "T" if n.endswith("Fft") or n.startswith("Polynomial") or n.endswith("SecretKey") else "Torus<T>"
    if n != "Polynomial": w(f"pub struct {n}Ref<T> {{ pub data: [{el}] }}")
    w(f"pub type {n}Iterator<'a, T> = ComponentIterator<'a, {el}>; pub type {n}IteratorMut<'a, T> = ComponentIteratorMut<'a, {el}>; pub type Parallel{n}Iterator<'a, T> = ParallelComponentIterator<'a, {el}>; pub type Parallel{n}IteratorMut<'a, T> = ParallelComponentIteratorMut<'a, {el}>;")
    w(f"impl<T> {n}Ref<T> {{ pub fn as_slice(&self) -> (r: &[{el}]) ensures r@ == self.data@ {{ &self.data }} pub fn as_mut_slice(&mut self) -> (r: &mut [{el}]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ {{ &mut self.data }} }}")
w("//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: triangular_number_entries\n    requires n * (n + 1) <= usize::MAX, n < usize::MAX\n    ensures ret == tri(n as int)\n//@end")
for n, f, inp, size, ok in S:
    w(f"pub open spec fn sz_{n}(t: {inp}) -> int {{ {size} }}")
    w(f"pub open spec fn ok_{n}(t: {inp}) -> bool {{ {ok.replace('@', f'sz_{n}(t) <= usize::MAX')} }}")
    conc = n.endswith("Fft")
    w(f"impl{'' if conc else '<S>'} {n}Ref<{'Complex<f64>' if conc else 'S'}> {{")
    w(f"//@fn sunscreen_tfhe/src/entities/{f}.rs :: <OverlaySize for {n}Ref>::size\n//@sig pub fn size(t: {inp}) -> (ret: usize)")
    for x in ("t.0.polynomial_degree.0.ilog2()", "(t.0.polynomial_degree.0 as u64).ilog2()"):
        w(f'//@sub "{x}" => "lg2(t.0.polynomial_degree.0)" optional') if "lg(" in size else None
    w(f"    requires ok_{n}(t)\n    ensures ret == sz_{n}(t)")
    if n in ("GlevCiphertext", "SchemeSwitchKey", "SchemeSwitchKeyFft", "CircuitBootstrappingKeyswitchKeys", "LweKeyswitchKey"): pass
    w("//@end\n}")
w("#[verifier::external_body] pub fn lg2(x: usize) -> (r: u32) requires x >= 1 ensures r == lg(x as int), r < 64 { x.ilog2() }")
files = {n: f for n, f, *_ in S}
for owner, fn, k, item, size, count, params in A:
    conc = owner.endswith("Fft")
    arg = size if "," in size else size[1:-1]
    arg = arg[1:-1] if arg.startswith("((") else arg
    el = {"it": f"{item}Iterator<'_, EL>", "mut": f"{item}IteratorMut<'_, EL>", "par": f"Parallel{item}Iterator<'_, EL>", "parmut": f"Parallel{item}IteratorMut<'_, EL>"}[k]
    T = "Complex<f64>" if conc else "S"
    mut = k in ("mut", "parmut") or (owner == "PrivateFunctionalKeyswitchKey" and k == "par")
    ghosts = {"l", "m", "c"}
    # symbolic counts: the length of the storage decides them
    cnt = count if count not in ghosts else "(cnt@ as int)"
    st = f"sz_{item}({arg})"
    d = "old(self).data@" if mut else "self.data@"
    w(f"impl{'' if conc else f'<{T}>'} {owner}Ref<{T}> {{")
    w(f"//@fn sunscreen_tfhe/src/entities/{files[owner]}.rs :: {owner}Ref::{fn}")
    extra = ", Ghost(cnt): Ghost<nat>" if count in ghosts else ""
    cnt = count if count not in ghosts else "(cnt as int)"
    w(f"//@sig fn {fn}(&{'mut ' if mut else ''}self, {params}{extra}) -> (ret: {el.replace('EL', T)})")
    w(f"    requires ok_{item}({arg}), 1 <= {st} <= isize::MAX, {d}.len() <= isize::MAX, {d}.len() == {cnt} * {st}, {cnt} >= 0")
    if k in ("it", "mut"):
        stor = "ret.data@ == " + d if k == "it" else "ret.start.cap@ == " + d + ".len()"
        w(f"    ensures ret.wf(), {stor}, ret.stride == {st}, ret.f() == 0, ret.b() == {cnt}, ret.n() == {cnt}")
    else:
        w(f"    ensures ret.wf(), {'ret.data@ == ' + d if k == 'par' else 'ret.cur() == ' + d}, ret.stride == {st}, ret.count == {cnt}")
    w(f"//@at start\n    proof {{ cnt_ok({cnt}, {st}); }}\n//@end\n}}")
w("pub proof fn cnt_ok(c: int, s: int) requires c >= 0, s >= 1 ensures (c * s) % s == 0, (c * s) / s == c { dm(c, s); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(c, s); }")
w("} // verus!")
import os
open(os.path.join(os.path.dirname(__file__), "../prelude/layout.rs"), "w").write("\n".join(x for x in out if x) + "\n")
