#!/usr/bin/env python3
"""Writes verus/prelude/ent_glwe.rs and ent_lwe.rs: the composite entities, their iterators as slice + stride, their sizes and accessors."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "prelude")
def iters(n):
    return f"""
/// dst_iter! iterators over {n}: component i is the i-th chunk of `stride` words (next/next_back/len are property T13)
pub struct {n}Iterator<'a, S> {{ pub data: &'a [Torus<S>], pub stride: usize }}
impl<'a, S> {n}Iterator<'a, S> {{
    #[verifier::external_body] pub fn new(data: &'a [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, data@.len() % stride as nat == 0 ensures r.data@ == data@, r.stride == stride {{ {n}Iterator {{ data, stride }} }}
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.data@.len() / self.stride as nat {{ self.data.len() / self.stride }}
    #[verifier::external_body] pub fn chunk(&self, i: usize) -> (r: &'a {n}Ref<S>) requires (i + 1) * self.stride <= self.data@.len() ensures r.data@ == self.data@.subrange(i * self.stride, (i + 1) * self.stride) {{ unimplemented!() }}
}}
pub struct {n}IteratorMut<'a, S> {{ pub data: &'a mut [Torus<S>], pub stride: usize }}
impl<'a, S> {n}IteratorMut<'a, S> {{
    pub open spec fn cur(&self) -> Seq<Torus<S>> {{ self.data@ }}
    pub open spec fn cnt(&self) -> nat {{ self.data@.len() / self.stride as nat }}
    #[verifier::external_body] pub fn new(data: &'a mut [Torus<S>], stride: usize) -> (r: Self) requires stride >= 1, old(data)@.len() % stride as nat == 0 ensures r.data@ == old(data)@, final(r.data)@ == final(data)@, r.stride == stride {{ {n}IteratorMut {{ data, stride }} }}
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.stride >= 1 ensures r == self.cnt() {{ self.data.len() / self.stride }}
    #[verifier::external_body] pub fn chunk(&mut self, i: usize) -> (r: &mut {n}Ref<S>) requires (i + 1) * old(self).stride <= old(self).data@.len()
        ensures r.data@ == old(self).data@.subrange(i * old(self).stride, (i + 1) * old(self).stride), final(self).stride == old(self).stride, final(final(self).data)@ == final(old(self).data)@,
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * old(self).stride) + final(r).data@ + old(self).data@.subrange((i + 1) * old(self).stride, old(self).data@.len() as int)
    {{ unimplemented!() }}
    #[verifier::external_body] pub fn into_chunk(self, i: usize) -> (r: &'a mut {n}Ref<S>) requires (i + 1) * self.stride <= self.cur().len()
        ensures r.data@ == self.cur().subrange(i * self.stride, (i + 1) * self.stride),
            final(r).data@.len() == r.data@.len() ==> final(self.data)@ == self.cur().subrange(0, i * self.stride) + final(r).data@ + self.cur().subrange((i + 1) * self.stride, self.cur().len() as int)
    {{ unimplemented!() }}
}}
"""
def casts(n): return f"""// dst! FromSlice / AsSlice of {n}: the transparent wrapper cast
impl<S> {n}Ref<S> {{ pub fn as_slice(&self) -> (r: &[Torus<S>]) ensures r@ == self.data@ {{ &self.data }} pub fn as_mut_slice(&mut self) -> (r: &mut [Torus<S>]) ensures r@ == old(self).data@, final(r)@ == final(self).data@ {{ &mut self.data }} }}
"""
def size(n, f, arg, req, val): return f"""impl {n}Ref<WORD> {{
//@fn sunscreen_tfhe/src/entities/{f}.rs :: <OverlaySize for {n}Ref>::size
//@sig pub fn size(t: {arg}) -> (ret: usize)
    requires {req}
    ensures ret == {val}
//@end
"""
def acc(f, n, fn, el, sig, params, stride, lem, pre="", recv="params"):
    r = ""
    for mut in (False, True):
        m = "_mut" if mut else ""; o = "old(self)" if mut else "self"
        r += f"""//@fn sunscreen_tfhe/src/entities/{f}.rs :: {n}Ref::{fn}{m}
//@sig fn {fn}{m}({'&mut self' if mut else '&self'}, {sig}) -> (ret: {el}Iterator{'Mut' if mut else ''}<'_, WORD>)
//@sub "self.data.as_mut()" => "&mut self.data" optional
//@sub "self.data.as_ref()" => "&self.data" optional
    requires {pre}{o}.wf({params})
    ensures ret.stride == {stride}, ret.data@ == {o}.data@{', final(ret.data)@ == final(self).data@' if mut else ''}
//@at start
    proof {{ {lem} }}
//@end
"""
    call = ", ".join(x.split(":")[0].strip() for x in sig.split(",")); L = "self.data@.len() as int / (%s)" % stride
    S = stride
    r += f"""    // component i of `for x in v.{fn}({call})` / `{fn}_mut`
    pub fn {fn}_count(&self, {sig}) -> (ret: usize) requires {pre.replace("old(self)", "self")}self.wf({params}) ensures ret == self.data@.len() as int / ({S}) {{ proof {{ {lem} }} self.{fn}({call}).len() }}
    pub fn {fn}_at(&self, {sig}, i: usize) -> (r: &{el}Ref<WORD>) requires {pre.replace("old(self)", "self")}self.wf({params}), i < self.data@.len() as int / ({S}) ensures r.data@ == self.data@.subrange(i * ({S}), (i + 1) * ({S}))
    {{ proof {{ {lem} chunk_bounds(i as int, {S}, {L}); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, {S}); }} self.{fn}({call}).chunk(i) }}
    pub fn {fn}_mut_at(&mut self, {sig}, i: usize) -> (r: &mut {el}Ref<WORD>) requires {pre}old(self).wf({params.replace("LEN", "old(self).data@.len() as int")}), i < old(self).data@.len() as int / ({S})
        ensures r.data@ == old(self).data@.subrange(i * ({S}), (i + 1) * ({S})),
            final(r).data@.len() == r.data@.len() ==> final(self).data@ == old(self).data@.subrange(0, i * ({S})) + final(r).data@ + old(self).data@.subrange((i + 1) * ({S}), old(self).data@.len() as int)
    {{ proof {{ {lem} chunk_bounds(i as int, {S}, {L}); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.data@.len() as int, {S}); }} self.{fn}_mut({call}).into_chunk(i) }}
"""
    return r
def polysize(): return """impl<T> PolynomialRef<T> {
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: <OverlaySize for PolynomialRef>::size
//@sig pub fn size(t: PolynomialDegree) -> (ret: usize)
    ensures ret == t.0
//@end
}
"""
g = """// generated by verus/gen/entities.py
verus! {
pub open spec fn gsz(d: GlweDimension) -> int { d.polynomial_degree.0 * d.size.0 + d.polynomial_degree.0 }
impl GlweDef { pub open spec fn sz(&self) -> int { self.n() * self.k() + self.n() } }
pub proof fn sz_facts(p: GlweDef) requires p.ok() ensures p.sz() == gsz(p.dim), p.sz() >= 1, p.n() * p.k() >= 0, p.sz() <= isize::MAX, p.sz() == p.n() * (p.k() + 1) { assert(p.n() * (p.k() + 1) == p.n() * p.k() + p.n()) by (nonlinear_arith); assert(p.n() * p.k() >= 0) by (nonlinear_arith) requires p.n() >= 1, p.k() >= 0; }
""" + polysize() + """impl GlweSecretKeyRef<WORD> {
//@fn sunscreen_tfhe/src/entities/glwe_secret_key.rs :: <OverlaySize for GlweSecretKeyRef>::size
//@sig pub fn size(t: GlweDimension) -> (ret: usize)
//@sub "PolynomialRef::size" => "PolynomialRef::<WORD>::size" optional
    requires gsz(t) <= usize::MAX
    ensures ret == t.polynomial_degree.0 * t.size.0
//@end
}
""" + size("GlweCiphertext", "glwe_ciphertext", "GlweDimension", "gsz(t) <= usize::MAX", "gsz(t)") + "}\n"
C = "old(self)"
g += "pub struct GlevCiphertextRef<S> { pub data: [Torus<S>] }\n pub struct GgswCiphertextRef<S> { pub data: [Torus<S>] }\n pub struct GlweKeyswitchKeyRef<S> { pub data: [Torus<S>] }\n pub struct SchemeSwitchKeyRef<S> { pub data: [Torus<S>] }\n"
for n in ("GlweCiphertext", "GlevCiphertext"): g += iters(n)
for n in ("GlevCiphertext", "GgswCiphertext", "GlweCiphertext"): g += casts(n)
g += size("GlevCiphertext", "glev_ciphertext", "(GlweDimension, RadixCount)", "gsz(t.0) <= usize::MAX, gsz(t.0) * t.1.0 <= usize::MAX", "gsz(t.0) * t.1.0")
g += "    pub open spec fn wf(&self, p: &GlweDef, cnt: int) -> bool { self.data@.len() == p.sz() * cnt && p.sz() * cnt <= usize::MAX && cnt >= 0 }\n"
g += acc("glev_ciphertext", "GlevCiphertext", "glwe_ciphertexts", "GlweCiphertext", "params: &GlweDef", "params, LEN / params.sz()", "params.sz()", "sz_facts(*params); div_mul(params.sz(), self.data@.len() as int / params.sz());", "params.ok(), ")
def fixlen(s):
    out, mut = [], False
    for l in s.split("\n"):
        if "//@sig" in l: mut = "&mut self" in l
        if " pub fn " in l: mut = "&mut self" in l
        out.append(l.replace("LEN", ("old(self)" if mut else "self") + ".data@.len() as int"))
    return "\n".join(out)
g = fixlen(g) + "}\n"
R = "params: &GlweDef, radix: &RadixDecomposition"
def rows(n, f, fn, cond, cnt, lem):
    s = f"impl {n}Ref<WORD> {{\n    pub open spec fn wf(&self, p: &GlweDef, cnt: int) -> bool {{ self.data@.len() == (p.sz() * cnt) * ({cnt}) && (p.sz() * cnt) * ({cnt}) <= usize::MAX && p.sz() * cnt <= usize::MAX }}\n"
    s += acc(f, n, fn, "GlevCiphertext", R, "params, radix.count.0 as int", "params.sz() * radix.count.0", f"sz_facts(*params); let cnt = radix.count.0 as int; let st = params.sz() * cnt; assert(st >= 1) by (nonlinear_arith) requires st == params.sz() * cnt, cnt >= 1, params.sz() >= 1; {lem.replace('p.', 'params.')} div_mul(st, {cnt.replace('p.', 'params.')});", "params.ok(), radix.count.0 >= 1, params.dim.size.0 < usize::MAX, ")
    return s
g += rows("GgswCiphertext", "ggsw_ciphertext", "rows", "", "p.k() + 1", "") + "}\n"
g += rows("GlweKeyswitchKey", "glwe_keyswitch_key", "rows", "", "p.k()", "") + "}\n"
g += rows("SchemeSwitchKey", "scheme_switch_key", "glev_ciphertexts", "", "tri(p.k())", "tri_nn(p.k());").replace("impl SchemeSwitchKeyRef<WORD> {", "pub open spec fn tri(k: int) -> int { (k * (k + 1)) / 2 }\npub proof fn tri_nn(k: int) requires k >= 0 ensures tri(k) >= 0, k * (k + 1) >= 0 { assert(k * (k + 1) >= 0) by (nonlinear_arith) requires k >= 0; }\nimpl SchemeSwitchKeyRef<WORD> {") + "}\n"
g += "// scratch buffers: some contents of the requested length\n#[verifier::external_body] pub fn scratch_poly<T>(n: usize) -> (r: &'static mut PolynomialRef<T>) ensures r.data@.len() == n { unimplemented!() }\n"
g += "pub fn scratch_polynomial<T>(d: PolynomialDegree) -> (r: &'static mut PolynomialRef<T>) ensures r.data@.len() == d.0 { scratch_poly(PolynomialRef::<T>::size(d)) }\n"
g += "#[verifier::external_body] pub fn scratch_glwe_n(n: usize) -> (r: &'static mut GlweCiphertextRef<WORD>) ensures r.data@.len() == n { unimplemented!() }\n"
g += "pub fn scratch_glwe(d: GlweDimension) -> (r: &'static mut GlweCiphertextRef<WORD>) requires gsz(d) <= usize::MAX ensures r.data@.len() == gsz(d) { scratch_glwe_n(GlweCiphertextRef::<WORD>::size(d)) }\n"
g += "// owned, zeroed values\n#[verifier::external_body] pub fn zero_digits(n: usize) -> (r: &'static mut PolynomialRef<WORD>) ensures r.data@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r.data@[i] == 0 { unimplemented!() }\n"
g += "#[verifier::external_body] pub fn zero_glwe(p: &GlweDef) -> (r: &'static mut GlweCiphertextRef<WORD>) requires p.ok() ensures r.wf(p), forall|i: int| 0 <= i < r.data@.len() ==> (#[trigger] r.data@[i]).0 == 0 { unimplemented!() }\n"
g += "} // verus!\n"
open(os.path.join(D, "ent_glwe.rs"), "w").write("//@scratch PolynomialRef scratch_polynomial\n//@scratch GlweCiphertextRef scratch_glwe\n" + g)
l = """// generated by verus/gen/entities.py
verus! {
""" + size("LweCiphertext", "lwe_ciphertext", "LweDimension", "t.0 < usize::MAX", "t.0 + 1") + "}\npub struct LevCiphertextRef<S> { pub data: [Torus<S>] }\n pub struct LweKeyswitchKeyRef<S> { pub data: [Torus<S>] }\n"
for n in ("LweCiphertext", "LevCiphertext"): l += iters(n)
l += size("LevCiphertext", "lev_ciphertext", "(LweDimension, RadixCount)", "t.0.0 < usize::MAX, (t.0.0 + 1) * t.1.0 <= usize::MAX", "(t.0.0 + 1) * t.1.0")
l += "    pub open spec fn wf(&self, p: &LweDef, cnt: int) -> bool { self.data@.len() == (p.dim.0 + 1) * cnt && cnt >= 0 && p.dim.0 < usize::MAX }\n"
l += fixlen(acc("lev_ciphertext", "LevCiphertext", "lwe_ciphertexts", "LweCiphertext", "params: &LweDef", "params, LEN / (params.dim.0 + 1)", "params.dim.0 + 1", "div_mul(params.dim.0 + 1, self.data@.len() as int / (params.dim.0 + 1));")) + "}\n"
l += "impl LweKeyswitchKeyRef<WORD> {\n    pub open spec fn wf(&self, rows: int, p: &LweDef, cnt: int) -> bool { self.data@.len() == ((p.dim.0 + 1) * cnt) * rows && rows >= 0 && p.dim.0 < usize::MAX && (p.dim.0 + 1) * cnt <= usize::MAX }\n"
l += fixlen(acc("lwe_keyswitch_key", "LweKeyswitchKey", "rows", "LevCiphertext", "new_params: &LweDef, radix: &RadixDecomposition", "LEN / ((new_params.dim.0 + 1) * radix.count.0), new_params, radix.count.0 as int", "(new_params.dim.0 + 1) * radix.count.0", "let st = (new_params.dim.0 + 1) * radix.count.0; assert(st >= 1) by (nonlinear_arith) requires st == (new_params.dim.0 + 1) * radix.count.0, radix.count.0 >= 1; div_mul(st, self.data@.len() as int / st);", "radix.count.0 >= 1, ")) + "}\n"
l += "} // verus!\n"
open(os.path.join(D, "ent_lwe.rs"), "w").write(l)
