//@iter s s_at s_count
//@all "normal_torus::<S>" => "normal_torus"
//@all "uniform_torus::<S>" => "uniform_torus"
verus! {
/// e was returned by a draw from the noise distribution of this deviation
pub uninterp spec fn drawn(std: Stddev, e: WORD) -> bool;
/// x was returned by a draw from the uniform distribution
pub uninterp spec fn drawn_uniform(x: WORD) -> bool;
#[verifier::external_body] pub fn normal_torus(std: Stddev) -> (r: Torus<WORD>) ensures drawn(std, r.0), std.zero() ==> r.0 == 0 { unimplemented!() }
#[verifier::external_body] pub fn uniform_torus() -> (r: Torus<WORD>) ensures drawn_uniform(r.0) { unimplemented!() }
pub open spec fn noisy(std: Stddev, m: WORD, x: WORD) -> bool { exists|e: WORD| #[trigger] drawn(std, e) && x == wadd(m, e) }
pub open spec fn encrypts(std: Stddev, m: WORD, x: WORD) -> bool { if std.zero() { x == m } else { noisy(std, m, x) } }
pub proof fn enc_step(g: int, b: WORD, m: WORD) requires b == wadd(md(g), m) ensures md(b - g) == m { md_id(m); md_add(g, m as int); md_id(b); cong_add(b as int, g + m, g, g); }
pub proof fn wadd_assoc(x: WORD, y: WORD, z: WORD) ensures wadd(wadd(x, y), z) == wadd(x, wadd(y, z)) { md_id(x); md_id(y); md_id(z); md_add(x as int, y as int); md_add(y as int, z as int); md_add(x + y, z as int); md_add(x as int, y + z); }
// an owned polynomial
pub struct Polynomial {}
impl Polynomial {
    #[verifier::external_body] pub fn zero(len: usize) -> (r: &'static mut TP) ensures r.data@.len() == len, forall|i: int| 0 <= i < len ==> (#[trigger] r.data@[i]).0 == 0 { unimplemented!() }
    #[verifier::external_body] pub fn new(d: &Vec<Torus<WORD>>) -> (r: &'static mut TP) ensures r.data@ == d@ { unimplemented!() }
}
impl GlweSecretKeyRef<WORD> {
    pub open spec fn wf(&self, p: &GlweDef) -> bool { self.data@.len() == p.n() * p.k() }
    // component i of `sk.s(params)`
//@fn sunscreen_tfhe/src/entities/glwe_secret_key.rs :: GlweSecretKeyRef::s
//@sig fn s(&self, params: &GlweDef) -> (ret: PolynomialIterator<'_, WORD>)
    requires params.ok(), self.wf(params)
    ensures ret.stride == params.n(), ret.data@ == self.data@
//@at start
        proof { div_mul(params.n(), params.k()); }
//@end
    pub fn s_count(&self, params: &GlweDef) -> (r: usize) requires params.ok(), self.wf(params) ensures r == params.k() { proof { div_mul(params.n(), params.k()); } self.s(params).len() }
    pub fn s_at(&self, params: &GlweDef, i: usize) -> (r: &PolynomialRef<WORD>) requires params.ok(), self.wf(params), i < params.k() ensures r.data@ == scomp(self.data@, i as int, params.n())
    { proof { chunk_bounds(i as int, params.n(), params.k()); } self.s(params).chunk(i) }
}
pub proof fn cs_zero(a: Seq<Torus<WORD>>, b: Seq<WORD>, k: int, i: int) requires forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).0 == 0 ensures cs(a, b, k, i) == 0 decreases i { if i > 0 { cs_zero(a, b, k, i - 1); let x = eb(b, k - (i - 1)); assert(0 * x == 0); } }
pub proof fn gdot_zero(g: Seq<Torus<WORD>>, s: Seq<WORD>, n: int, k: int, h: int, m: int) requires n >= 1, 0 <= m <= k, g.len() == n * k + n, forall|x: int| 0 <= x < n * k ==> (#[trigger] g[x]).0 == 0 ensures gdot(g, s, n, h, m) == 0 decreases m
{ if m > 0 { gdot_zero(g, s, n, k, h, m - 1); chunk_bounds(m - 1, n, k); let a = comp(g, m - 1, n); assert forall|j: int| 0 <= j < n implies (#[trigger] a[j]).0 == 0 by { assert(a[j] == g[(m - 1) * n + j]); } cs_zero(a, scomp(s, m - 1, n), h, n); } }
pub proof fn gdot_ext(g: Seq<Torus<WORD>>, q: Seq<Torus<WORD>>, s: Seq<WORD>, n: int, k: int, h: int, m: int) requires n >= 1, 0 <= m <= k, g.len() >= n * k, q.len() >= n * k, forall|x: int| 0 <= x < m * n ==> g[x] == q[x] ensures gdot(g, s, n, h, m) == gdot(q, s, n, h, m) decreases m
{ if m > 0 { chunk_bounds(m - 1, n, k); gdot_ext(g, q, s, n, k, h, m - 1); assert(comp(g, m - 1, n) =~= comp(q, m - 1, n)); } }
//@fn sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs :: trivially_encrypt_glwe_ciphertext
//@sub "let (a, b)" => "let (mut a, b)"
//@slice a chunk len
    requires params.ok(), old(c).wf(params), msg.data@.len() == params.n()
    ensures final(c).wf(params), forall|x: int| 0 <= x < params.n() * params.k() ==> (#[trigger] final(c).data@[x]).0 == 0, forall|x: int| 0 <= x < params.n() ==> final(c).data@[params.n() * params.k() + x] == #[trigger] msg.data@[x]
//@at start
    let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fa = final(a.data)@;
//@at loop 0
    invariant params.ok(), n == params.n(), k == params.k(), nk == n * k, __n0 == k, __i0 <= __n0, a.stride == n, a.data@.len() == nk, fa == final(a.data)@, forall|x: int| 0 <= x < __i0 * n ==> (#[trigger] a.data@[x]).0 == 0
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); }
//@at init 1
    let ghost fs = final(__s1_0)@;
//@at loop 1
    invariant __n1 == n, __s1_0@.len() == __n1, fs == final(__s1_0)@, __i1 <= __n1, forall|i: int| 0 <= i < __i1 ==> (#[trigger] __s1_0@[i]).0 == 0
    decreases __n1 - __i1
//@end
//@fn sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs :: trivially_encrypt_glwe_with_sk_argument
    requires params.ok(), old(glwe_ciphertext).wf(params), msg.data@.len() == params.n()
    ensures final(glwe_ciphertext).wf(params), forall|x: int| 0 <= x < params.n() * params.k() ==> (#[trigger] final(glwe_ciphertext).data@[x]).0 == 0, forall|x: int| 0 <= x < params.n() ==> final(glwe_ciphertext).data@[params.n() * params.k() + x] == #[trigger] msg.data@[x]
//@end
//@fn sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs :: decrypt_glwe_ciphertext
//@slice a chunk len
//@sub "&mut tmp" => "tmp"
//@sub "&tmp" => "tmp"
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, ct.wf(params), sk.wf(params), old(msg).data@.len() == params.n()
    ensures final(msg).data@.len() == params.n(), forall|h: int| 0 <= h < params.n() ==> (#[trigger] final(msg).data@[h]).0 == gphase(ct.data@, sk.data@, params.n(), params.k(), h)
//@at start
    let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k;
    proof { div_mul(n, k); }
//@at loop 0
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, n == params.n(), k == params.k(), nk == n * k, __n0 == k, __i0 <= __n0, a.stride == n, a.data@ == ct.data@.subrange(0, nk), ct.wf(params), __e0_1.data@ == sk.data@, sk.wf(params), tmp.data@.len() == n,
        forall|h: int| 0 <= h < n ==> (#[trigger] tmp.data@[h]).0 == md(gdot(ct.data@, sk.data@, n, h, __i0 as int))
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); }
    let ghost t0 = tmp.data@;
//@at start 0
    proof { assert(a_i.data@ =~= comp(ct.data@, __j0 as int, n)); }
//@at end 0
    proof { assert forall|h: int| 0 <= h < n implies (#[trigger] tmp.data@[h]).0 == md(gdot(ct.data@, sk.data@, n, h, __i0 as int)) by { let (g, v) = (gdot(ct.data@, sk.data@, n, h, __j0 as int), conv(comp(ct.data@, __j0 as int, n), scomp(sk.data@, __j0 as int, n), h)); md_id(t0[h].0); cong_add(t0[h].0 as int, g, v, v); } }
//@at end
    proof { assert forall|h: int| 0 <= h < n implies (#[trigger] msg.data@[h]).0 == gphase(ct.data@, sk.data@, n, k, h) by { md_id(ct.data@[nk + h].0); md_sub(ct.data@[nk + h].0 as int, gdot(ct.data@, sk.data@, n, h, k)); } }
//@end
//@fn sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs :: encrypt_glwe_ciphertext_secret_generic
//@sub "let (a, b)" => "let (mut a, b)"
//@slice a chunk len
//@sub "&mut tmp" => "tmp"
//@sub "&tmp" => "tmp"
//@sub "let mut __v2 = Vec::new();" => "let mut __v2: Vec<Torus<WORD>> = Vec::new();"
//@sub "if params.std.0 == 0.0 {" => "proof { assert(fa == a1); assert forall|h: int, q: Seq<Torus<WORD>>| 0 <= h < n && q.len() == nk + n && q.subrange(0, nk) =~= a1 && q[nk + h] == b.data@[h] implies #[trigger] gphase(q, s, n, k, h) == msg.data@[h].0 by { assert forall|x: int| 0 <= x < nk implies a1[x] == q[x] by { assert(q.subrange(0, nk)[x] == q[x]); } gdot_ext(a1, q, s, n, k, h, k); enc_step(gdot(a1, s, n, h, k), b.data@[h].0, msg.data@[h].0); } } if params.std.is_zero() {"
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, old(c).wf(params), sk.wf(params), msg.data@.len() == params.n()
    ensures final(c).wf(params), forall|h: int| 0 <= h < params.n() ==> encrypts(params.std, msg.data@[h].0, #[trigger] gphase(final(c).data@, sk.data@, params.n(), params.k(), h)),
        forall|x: int| 0 <= x < params.n() * params.k() ==> drawn_uniform((#[trigger] final(c).data@[x]).0)
//@at start
    let ghost (n, k) = (params.n(), params.k()); let ghost nk = n * k; let ghost s = sk.data@;
    proof { div_mul(n, k); }
//@at init 0
    let ghost fa = final(a.data)@;
//@at loop 0
    invariant params.ok(), ispow2(n), 2 * n <= usize::MAX, n == params.n(), k == params.k(), nk == n * k, s == sk.data@, __n0 == k, __i0 <= __n0, a.stride == n, a.data@.len() == nk, fa == final(a.data)@, __e0_1.data@ == sk.data@, sk.wf(params), tmp.data@.len() == n,
        forall|x: int| 0 <= x < __i0 * n ==> drawn_uniform((#[trigger] a.data@[x]).0),
        forall|h: int| 0 <= h < n ==> (#[trigger] tmp.data@[h]).0 == md(gdot(a.data@, s, n, h, __i0 as int))
    decreases __n0 - __i0
//@at first 0
    proof { chunk_bounds(__j0 as int, n, k); }
    let ghost (t0, a0) = (tmp.data@, a.data@);
//@at init 1
    let ghost fs = final(__s1_0)@;
//@at loop 1
    invariant __n1 == n, __s1_0@.len() == __n1, fs == final(__s1_0)@, __i1 <= __n1, forall|i: int| 0 <= i < __i1 ==> drawn_uniform((#[trigger] __s1_0@[i]).0)
    decreases __n1 - __i1
//@at end 0
    proof { let j = __j0 as int; assert(fs =~= comp(a.data@, j, n));
        assert forall|x: int| 0 <= x < __i0 * n implies drawn_uniform((#[trigger] a.data@[x]).0) by { if x >= j * n { assert(a.data@[x] == fs[x - j * n]); } else { assert(a.data@[x] == a0[x]); } }
        assert forall|h: int| 0 <= h < n implies (#[trigger] tmp.data@[h]).0 == md(gdot(a.data@, s, n, h, __i0 as int)) by { gdot_ext(a0, a.data@, s, n, k, h, j); let (g, v) = (gdot(a.data@, s, n, h, j), conv(comp(a.data@, j, n), scomp(s, j, n), h)); md_id(t0[h].0); cong_add(t0[h].0 as int, g, v, v); } }
//@at after 0
    let ghost (a1, t1) = (a.data@, tmp.data@);
//@at loop 2
    invariant __n2 == n, __lo2_0 == 0, __hi2_1 == n, __i2 <= __n2, __v2@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> drawn(params.std, (#[trigger] __v2@[i]).0)
    decreases __n2 - __i2
//@at end
    proof { assert forall|h: int| 0 <= h < n implies encrypts(params.std, msg.data@[h].0, #[trigger] gphase(c.data@, s, n, k, h)) by { let (g, m, ev) = (gdot(a1, s, n, h, k), msg.data@[h].0, e.data@[h].0); gdot_ext(a1, c.data@, s, n, k, h, k); wadd_assoc(md(g), m, ev); enc_step(g, c.data@[nk + h].0, wadd(m, ev)); } }
//@end
//@fn sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs :: encrypt_glwe_ciphertext_secret
    requires params.ok(), ispow2(params.n()), 2 * params.n() <= usize::MAX, old(c).wf(params), sk.wf(params), msg.data@.len() == params.n()
    ensures final(c).wf(params), forall|h: int| 0 <= h < params.n() ==> encrypts(params.std, msg.data@[h].0, #[trigger] gphase(final(c).data@, sk.data@, params.n(), params.k(), h)),
        forall|x: int| 0 <= x < params.n() * params.k() ==> drawn_uniform((#[trigger] final(c).data@[x]).0)
//@end
} // verus!
