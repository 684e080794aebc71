verus! {
// ---- lemmas about arithmetic modulo 2^64 -----------------------------------------------------
pub open spec fn md(x: int) -> WORD { (x % M()) as WORD }
pub proof fn md_add(x: int, y: int) ensures wadd(md(x), md(y)) == md(x + y) { vstd::arithmetic::div_mod::lemma_add_mod_noop(x, y, M()); }
pub proof fn md_sub(x: int, y: int) ensures wsub(md(x), md(y)) == md(x - y) { vstd::arithmetic::div_mod::lemma_sub_mod_noop(x, y, M()); }
pub proof fn md_mul(x: int, y: int) ensures wmul(md(x), md(y)) == md(x * y) { vstd::arithmetic::div_mod::lemma_mul_mod_noop(x, y, M()); }
pub proof fn md_neg(x: int) ensures wneg(md(x)) == md(-x) { vstd::arithmetic::div_mod::lemma_sub_mod_noop(0, x, M()); }
pub proof fn md_id(x: WORD) ensures md(x as int) == x {}
/// Adding a multiple of the modulus changes nothing.
pub proof fn md_shift(x: int, q: int) ensures md(x + M() * q) == md(x), md(x - M() * q) == md(x) {
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, x, M()); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-q, x, M());
    assert(M() * -q == -(M() * q)) by (nonlinear_arith);
}
pub proof fn md_wit(x: int) -> (q: int) ensures md(x) == x - M() * q { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, M()); x / M() }
/// Congruence with an explicit witness.
pub open spec fn cong(x: int, y: int) -> bool { md(x) == md(y) }
pub proof fn cong_wit(x: int, y: int) -> (q: int) requires md(x) == md(y) ensures x == y + M() * q {
    let a = md_wit(x); let b = md_wit(y); assert(M() * (a - b) == M() * a - M() * b) by (nonlinear_arith); a - b
}
pub proof fn cong_mul(x: int, y: int, k: int) requires md(x) == md(y) ensures md(x * k) == md(y * k), md(k * x) == md(k * y) {
    let q = cong_wit(x, y); assert((y + M() * q) * k == y * k + M() * (q * k)) by (nonlinear_arith); md_shift(y * k, q * k);
    assert(k * x == x * k && k * y == y * k) by (nonlinear_arith);
}
pub proof fn cong_add(x: int, y: int, u: int, v: int) requires md(x) == md(y), md(u) == md(v) ensures md(x + u) == md(y + v), md(x - u) == md(y - v) {
    let q = cong_wit(x, y); let p = cong_wit(u, v); assert(M() * q + M() * p == M() * (q + p)) by (nonlinear_arith); assert(M() * q - M() * p == M() * (q - p)) by (nonlinear_arith);
    md_shift(y + v, q + p); md_shift(y - v, q - p);
}
} // verus!
