//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@include ../prelude/encode.rs
verus! {
/// T01: decode(encode(m) + e) == m for every error smaller than half a step, also across the wrap-around.
pub fn round_trip(m: WORD, w: PlaintextBits, e: WORD) -> (r: WORD)
    requires 1 <= w.0 < WBITS, m < pow2(w.0 as nat), -(pow2((W() - w.0 - 1) as nat) as int) < sd(e) < pow2((W() - w.0 - 1) as nat)
    ensures r == m
{
    let x = Torus::encode(m, w) + Torus(e);
    let r = x.decode(w);
    proof {
        let sh = (W() - w.0) as nat; let (p, t, h) = (pow2(sh) as int, pow2(w.0 as nat) as int, pow2((sh - 1) as nat) as int);
        pw(); pw_lt(w.0 as nat); lemma_pow2_unfold(sh); lemma_pow2_adds(sh, w.0 as nat); lemma_pow2_pos((sh - 1) as nat);
        let mp = m * p; assert(0 <= mp <= M() - p) by (nonlinear_arith) requires mp == m * p, m <= t - 1, p * t == M(), p >= 1, m >= 0;
        vstd::arithmetic::div_mod::lemma_small_mod(mp as nat, M() as nat); let s = mp + sd(e);
        assert(x.0 == md(mp + e)); md_shift(s, 1); assert(md(mp + e) == md(s));
        // x = s + c*M with c in {0, 1}
        let c: int = if s < 0 { 1 } else { 0 };
        if s >= 0 { vstd::arithmetic::div_mod::lemma_small_mod(s as nat, M() as nat); } else { md_shift(s, 1); vstd::arithmetic::div_mod::lemma_small_mod((s + M()) as nat, M() as nat); }
        assert(x.0 == s + c * M());
        let g = m + c * t; assert(g * p == mp + c * M()) by (nonlinear_arith) requires g == m + c * t, mp == m * p, p * t == M();
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x.0 + h, p, g, sd(e) + h);
        assert(rnd(x.0 as int, sh) == g);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(g, t, c, m as int);
    }
    r
}
} // verus!
fn main() {}
