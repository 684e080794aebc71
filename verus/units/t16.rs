//@include ../prelude/base.rs
verus! {
use vstd::arithmetic::div_mod::*;
/// nearest integer to a / d for a >= 0, d > 0, a half rounds up
pub open spec fn near(a: int, d: int) -> int { (2 * a + d) / (2 * d) }
//@fn sunscreen_tfhe/src/math/basic.rs :: <RoundedDiv for WORD>::div_rounded
//@macro div_rounded(WORD)
//@sig pub fn div_rounded(self_: &WORD, divisor: WORD) -> (ret: WORD)
//@sub "self /" => "*self_ /"
//@sub "self %" => "*self_ %"
    requires divisor > 0
    ensures ret == near(*self_ as int, divisor as int)
//@at start
    proof {
        let (a, d) = (*self_ as int, divisor as int); lemma_fundamental_div_mod(a, d); let q = a / d; let r = a % d;
        let up: int = if r >= d - r { 1 } else { 0 };
        assert(2 * a + d == (2 * d) * (q + up) + (2 * r + d - 2 * d * up)) by (nonlinear_arith) requires a == d * q + r;
        if up == 1 { assert(2 * d * up == 2 * d) by (nonlinear_arith) requires up == 1; } else { assert(2 * d * up == 0) by (nonlinear_arith) requires up == 0; }
        assert((2 * d) * (q + up) == (q + up) * (2 * d)) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(2 * a + d, 2 * d, q + up, 2 * r + d - 2 * d * up);
        assert(q < a || d <= 1 || a == 0) by (nonlinear_arith) requires a == d * q + r, 0 <= r < d, a >= 0, d >= 1;
        assert(q + up <= a || a == 0 && up == 0) by (nonlinear_arith) requires a == d * q + r, 0 <= r < d, a >= 0, d >= 1, up == 0 || (up == 1 && r >= d - r);
    }
//@end
} // verus!
fn main() {}
