//@include ../prelude/base.rs
verus! {
use vstd::arithmetic::div_mod::*;
pub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }
/// nearest integer to a / d for a >= 0, d > 0, a half rounds up
pub open spec fn near(a: int, d: int) -> int { (2 * a + d) / (2 * d) }
/// nearest integer to a / d, a half rounds away from zero
pub open spec fn near_away(a: int, d: int) -> int { if (a < 0) == (d < 0) { near(abs(a), abs(d)) } else { -near(abs(a), abs(d)) } }
pub assume_specification[SWRD::unsigned_abs](x: SWRD) -> (r: WORD) ensures r == abs(x as int);
pub open spec fn sg(a: int, d: int) -> int { if (a < 0) == (d < 0) { 1 } else { -1 } }
/// the `/` and `%` of the source (truncated), with the facts the proof needs
pub fn sdiv(a: SWRD, b: SWRD) -> (r: SWRD) requires b != 0, !(a == SWRD::MIN && b == -1) ensures r == sg(a as int, b as int) * (abs(a as int) / abs(b as int))
{ proof { let (x, y) = (a as int, b as int); lemma_fundamental_div_mod(x, y); lemma_fundamental_div_mod(x, -y); lemma_fundamental_div_mod(-x, y); lemma_fundamental_div_mod(-x, -y);
   eucl(x, y); eucl(-x, y); }
  a / b }
proof fn eucl(x: int, y: int) requires y != 0 ensures x / y == -(x / (-y)), x % y == x % (-y) { 
    lemma_fundamental_div_mod(x, y); lemma_fundamental_div_mod(x, -y); let (q, p) = (x / y, x / (-y)); let (r, s) = (x % y, x % (-y));
    assert(y * q == (-y) * (-q)) by (nonlinear_arith);
    if y > 0 { assert((-y) * p == y * (-p)) by (nonlinear_arith); assert(y * (-p) == (-p) * y) by (nonlinear_arith); lemma_fundamental_div_mod_converse(x, y, -p, s); } else { assert((-y) * (-q) == (-q) * (-y)) by (nonlinear_arith); lemma_fundamental_div_mod_converse(x, -y, -q, r); } }
pub fn srem(a: SWRD, b: SWRD) -> (r: SWRD) requires b != 0, !(a == SWRD::MIN && b == -1) ensures abs(r as int) == abs(a as int) % abs(b as int)
{ proof { eucl(a as int, b as int); eucl(-(a as int), b as int); } a % b }
//@fn sunscreen_tfhe/src/math/basic.rs :: <RoundedDiv for SWRD>::div_rounded
//@macro div_rounded_signed(SWRD)
//@sig pub fn div_rounded(self_: &SWRD, divisor: SWRD) -> (ret: SWRD)
//@sub "self / divisor" => "sdiv(*self_, divisor)"
//@sub "self % divisor" => "srem(*self_, divisor)"
//@sub "*self <" => "*self_ <"
    requires divisor != 0, !(*self_ == SWRD::MIN && divisor == -1)
    ensures ret == near_away(*self_ as int, divisor as int)
//@at start
    proof {
        let (a, d) = (abs(*self_ as int), abs(divisor as int)); lemma_fundamental_div_mod(a, d); let q = a / d; let r = a % d;
        let up: int = if r >= d - r { 1 } else { 0 };
        assert(2 * a + d == (2 * d) * (q + up) + (2 * r + d - 2 * d * up)) by (nonlinear_arith) requires a == d * q + r;
        if up == 1 { assert(2 * d * up == 2 * d) by (nonlinear_arith) requires up == 1; } else { assert(2 * d * up == 0) by (nonlinear_arith) requires up == 0; }
        assert((2 * d) * (q + up) == (q + up) * (2 * d)) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(2 * a + d, 2 * d, q + up, 2 * r + d - 2 * d * up);
        assert(q + up <= a || a == 0 && up == 0) by (nonlinear_arith) requires a == d * q + r, 0 <= r < d, a >= 0, d >= 1, up == 0 || (up == 1 && r >= d - r);
        assert(a >= 1 && d >= 2 ==> 2 * q <= a) by (nonlinear_arith) requires a == d * q + r, 0 <= r < d, a >= 0;
        assert(d == 1 ==> q == a) by (nonlinear_arith) requires a == d * q + r, 0 <= r < d, a >= 0;
    }
//@end
} // verus!
fn main() {}
