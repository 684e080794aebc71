verus! {
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
/// x - q m in [0, 2m) and q an integer: at most one more subtraction gives the remainder
proof fn near(x: int, q: int, m: int) requires m > 0, 0 <= x - q * m < 2 * m ensures x % m == (if x - q * m < m { x - q * m } else { x - q * m - m })
{ let r = x - q * m; if r < m { lemma_fundamental_div_mod_converse(x, m, q, r); } else { assert((q + 1) * m == q * m + m) by (nonlinear_arith); lemma_fundamental_div_mod_converse(x, m, q + 1, r - m); } }
/// low half: the estimate floor(x floor(b/m) / b) of x/m is short by at most one
proof fn low_est(x: int, b: int, m: int) requires 0 <= x < b, 0 < m <= b ensures ({ let q = (x * (b / m)) / b; 0 <= x - q * m < 2 * m })
{
    let r = b / m; let p = x * r; let q = p / b;
    lemma_fundamental_div_mod(b, m); lemma_fundamental_div_mod(p, b); let e = b % m; let f = p % b;
    assert(b == m * r + e && 0 <= e < m && p == b * q + f && 0 <= f < b);
    assert(b * (x - q * m) == x * e + m * f) by (nonlinear_arith) requires b == m * r + e, p == x * r, p == b * q + f;
    assert(0 <= x * e <= b * m) by (nonlinear_arith) requires 0 <= x < b, 0 <= e < m;
    assert(x * e < b * m) by (nonlinear_arith) requires 0 <= x < b, 0 <= e < m, 0 < m;
    assert(0 <= m * f < m * b) by (nonlinear_arith) requires 0 <= f < b, m > 0;
    let y = x - q * m;
    assert(0 <= y < 2 * m) by (nonlinear_arith) requires 0 <= b * y < 2 * (b * m), b > 0;
}
/// high half: the estimate floor(x S / b) of x T / m is short by at most one
proof fn high_est(x: int, b: int, m: int) requires 0 <= x < b, 0 < m <= b ensures ({ let r = b / m; let t = b - r * m; let s = (b * b) / m - b * r; let q = (x * s) / b; 0 <= s < b && 0 <= t < m && 0 <= x * t - q * m < 2 * m && (x * t) % m == (x * b) % m })
{
    let r = b / m; let t = b - r * m; let s = (b * b) / m - b * r; let bb = b * b;
    lemma_fundamental_div_mod(b, m); lemma_fundamental_div_mod(bb, m); assert(r * m == m * r) by (nonlinear_arith);
    let d = bb / m; let g = bb % m;
    assert(bb == m * d + g && 0 <= g < m && 0 <= t < m);
    // t b = s m + g
    assert(t * b == s * m + g) by (nonlinear_arith) requires t == b - r * m, s == d - b * r, bb == m * d + g, bb == b * b;
    assert(s * m < m * b) by (nonlinear_arith) requires t * b == s * m + g, 0 <= g, 0 <= t < m, b > 0;
    assert(0 <= t * b) by (nonlinear_arith) requires t >= 0, b > 0;
    assert(0 <= s < b) by (nonlinear_arith) requires s * m < m * b, s * m > -m, m > 0;
    let p = x * s; let q = p / b; lemma_fundamental_div_mod(p, b); let f = p % b;
    let y = x * t - q * m;
    assert(b * y == x * g + m * f) by (nonlinear_arith) requires y == x * t - q * m, t * b == s * m + g, p == x * s, p == b * q + f;
    assert(0 <= x * g) by (nonlinear_arith) requires 0 <= x, 0 <= g;
    assert(x * g < b * m) by (nonlinear_arith) requires 0 <= x < b, 0 <= g < m;
    assert(0 <= m * f < m * b) by (nonlinear_arith) requires 0 <= f < b, m > 0;
    assert(0 <= y < 2 * m) by (nonlinear_arith) requires 0 <= b * y < 2 * (b * m), b > 0;
    let xr = x * r;
    assert(x * b == m * xr + x * t) by (nonlinear_arith) requires t == b - r * m, xr == x * r;
    lemma_mod_multiples_vanish(xr, x * t, m);
}
proof fn small(y: int, b: int) requires 0 <= y < b ensures y % b == y { lemma_small_mod(y as nat, b as nat); }
/// (a - c) mod b of values known modulo b is the true difference when that difference fits
proof fn wrap_sub(a: int, c: int, b: int) requires b > 0, 0 <= a - c < b ensures ((a % b) - (c % b)) % b == a - c { lemma_sub_mod_noop(a, c, b); small(a - c, b); }
proof fn wrap_sub_r(a: int, c: int, b: int) requires b > 0, 0 <= a - c < b ensures (a - (c % b)) % b == a - c { lemma_sub_mod_noop_right(a, c, b); small(a - c, b); }
} // verus!
