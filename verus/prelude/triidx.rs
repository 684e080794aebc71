verus! {
/// number of pairs (a, b), a <= b < n, in the rows before `i`
pub open spec fn rows(i: int, n: int) -> int decreases i { if i <= 0 { 0 } else { rows(i - 1, n) + (n - (i - 1)) } }
pub open spec fn lin(i: int, j: int, n: int) -> int { rows(i, n) + (j - i) }
pub proof fn rows_closed(i: int, n: int) requires 0 <= i <= n ensures 2 * rows(i, n) == n * (n + 1) - (n - i) * (n - i + 1) decreases i
{ if i > 0 { rows_closed(i - 1, n); assert(n * (n + 1) - (n - i) * (n - i + 1) == n * (n + 1) - (n - (i - 1)) * (n - (i - 1) + 1) + 2 * (n - (i - 1))) by (nonlinear_arith); } else { assert(n - i == n); } }
pub proof fn even(a: int) requires a >= 0 ensures (a * (a + 1)) % 2 == 0, 0 <= a * (a + 1) decreases a { if a > 0 { even(a - 1); assert(a * (a + 1) == (a - 1) * a + 2 * a) by (nonlinear_arith); } }
pub proof fn mono(i: int, k: int, n: int) requires 0 <= i <= k <= n ensures rows(i, n) + (if k > i { n - i } else { 0 }) <= rows(k, n) decreases k - i { if k > i { mono(i, k - 1, n); } }
/// the index of a pair is below n(n+1)/2 and no other unordered pair has it
pub proof fn bijection(i: int, j: int, k: int, l: int, n: int)
    requires 0 <= i <= j < n, 0 <= k <= l < n
    ensures 0 <= lin(i, j, n), 2 * lin(i, j, n) < n * (n + 1), lin(i, j, n) == lin(k, l, n) ==> i == k && j == l
{
    mono(0, i, n); mono(i, n, n); rows_closed(n, n); if i < k { mono(i, k, n); } if k < i { mono(k, i, n); }
}
/// every index below n(n+1)/2 is taken
pub proof fn onto(t: int, n: int) requires 0 <= t, 2 * t < n * (n + 1), n >= 1 ensures exists|i: int, j: int| 0 <= i <= j < n && lin(i, j, n) == t
{ rows_closed(n, n); onto_upto(t, n, n); }
pub proof fn onto_upto(t: int, n: int, m: int) requires 0 <= t < rows(m, n), 0 <= m <= n ensures exists|i: int, j: int| 0 <= i <= j < n && lin(i, j, n) == t decreases m
{ if t >= rows(m - 1, n) { let j = m - 1 + (t - rows(m - 1, n)); assert(lin(m - 1, j, n) == t); } else { onto_upto(t, n, m - 1); } }
//@fn sunscreen_tfhe/src/entities/scheme_switch_key.rs :: get_linear_index
    requires i < n, j < n, n * (n + 1) <= usize::MAX
    ensures ret == (if i <= j { lin(i as int, j as int, n as int) } else { lin(j as int, i as int, n as int) })
//@at start
    proof {
        let (r, c) = if i <= j { (i as int, j as int) } else { (j as int, i as int) };
        let nn = n as int; assert(nn * (nn + 1) >= nn + 1) by (nonlinear_arith) requires nn >= 1; assert((nn - r) * (nn - r + 1) >= 0) by (nonlinear_arith) requires r <= nn; assert(0 <= nn * (nn + 1)); rows_closed(r, nn); even(nn); even(nn - r); mono(0, r, nn); assert((nn - r) * (nn - r + 1) <= nn * (nn + 1)) by (nonlinear_arith) requires 0 <= r <= nn;
    }
//@end
} // verus!
