verus! {
// ---- binomial coefficients -------------------------------------------------------------------
pub open spec fn choose_(n: int, k: int) -> int decreases n, k when n >= 0 && k >= 0 { if k == 0 { 1 } else if n == 0 { 0 } else { choose_(n - 1, k - 1) + choose_(n - 1, k) } }
pub proof fn choose_nn(n: int, k: int) requires n >= 0, k >= 0 ensures choose_(n, k) >= 0, k > n ==> choose_(n, k) == 0, k == n ==> choose_(n, k) == 1, k <= n ==> choose_(n, k) >= 1, k == 1 ==> choose_(n, k) == n decreases n
{ if n > 0 && k > 0 { choose_nn(n - 1, k - 1); choose_nn(n - 1, k); } }
pub proof fn choose_mono(n: int, k: int) requires n >= 1, k >= 0 ensures choose_(n - 1, k) <= choose_(n, k), k >= 1 ==> choose_(n - 1, k - 1) <= choose_(n, k)
{ if k > 0 { choose_nn(n - 1, k - 1); choose_nn(n - 1, k); } }
/// fewer options, and fewer taken by at most as many: no more combinations
pub proof fn choose_le(a: int, b: int, n: int, k: int) requires 0 <= a, 0 <= b <= k, a <= n - (k - b) ensures choose_(a, b) <= choose_(n, k) decreases n
{ if k == 0 { } else if b < k { choose_le(a, b, n - 1, k - 1); choose_mono(n, k); } else if a < n { choose_le(a, b, n - 1, k); choose_mono(n, k); } }
pub proof fn choose_sym(n: int, k: int) requires 0 <= k <= n ensures choose_(n, k) == choose_(n, n - k) decreases n
{ choose_nn(n, n); if n > 0 && k > 0 && k < n { choose_sym(n - 1, k - 1); choose_sym(n - 1, k); } }
/// k C(n,k) = n C(n-1,k-1)
pub proof fn choose_absorb(n: int, k: int) requires 1 <= k, 1 <= n ensures k * choose_(n, k) == n * choose_(n - 1, k - 1) decreases n
{
    choose_nn(n - 1, k); choose_nn(n - 1, k - 1);
    if n == 1 { choose_nn(0, k - 1); choose_nn(0, k); assert(choose_(1, k) == choose_(0, k - 1) + choose_(0, k)); if k > 1 { let z = choose_(1, k); assert(choose_(0, k - 1) == 0); assert(z == 0); assert(k * z == 0) by (nonlinear_arith) requires z == 0; } else { assert(k == 1); assert(choose_(0, 1) == 0) by { choose_nn(0, 1); } assert(choose_(0, 0) == 1); assert(choose_(1, 1) == 1); assert(k * choose_(n, k) == 1); assert(n * choose_(n - 1, k - 1) == 1); } }
    else if k == 1 { choose_nn(n, 1); assert(choose_(n - 1, 0) == 1); assert(choose_(n, 1) == n); assert(1 * n == n * 1); }
    else {
        choose_absorb(n - 1, k); choose_absorb(n - 1, k - 1);
        let (x, y, z, w) = (choose_(n - 1, k - 1), choose_(n - 1, k), choose_(n - 2, k - 1), choose_(n - 2, k - 2));
        assert(choose_(n - 1, k - 1) == w + z);
        assert(k * (x + y) == n * x) by (nonlinear_arith) requires k * y == (n - 1) * z, (k - 1) * x == (n - 1) * w, x == w + z;
        assert(choose_(n, k) == x + y);
    }
}
} // verus!
