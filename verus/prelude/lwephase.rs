verus! {
// ---- the phase is transformed by the same linear map (any key, any dimension) ------------------
pub proof fn dot_add(a: Seq<Torus<WORD>>, b: Seq<Torus<WORD>>, c: Seq<Torus<WORD>>, s: Seq<WORD>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).0 == wadd(a[i].0, b[i].0)
    ensures cong(sdot(c, s, n), sdot(a, s, n) + sdot(b, s, n)) decreases n
{
    if n > 0 {
        dot_add(a, b, c, s, n - 1); let (x, y, z, k) = (a[n - 1].0 as int, b[n - 1].0 as int, c[n - 1].0 as int, s[n - 1] as int);
        assert(z == wadd(x as WORD, y as WORD)); md_id(z as WORD); cong_mul(z, x + y, k); assert((x + y) * k == x * k + y * k) by (nonlinear_arith);
        cong_add(sdot(c, s, n - 1), sdot(a, s, n - 1) + sdot(b, s, n - 1), z * k, x * k + y * k);
    }
}
pub proof fn dot_sub(a: Seq<Torus<WORD>>, b: Seq<Torus<WORD>>, c: Seq<Torus<WORD>>, s: Seq<WORD>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).0 == wsub(a[i].0, b[i].0)
    ensures cong(sdot(c, s, n), sdot(a, s, n) - sdot(b, s, n)) decreases n
{
    if n > 0 {
        dot_sub(a, b, c, s, n - 1); let (x, y, z, k) = (a[n - 1].0 as int, b[n - 1].0 as int, c[n - 1].0 as int, s[n - 1] as int);
        assert(z == wsub(x as WORD, y as WORD)); md_id(z as WORD); cong_mul(z, x - y, k); assert((x - y) * k == x * k - y * k) by (nonlinear_arith);
        cong_add(sdot(c, s, n - 1), sdot(a, s, n - 1) - sdot(b, s, n - 1), z * k, x * k - y * k);
    }
}
pub proof fn dot_mad(a: Seq<Torus<WORD>>, b: Seq<Torus<WORD>>, c: Seq<Torus<WORD>>, s: Seq<WORD>, m: WORD, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).0 == wadd(a[i].0, wmul(b[i].0, m))
    ensures cong(sdot(c, s, n), sdot(a, s, n) + m * sdot(b, s, n)) decreases n
{
    if n > 0 {
        dot_mad(a, b, c, s, m, n - 1); let (x, y, z, k) = (a[n - 1].0 as int, b[n - 1].0 as int, c[n - 1].0 as int, s[n - 1] as int);
        let w = wmul(y as WORD, m); md_id(w); md_id(z as WORD); let ym = y * m; cong_add(x, x, w as int, ym); cong_mul(z, x + ym, k); assert((x + ym) * k == x * k + ym * k) by (nonlinear_arith);
        assert(ym * k == m * (y * k)) by (nonlinear_arith) requires ym == y * m; let d = sdot(b, s, n - 1); assert(m * (d + y * k) == m * d + m * (y * k)) by (nonlinear_arith);
        cong_add(sdot(c, s, n - 1), sdot(a, s, n - 1) + m * d, z * k, x * k + ym * k);
    } else { assert(m * 0 == 0); }
}
/// T07: addition, subtraction and scaled accumulation of ciphertexts act on the phase as the same operation.
pub proof fn phase_linear(a: Seq<Torus<WORD>>, b: Seq<Torus<WORD>>, sum: Seq<Torus<WORD>>, dif: Seq<Torus<WORD>>, mad: Seq<Torus<WORD>>, m: WORD, s: Seq<WORD>, n: int)
    requires n >= 0, forall|i: int| 0 <= i <= n ==> (#[trigger] sum[i]).0 == wadd(a[i].0, b[i].0), forall|i: int| 0 <= i <= n ==> (#[trigger] dif[i]).0 == wsub(a[i].0, b[i].0), forall|i: int| 0 <= i <= n ==> (#[trigger] mad[i]).0 == wadd(a[i].0, wmul(b[i].0, m))
    ensures phase(sum, s, n) == wadd(phase(a, s, n), phase(b, s, n)), phase(dif, s, n) == wsub(phase(a, s, n), phase(b, s, n)), phase(mad, s, n) == wadd(phase(a, s, n), wmul(phase(b, s, n), m))
{
    dot_add(a, b, sum, s, n); dot_sub(a, b, dif, s, n); dot_mad(a, b, mad, s, m, n);
    let (x, y) = (a[n].0 as int, b[n].0 as int); let (p, q) = (sdot(a, s, n), sdot(b, s, n));
    md_id(sum[n].0); md_id(dif[n].0); md_id(mad[n].0); md_id(wmul(y as WORD, m)); md_id(m);
    assert(md(sum[n].0 as int) == md(x + y)); assert(md(dif[n].0 as int) == md(x - y)); let ym = y * m; cong_add(x, x, wmul(y as WORD, m) as int, ym);
    cong_add(sum[n].0 as int, x + y, sdot(sum, s, n), p + q); cong_add(dif[n].0 as int, x - y, sdot(dif, s, n), p - q); cong_add(mad[n].0 as int, x + ym, sdot(mad, s, n), p + m * q);
    md_add(x - p, y - q); md_sub(x - p, y - q); md_mul(y - q, m as int); md_add(x - p, (y - q) * m);
    assert((y - q) * m == ym - m * q) by (nonlinear_arith) requires ym == y * m;
}
} // verus!
