//@include ../prelude/base.rs
//@include ../prelude/bdd.rs
//@include ../prelude/wordbits.rs
verus! {
//@fn mux_circuits/src/lib.rs :: convert_value_to_bits
//@ret r
    requires width <= 128
    ensures r@.len() == width, forall|k: int| 0 <= k < width ==> #[trigger] r@[k] == nbit(val as int)(k)
//@at loop 0
    invariant __hi0_1 == width, __i0 <= width, width <= 128, bits@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] bits@[k] == nbit(val as int)(k)
    decreases __hi0_1 - __i0
//@at start 0
    proof { shr128(val, i as nat); let ii = i as u128; assert(((val >> i) & 1 == 1) == ((val >> ii) & 1 == 1)) by (bit_vector) requires ii == i as u128, i < 128; }
//@end
#[derive(Clone, Copy)] pub struct Bit(pub bool);
pub enum Error { OutOfRange }
//@fn mux_circuits/src/util.rs :: try_to_bits
//@ret r
//@slice result own
    ensures r.is_ok() <==> val < p2(bits as nat), r matches Ok(v) ==> v@.len() == bits && forall|k: int| 0 <= k < bits ==> (#[trigger] v@[k]).0 == nbit(val as int)(k)
//@at start
    proof { if bits < 64 { shl64(bits as nat); } else { p2_128(); p2mono(64, bits as nat); } }
//@at loop 0
    invariant __s0_0@.len() == bits, __n0 == (if bits < 64 { bits } else { 64 }), __i0 <= __n0, (forall|k: int| __i0 <= k < bits ==> !(#[trigger] __s0_0@[k]).0), forall|k: int| 0 <= k < __i0 ==> (#[trigger] __s0_0@[k]).0 == nbit(val as int)(k)
    decreases __n0 - __i0
//@at start 0
    proof { shr64(val, i as nat); }
//@at after 0
    proof { assert forall|k: int| 64 <= k < bits implies !(#[trigger] nbit(val as int)(k)) by { p2_128(); p2mono(64, k as nat); assert(val as int / (p2(k as nat) as int) == 0) by { vstd::arithmetic::div_mod::lemma_basic_div(val as int, p2(k as nat) as int); } } }
//@end

// ---- multiplication: the interleaved inputs of the array multiplier --------------------------------------------------------
/// how many cells (r, c) of the m x n array have r + c + 1 == d, and how many lie on later diagonals
pub open spec fn dlen(n: int, m: int, d: int) -> int { if 1 <= d <= n + m - 1 { let row = if d > n { d - n } else { 0 }; let col = if d > n { 0 } else { n - d }; if m - row < n - col { m - row } else { n - col } } else { 0 } }
pub open spec fn doff(n: int, m: int, d: int) -> int decreases n + m - d { if d >= n + m - 1 { 0 } else { doff(n, m, d + 1) + dlen(n, m, d + 1) } }
/// where the pair of inputs of cell (r, c) stands
pub open spec fn cpos(n: int, m: int, r: int, c: int) -> int { let d = r + c + 1; doff(n, m, d) + r - (if d > n { d - n } else { 0 }) }
proof fn doff_rows(n: int, m: int, d: int) requires n >= 1, m >= 1, 0 <= d <= n + m ensures doff(n, m + 1, d) == doff(n, m, d) + (if d >= n + m { 0 } else if d >= m { n + m - d } else { n }) decreases n + m - d {
    if d < n + m { doff_rows(n, m, d + 1); if d == n + m - 1 { assert(doff(n, m, d) == 0); assert(doff(n, m, d + 1) == 0); assert(dlen(n, m, d + 1) == 0); } assert(doff(n, m, d) == doff(n, m, d + 1) + dlen(n, m, d + 1)); assert(doff(n, m + 1, d) == doff(n, m + 1, d + 1) + dlen(n, m + 1, d + 1)); }
}
proof fn doff_one(n: int, d: int) requires n >= 1, 0 <= d <= n ensures doff(n, 1, d) == n - d decreases n - d { if d < n { doff_one(n, d + 1); } }
proof fn doff_all(n: int, m: int) requires n >= 1, m >= 1 ensures doff(n, m, 0) == n * m decreases m { if m == 1 { doff_one(n, 0); assert(n * 1 == n) by (nonlinear_arith); } else { doff_all(n, m - 1); doff_rows(n, m - 1, 0); assert(n * m == n * (m - 1) + n) by (nonlinear_arith); } }
proof fn doff_mono(n: int, m: int, d: int, e: int) requires n >= 1, m >= 1, 0 <= d <= e ensures 0 <= doff(n, m, e) <= doff(n, m, d), d < e ==> doff(n, m, e) + dlen(n, m, d + 1) <= doff(n, m, d) decreases n + m - d + (e - d) {
    if d < e { if d >= n + m - 1 { } else { doff_mono(n, m, d + 1, e); } } else if d < n + m - 1 { doff_mono(n, m, d + 1, d + 1); }
}
proof fn cpos_in(n: int, m: int, r: int, c: int) requires 0 <= r < m, 0 <= c < n ensures 0 <= cpos(n, m, r, c) < n * m { let d = r + c + 1; doff_mono(n, m, d - 1, d); doff_mono(n, m, 0, d - 1); doff_all(n, m); }
proof fn cpos_range(n: int, m: int, r: int, c: int) requires 0 <= r < m, 0 <= c < n ensures ({ let d = r + c + 1; doff(n, m, d) <= cpos(n, m, r, c) < doff(n, m, d) + dlen(n, m, d) && 1 <= d <= n + m - 1 && doff(n, m, d) + dlen(n, m, d) == doff(n, m, d - 1) }) {}
proof fn cpos_inj(n: int, m: int, r: int, c: int, r2: int, c2: int) requires 0 <= r < m, 0 <= c < n, 0 <= r2 < m, 0 <= c2 < n, cpos(n, m, r, c) == cpos(n, m, r2, c2) ensures r == r2, c == c2 {
    cpos_range(n, m, r, c); cpos_range(n, m, r2, c2); let d = r + c + 1; let d2 = r2 + c2 + 1;
    if d < d2 { doff_mono(n, m, d, d2 - 1); } else if d2 < d { doff_mono(n, m, d2, d - 1); }
}
/// the first k pairs of the interleaved stream are in place
pub open spec fn encok<T>(s: Seq<T>, x: Seq<T>, y: Seq<T>, k: int) -> bool { s.len() == 2 * k && forall|i: int, j: int| 0 <= i < y.len() && 0 <= j < x.len() && #[trigger] cpos(x.len() as int, y.len() as int, i, j) < k ==> ({ let q = 2 * cpos(x.len() as int, y.len() as int, i, j); s[q] == x[j] && s[q + 1] == y[i] }) }
proof fn encstep<T>(s: Seq<T>, x: Seq<T>, y: Seq<T>, k: int, i: int, j: int) requires encok(s, x, y, k), 0 <= i < y.len(), 0 <= j < x.len(), cpos(x.len() as int, y.len() as int, i, j) == k ensures encok(s.push(x[j]).push(y[i]), x, y, k + 1) {
    let n = x.len() as int; let m = y.len() as int; let t = s.push(x[j]).push(y[i]);
    assert forall|a: int, b: int| 0 <= a < m && 0 <= b < n && #[trigger] cpos(n, m, a, b) < k + 1 implies ({ let q = 2 * cpos(n, m, a, b); t[q] == x[b] && t[q + 1] == y[a] }) by { cpos_in(n, m, a, b); if cpos(n, m, a, b) == k { cpos_inj(n, m, a, b, i, j); } }
}
//@fn mux_circuits/src/mul.rs :: mul_bdd_encode
//@ret r
//@sub "vec![]" => "Vec::<T>::new()" optional
    requires x@.len() > 0, y@.len() > 0, x@.len() + y@.len() <= 0xFFFF
    ensures encok(r@, x@, y@, (x@.len() * y@.len()) as int)
//@at start
    proof { let (n, m) = (x@.len() as int, y@.len() as int); doff_all(n, m); assert(doff(n, m, n + m - 1) == 0); assert(encok(Seq::<T>::empty(), x@, y@, 0)) by { assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n && #[trigger] cpos(n, m, i, j) < 0 implies false by { cpos_in(n, m, i, j); } } }
//@at loop 0
    invariant n == x@.len(), m == y@.len(), n > 0, m > 0, n + m <= 0xFFFF, num_diags == n + m - 1, __lo0_0 == 1, __i0 <= num_diags + 1, __i0 >= 1, encok(encoded@, x@, y@, doff(n as int, m as int, __i0 - 1))
    decreases __i0
//@at before 0
    proof { assert(encoded@ =~= Seq::<T>::empty()); }
//@at start 0
    let ghost dd = d as int;
//@at loop 1
    invariant n == x@.len(), m == y@.len(), n > 0, m > 0, n + m <= 0xFFFF, d == dd, 1 <= d <= n + m - 1, row == (if d > n { d - n } else { 0 }), col == (if d > n { 0 } else { n - d }), i <= dlen(n as int, m as int, dd), encok(encoded@, x@, y@, doff(n as int, m as int, dd) + i)
    ensures i == dlen(n as int, m as int, dd)
    decreases n + m - i
//@at start 1
    let ghost e0 = encoded@;
//@at end 1
    proof { assert(cpos(n as int, m as int, r as int, n - c - 1) == doff(n as int, m as int, dd) + i - 1); encstep(e0, x@, y@, doff(n as int, m as int, dd) + i - 1, r as int, n - c - 1); assert(encoded@ =~= e0.push(x@[n - c - 1]).push(y@[r as int])); }
//@at after 0
    proof { assert(encoded@.len() == 2 * (n * m)); }
//@end
/// cells on diagonals above d are in place
pub open spec fn decok(n: int, m: int, x: Seq<Bdd>, y: Seq<Bdd>, s: Seq<Bdd>, k: int) -> bool { x.len() == n * m && y.len() == n * m && forall|i: int, j: int| 0 <= i < m && 0 <= j < n && #[trigger] cpos(n, m, i, j) < k ==> ({ let q = 2 * cpos(n, m, i, j); x[i * n + j] == s[q] && y[i * n + j] == s[q + 1] }) }
proof fn cell(n: int, m: int, i: int, j: int) requires 0 <= i < m, 0 <= j < n ensures 0 <= i * n + j < n * m, i * n >= 0 { assert(i * n + j < (i + 1) * n) by (nonlinear_arith) requires j < n; assert((i + 1) * n <= m * n) by (nonlinear_arith) requires i + 1 <= m, n > 0; assert(m * n == n * m) by (nonlinear_arith); assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n > 0; }
proof fn cell_inj(n: int, i: int, j: int, i2: int, j2: int) requires 0 <= j < n, 0 <= j2 < n, i * n + j == i2 * n + j2 ensures i == i2, j == j2 { if i < i2 { assert((i + 1) * n <= i2 * n) by (nonlinear_arith) requires i + 1 <= i2, n > 0; assert((i + 1) * n == i * n + n) by (nonlinear_arith); } else if i2 < i { assert((i2 + 1) * n <= i * n) by (nonlinear_arith) requires i2 + 1 <= i, n > 0; assert((i2 + 1) * n == i2 * n + n) by (nonlinear_arith); } }
proof fn decstep(n: int, m: int, x: Seq<Bdd>, y: Seq<Bdd>, s: Seq<Bdd>, k: int, i: int, j: int) requires decok(n, m, x, y, s, k), 0 <= i < m, 0 <= j < n, cpos(n, m, i, j) == k, s.len() == 2 * (n * m)
    ensures decok(n, m, x.update(i * n + j, s[2 * k]), y.update(i * n + j, s[2 * k + 1]), s, k + 1)
{
    let x1 = x.update(i * n + j, s[2 * k]); let y1 = y.update(i * n + j, s[2 * k + 1]); cell(n, m, i, j);
    assert forall|a: int, b: int| 0 <= a < m && 0 <= b < n && #[trigger] cpos(n, m, a, b) < k + 1 implies ({ let q = 2 * cpos(n, m, a, b); x1[a * n + b] == s[q] && y1[a * n + b] == s[q + 1] }) by { cell(n, m, a, b); cpos_in(n, m, a, b); if cpos(n, m, a, b) == k { cpos_inj(n, m, a, b, i, j); } else if a * n + b == i * n + j { cell_inj(n, a, b, i, j); } }
}
//@fn mux_circuits/src/mul.rs :: mul_bdd_decode
//@sig fn mul_bdd_decode(encoded: &[Bdd], n: usize, m: usize) -> (r: (Vec<Bdd>, Vec<Bdd>))
    requires n > 0, m > 0, n + m <= 0xFFFF, encoded@.len() == 2 * (n * m)
    ensures decok(n as int, m as int, r.0@, r.1@, encoded@, n * m)
//@at start
    proof { doff_all(n as int, m as int); assert(n * m <= 0xFFFF * 0xFFFF) by (nonlinear_arith) requires n <= 0xFFFF, m <= 0xFFFF; assert(n * m >= 1) by (nonlinear_arith) requires n >= 1, m >= 1; assert(2 * m * n == 2 * (n * m)) by (nonlinear_arith); assert(m * n == n * m) by (nonlinear_arith); }
//@at before 0
    let ghost N = n as int; let ghost M = m as int;
    proof { assert(doff(N, M, N + M - 1) == 0); assert(decok(N, M, x@, y@, encoded@, 0)) by { assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N && #[trigger] cpos(N, M, i, j) < 0 implies false by { cpos_in(N, M, i, j); } } }
//@at loop 0
    invariant_except_break i == 2 * doff(N, M, start_row + start_col + 1), decok(N, M, x@, y@, encoded@, doff(N, M, start_row + start_col + 1))
    invariant n > 0, m > 0, n + m <= 0xFFFF, N == n, M == m, encoded@.len() == 2 * (N * M), N * M <= 0xFFFF * 0xFFFF, start_row < m, start_col < n, start_row > 0 ==> start_col == n - 1, doff(N, M, 0) == N * M
    ensures decok(N, M, x@, y@, encoded@, N * M)
    decreases start_row + start_col
//@at start 0
    let ghost dd = start_row + start_col + 1;
    proof { doff_mono(N, M, 0, dd - 1); assert(doff(N, M, dd - 1) == doff(N, M, dd) + dlen(N, M, dd)); }
//@at loop 1
    invariant n > 0, m > 0, n + m <= 0xFFFF, N == n, M == m, encoded@.len() == 2 * (N * M), N * M <= 0xFFFF * 0xFFFF, start_row < m, start_col < n, start_row > 0 ==> start_col == n - 1, dd == start_row + start_col + 1, doff(N, M, dd) + dlen(N, M, dd) == doff(N, M, dd - 1), doff(N, M, dd - 1) <= N * M, doff(N, M, dd) >= 0,
        j <= dlen(N, M, dd), i == 2 * (doff(N, M, dd) + j), decok(N, M, x@, y@, encoded@, doff(N, M, dd) + j)
    ensures j == dlen(N, M, dd)
    decreases n + m - j
//@at start 1
    let ghost x0 = x@; let ghost y0 = y@; let ghost j0 = j;
    proof { if start_row + j < m && start_col >= j { cell(N, M, start_row + j, start_col - j); } }
//@at end 1
    proof { let k = doff(N, M, dd) + j0; assert(cpos(N, M, r as int, c as int) == k); decstep(N, M, x0, y0, encoded@, k, r as int, c as int); assert(x@ =~= x0.update(r * n + c, encoded@[2 * k])); assert(y@ =~= y0.update(r * n + c, encoded@[2 * k + 1])); }
//@end

pub open spec fn shf(f: spec_fn(int) -> bool, c: bool, n: nat) -> spec_fn(int) -> bool { |k: int| if k < n - 1 { f(k + 1) } else { c } }
proof fn val_shift(f: spec_fn(int) -> bool, c: bool, n: nat) requires n >= 1 ensures val(f, n) + b2n(c) * p2(n) == b2n(f(0)) + 2 * val(shf(f, c, n), n) decreases n {
    let g = shf(f, c, n);
    if n == 1 { reveal_with_fuel(val, 3); reveal_with_fuel(p2, 3); assert(val(g, 1) == b2n(g(0)) * p2(0)); assert(val(f, 1) == b2n(f(0)) * p2(0)); assert(b2n(f(0)) * 1 == b2n(f(0)) && b2n(c) * 2 == 2 * b2n(c) && b2n(c) * 1 == b2n(c)); assert(g(0) == c); assert(p2(1) == 2); } else {
        let m = (n - 1) as nat; let h = shf(f, f(m as int), m); val_shift(f, f(m as int), m); val_ext(g, h, m);
        assert(val(f, n) == val(f, m) + b2n(f(n - 1)) * p2(m)); assert(val(g, n) == val(g, m) + b2n(g(n - 1)) * p2(m));
        let p = p2(m) as int; let c1 = b2n(c) as int; assert(p2(n) == 2 * p); assert(c1 * (2 * p) == 2 * (c1 * p)) by (nonlinear_arith);
    }
}
proof fn val_and(f: spec_fn(int) -> bool, y: bool, n: nat) ensures val(|k: int| f(k) && y, n) == b2n(y) * val(f, n) decreases n { if n > 0 { val_and(f, y, (n - 1) as nat); let (a, b, p) = (val(f, (n - 1) as nat) as int, b2n(f(n - 1)) as int, p2((n - 1) as nat) as int); assert(val(|k: int| f(k) && y, n) == val(|k: int| f(k) && y, (n - 1) as nat) + b2n(f(n - 1) && y) * p2((n - 1) as nat)); if y { assert(1 * (a + b * p) == a + b * p && 1 * a == a); } else { assert(0 * (a + b * p) == 0 && 0 * a == 0 && 0 * p == 0); } } else { assert(b2n(y) * 0 == 0) by (nonlinear_arith); } }
proof fn p2add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases b { if b > 0 { p2add(a, (b - 1) as nat); let (x, y) = (p2(a) as int, p2((b - 1) as nat) as int); assert(x * (2 * y) == 2 * (x * y)) by (nonlinear_arith); } else { assert(p2(a) * 1 == p2(a)) by (nonlinear_arith); } }
proof fn val_cat(f: spec_fn(int) -> bool, a: nat, b: nat) ensures val(f, a + b) == val(f, a) + p2(a) * val(|k: int| f(a + k), b) decreases b {
    let g = |k: int| f(a + k);
    if b > 0 { let c = (b - 1) as nat; val_cat(f, a, c); p2add(a, c); assert(val(g, b) == val(g, c) + b2n(f(a + b - 1)) * p2(c)); let (x, y, z, t) = (p2(a) as int, p2(c) as int, val(g, c) as int, b2n(f(a + b - 1)) as int); assert(x * (z + t * y) == x * z + t * (x * y)) by (nonlinear_arith); assert(val(f, a + b) == val(f, a + c) + b2n(f(a + b - 1)) * p2(a + c)); } else { assert(p2(a) * 0 == 0) by (nonlinear_arith); }
}
/// e is the interleaved stream of the bits xs and ys
pub open spec fn stream(n: int, m: int, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>) -> bool { xs.len() == n && ys.len() == m && encok(e, xs, ys, n * m) }
pub open spec fn qb(s: Seq<bool>) -> spec_fn(int) -> bool { |k: int| s[k] }
pub open spec fn sf(s: Seq<Bdd>, n: int, i: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| s[i * n + k].ev(e) }
pub open spec fn lf(s: Seq<Bdd>, n: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| s[k * n].ev(e) }
pub open spec fn bf(s: Seq<Bdd>, c: Seq<Bdd>, n: int, i: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| if k < n - 1 { s[i * n + (k + 1)].ev(e) } else { c[i * n + (n - 1)].ev(e) } }
pub open spec fn af(xs: Seq<bool>, y: bool) -> spec_fn(int) -> bool { |k: int| xs[k] && y }
/// rows 0..=i of the array are done: outputs so far plus the running row is the product with the first i + 1 bits of y
pub open spec fn rowok(s: Seq<Bdd>, c: Seq<Bdd>, n: int, i: int, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>) -> bool {
    val(lf(s, n, e), i as nat) + p2(i as nat) * (val(sf(s, n, i, e), n as nat) + b2n(c[i * n + (n - 1)].ev(e)) * p2(n as nat)) == val(qb(xs), n as nat) * val(qb(ys), (i + 1) as nat)
}
pub open spec fn colok(s: Seq<Bdd>, c: Seq<Bdd>, s0: Seq<Bdd>, c0: Seq<Bdd>, n: int, i: int, j: int, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>) -> bool {
    val(sf(s, n, i, e), j as nat) + b2n(j > 0 && c[i * n + (j - 1)].ev(e)) * p2(j as nat) == val(bf(s0, c0, n, i - 1, e), j as nat) + val(af(xs, ys[i]), j as nat)
}
proof fn colstep(s: Seq<Bdd>, c: Seq<Bdd>, s1: Seq<Bdd>, c1: Seq<Bdd>, s0: Seq<Bdd>, c0: Seq<Bdd>, n: int, i: int, j: int, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>)
    requires 0 <= j, colok(s, c, s0, c0, n, i, j, e, xs, ys), forall|q: int| q != i * n + j ==> s1[q] == s[q],
        ({ let a = xs[j] && ys[i]; let b = bf(s0, c0, n, i - 1, e)(j); let ci = j > 0 && c[i * n + (j - 1)].ev(e); b2n(s1[i * n + j].ev(e)) + 2 * b2n(c1[i * n + j].ev(e)) == b2n(a) + b2n(b) + b2n(ci) })
    ensures colok(s1, c1, s0, c0, n, i, j + 1, e, xs, ys)
{
    val_ext(sf(s, n, i, e), sf(s1, n, i, e), j as nat); let p = p2(j as nat) as int;
    let (s_, c_, a_, b_, i_) = (b2n(s1[i * n + j].ev(e)) as int, b2n(c1[i * n + j].ev(e)) as int, b2n(xs[j] && ys[i]) as int, b2n(bf(s0, c0, n, i - 1, e)(j)) as int, b2n(j > 0 && c[i * n + (j - 1)].ev(e)) as int);
    assert(s_ * p + c_ * (2 * p) == a_ * p + b_ * p + i_ * p) by (nonlinear_arith) requires s_ + 2 * c_ == a_ + b_ + i_;
    assert(p2((j + 1) as nat) == 2 * p); assert(sf(s1, n, i, e)(j) == s1[i * n + j].ev(e)); assert(af(xs, ys[i])(j) == (xs[j] && ys[i])); assert(c1[i * n + ((j + 1) - 1)] == c1[i * n + j]);
}
proof fn rowstep(s: Seq<Bdd>, c: Seq<Bdd>, s0: Seq<Bdd>, c0: Seq<Bdd>, n: int, i: int, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>)
    requires n >= 1, i >= 1, rowok(s0, c0, n, i - 1, e, xs, ys), colok(s, c, s0, c0, n, i, n, e, xs, ys), forall|q: int| 0 <= q < i * n ==> s[q] == s0[q], ys.len() > i
    ensures rowok(s, c, n, i, e, xs, ys)
{
    let m = (i - 1) as nat; let f = sf(s0, n, i - 1, e); let cb = c0[(i - 1) * n + (n - 1)].ev(e); val_shift(f, cb, n as nat);
    let g = shf(f, cb, n as nat); val_ext(g, bf(s0, c0, n, i - 1, e), n as nat);
    val_and(qb(xs), ys[i], n as nat); let h = |k: int| qb(xs)(k) && ys[i]; val_ext(h, af(xs, ys[i]), n as nat);
    assert forall|k: int| 0 <= k < i implies #[trigger] lf(s, n, e)(k) == lf(s0, n, e)(k) by { cell(n, i, k, 0); assert(n * i == i * n) by (nonlinear_arith); }
    val_ext(lf(s, n, e), lf(s0, n, e), i as nat);
    assert(val(lf(s0, n, e), i as nat) == val(lf(s0, n, e), m) + b2n(lf(s0, n, e)(i - 1)) * p2(m));
    assert(lf(s0, n, e)(i - 1) == f(0)) by { assert((i - 1) * n + 0 == (i - 1) * n); }
    assert(val(qb(ys), (i + 1) as nat) == val(qb(ys), i as nat) + b2n(ys[i]) * p2(i as nat));
    let (L, P, b0, B, X, Y, y, R) = (val(lf(s0, n, e), m) as int, p2(m) as int, b2n(f(0)) as int, val(bf(s0, c0, n, i - 1, e), n as nat) as int, val(qb(xs), n as nat) as int, val(qb(ys), i as nat) as int, b2n(ys[i]) as int, (val(sf(s, n, i, e), n as nat) + b2n(c[i * n + (n - 1)].ev(e)) * p2(n as nat)) as int);
    assert(p2(i as nat) == 2 * P); assert(R == B + y * X); assert(L + P * (b0 + 2 * B) == X * Y);
    assert((L + b0 * P) + (2 * P) * R == X * (Y + y * (2 * P))) by (nonlinear_arith) requires R == B + y * X, L + P * (b0 + 2 * B) == X * Y;
}
/// each and-gate of the array
pub open spec fn andok(a: Seq<Bdd>, n: int, m: int, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>) -> bool { forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] cpos(n, m, i, j) >= 0 && a[i * n + j].ev(e) == (xs[j] && ys[i]) }
pub open spec fn allnv(s: Seq<Bdd>, v: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).nv() == v }
proof fn cell_of(n: int, m: int, q: int) requires n >= 1, m >= 1, 0 <= q < n * m ensures q == (q / n) * n + q % n, 0 <= q / n < m, 0 <= q % n < n { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, n); assert(n * (q / n) == (q / n) * n) by (nonlinear_arith); assert(q / n < m) by { if q / n >= m { assert((q / n) * n >= m * n) by (nonlinear_arith) requires q / n >= m, n >= 1; assert(m * n == n * m) by (nonlinear_arith); } } assert(q / n >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(q, n); } }
proof fn ands_ok(n: int, m: int, vars: Seq<Bdd>, x: Seq<Bdd>, y: Seq<Bdd>, a: Seq<Bdd>, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>)
    requires n >= 1, m >= 1, isvars(vars, (2 * (n * m)) as nat), decok(n, m, x, y, vars, n * m), a.len() == n * m, forall|q: int| 0 <= q < n * m ==> (#[trigger] a[q]).ev(e) == (x[q].ev(e) && y[q].ev(e)), stream(n, m, e, xs, ys)
    ensures andok(a, n, m, e, xs, ys)
{ assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] cpos(n, m, i, j) >= 0 && a[i * n + j].ev(e) == (xs[j] && ys[i]) by { cell(n, m, i, j); cpos_in(n, m, i, j); let q = 2 * cpos(n, m, i, j); assert(vars[q].ev(e) == e[q]); assert(vars[q + 1].ev(e) == e[q + 1]); } }
proof fn row0(s: Seq<Bdd>, c: Seq<Bdd>, n: int, m: int, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>) requires n >= 1, m >= 1, ys.len() == m, xs.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).ev(e) == (xs[k] && ys[0]), !c[n - 1].ev(e) ensures rowok(s, c, n, 0, e, xs, ys) {
    val_and(qb(xs), ys[0], n as nat); let h = |k: int| qb(xs)(k) && ys[0]; assert forall|k: int| 0 <= k < n implies #[trigger] sf(s, n, 0, e)(k) == h(k) by { assert(0 * n + k == k); assert(s[k].ev(e) == (xs[k] && ys[0])); } val_ext(sf(s, n, 0, e), h, n as nat);
    reveal_with_fuel(val, 2); reveal_with_fuel(p2, 2); assert(val(qb(ys), 1) == b2n(qb(ys)(0)) * p2(0)); assert(b2n(ys[0]) * 1 == b2n(ys[0])); let (X, y) = (val(qb(xs), n as nat) as int, b2n(ys[0]) as int); assert(y * X == X * y) by (nonlinear_arith); assert(0 * n + (n - 1) == n - 1); assert(0 * p2(n as nat) == 0); let r = (val(sf(s, n, 0, e), n as nat)) as int; assert(1 * r == r);
}
proof fn lastrow(s: Seq<Bdd>, c: Seq<Bdd>, r: Seq<Bdd>, n: int, m: int, e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>) requires n >= 1, m >= 1, r.len() == n + m, rowok(s, c, n, m - 1, e, xs, ys), (forall|k: int| 0 <= k < m ==> #[trigger] r[k] == s[k * n]), (forall|k: int| 0 <= k < n ==> #[trigger] r[m - 1 + k] == s[(m - 1) * n + k]), r[n + m - 1] == c[(m - 1) * n + (n - 1)]
    ensures val(sb(r, e), (n + m) as nat) == val(qb(xs), n as nat) * val(qb(ys), m as nat)
{
    let a = (m - 1) as nat; let f = sb(r, e); val_cat(f, a, (n + 1) as nat); let g = |k: int| f(a + k); assert forall|k: int| 0 <= k < a implies #[trigger] f(k) == lf(s, n, e)(k) by { assert(r[k] == s[k * n]); } val_ext(f, lf(s, n, e), a);
    assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == sf(s, n, m - 1, e)(k) by { assert(r[m - 1 + k] == s[(m - 1) * n + k]); } val_ext(g, sf(s, n, m - 1, e), n as nat);
    assert(val(g, (n + 1) as nat) == val(g, n as nat) + b2n(g(n)) * p2(n as nat));
}
//@fn mux_circuits/src/mul.rs :: multiplier_bdd
//@ret r
//@sub "Vec::new()" => "Vec::<Bdd>::new()" optional
//@sub "vec![]" => "Vec::<Bdd>::new()" optional
    requires n > 0, m > 0, n + m <= 0xFFFF, 2 * (n * m) < 0xFFFF
    ensures r@.len() == n + m, (forall|k: int| 0 <= k < n + m ==> (#[trigger] r@[k]).nv() == 2 * (n * m)),
        forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(n as int, m as int, e, xs, ys) ==> val(sb(r@, e), (n + m) as nat) == val(qb(xs), n as nat) * val(qb(ys), m as nat)
//@at start
    proof { assert(n * m >= 1 && n * m >= n && n * m >= m) by (nonlinear_arith) requires n >= 1, m >= 1; assert(2 * n * m == 2 * (n * m)) by (nonlinear_arith); assert(m * n == n * m) by (nonlinear_arith); }
    let ghost N = n as int; let ghost M = m as int; let ghost V = 2 * (N * M);
//@at loop 0
    invariant __s0_0@ == vars@, __n0 == __s0_0@.len(), __i0 <= __n0, __v0@.len() == __i0, variable_set.nv() == V, vars@.len() == V, (forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).idx() == i), (forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).nv() == V), forall|i: int, e: Seq<bool>| 0 <= i < __i0 && e.len() == V ==> #[trigger] __v0@[i].ev(e) == e[i]
    decreases __n0 - __i0
//@at loop 1
    invariant __s1_0@ == x@, __s1_1@ == y@, __n1 == N * M, x@.len() == N * M, y@.len() == N * M, __i1 <= __n1, __v1@.len() == __i1, allnv(x@, V), allnv(y@, V), allnv(__v1@, V), forall|q: int, e: Seq<bool>| 0 <= q < __i1 ==> #[trigger] __v1@[q].ev(e) == (x@[q].ev(e) && y@[q].ev(e))
    decreases __n1 - __i1
//@at init 1
    proof { assert forall|q: int| 0 <= q < N * M implies (#[trigger] x@[q]).nv() == V && y@[q].nv() == V by { cell_of(N, M, q); cpos_in(N, M, q / N, q % N); } assert forall|q: int| 0 <= q < N * M implies (#[trigger] y@[q]).nv() == V by { assert(x@[q].nv() == V); } }
//@at before 2
    proof { assert forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(N, M, e, xs, ys) implies andok(ands@, N, M, e, xs, ys) by { ands_ok(N, M, vars@, x@, y@, ands@, e, xs, ys); } }
//@at loop 2
    invariant n == N, m == M, N >= 1, M >= 1, N <= N * M <= 0xFFFF, __lo2_0 == 0, __hi2_1 == n, __i2 <= n, ands@.len() == N * M, allnv(ands@, V), sums@.len() == N * M, allnv(sums@, V), forall|k: int| 0 <= k < __i2 ==> #[trigger] sums@[k] == ands@[k]
    decreases __hi2_1 - __i2
//@at start 2
    proof { assert(0 * n == 0); }
//@at before 3
    proof { assert forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(N, M, e, xs, ys) implies rowok(sums@, carries@, N, 0, e, xs, ys) by { assert(andok(ands@, N, M, e, xs, ys)); assert forall|k: int| 0 <= k < N implies (#[trigger] sums@[k]).ev(e) == (xs[k] && ys[0]) by { assert(cpos(N, M, 0, k) >= 0); assert(0 * N + k == k); } row0(sums@, carries@, N, M, e, xs, ys); } }
//@at loop 3
    invariant n == N, m == M, N >= 1, M >= 1, N + M <= 0xFFFF, N <= N * M <= 0xFFFF, M <= N * M, V == 2 * (N * M), variable_set.nv() == V, __lo3_0 == 1, __hi3_1 == m, 1 <= __i3 <= m, ands@.len() == N * M, allnv(ands@, V), sums@.len() == N * M, carries@.len() == N * M, allnv(sums@, V), allnv(carries@, V),
        forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(N, M, e, xs, ys) ==> andok(ands@, N, M, e, xs, ys) && rowok(sums@, carries@, N, __i3 - 1, e, xs, ys)
    decreases __hi3_1 - __i3
//@at start 3
    let ghost s0 = sums@; let ghost c0 = carries@; let ghost I = i as int;
    proof { assert forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(N, M, e, xs, ys) implies colok(sums@, carries@, s0, c0, N, I, 0, e, xs, ys) by { assert(0 * p2(0) == 0); } }
//@at loop 4
    invariant n == N, m == M, i == I, 1 <= I < M, N >= 1, M >= 1, N + M <= 0xFFFF, N <= N * M <= 0xFFFF, V == 2 * (N * M), variable_set.nv() == V, __lo4_0 == 0, __hi4_1 == n, __i4 <= n, ands@.len() == N * M, allnv(ands@, V), sums@.len() == N * M, carries@.len() == N * M, allnv(sums@, V), allnv(carries@, V), s0.len() == N * M, c0.len() == N * M,
        forall|q: int| 0 <= q < I * N ==> #[trigger] sums@[q] == s0[q], forall|q: int| 0 <= q < I * N ==> #[trigger] carries@[q] == c0[q],
        forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(N, M, e, xs, ys) ==> andok(ands@, N, M, e, xs, ys) && rowok(s0, c0, N, I - 1, e, xs, ys) && colok(sums@, carries@, s0, c0, N, I, __i4 as int, e, xs, ys)
    decreases __hi4_1 - __i4
//@at start 4
    let ghost s1 = sums@; let ghost c1 = carries@; let ghost J = j as int;
    proof { cell(N, M, I, J); cell(N, M, I - 1, N - 1); assert((I - 1) * N + N == I * N) by (nonlinear_arith); if J > 0 { cell(N, M, I, J - 1); } cell(N, M, I - 1, J); if J < N - 1 { cell(N, M, I - 1, J + 1); } }
//@at end 4
    proof { assert forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(N, M, e, xs, ys) implies colok(sums@, carries@, s0, c0, N, I, J + 1, e, xs, ys) by { assert(andok(ands@, N, M, e, xs, ys)); assert(cpos(N, M, I, J) >= 0); assert(b.ev(e) == bf(s0, c0, N, I - 1, e)(J)); assert(c_in.ev(e) == (J > 0 && c1[I * N + (J - 1)].ev(e))); colstep(s1, c1, sums@, carries@, s0, c0, N, I, J, e, xs, ys); } }
//@at after 4
    proof { assert forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(N, M, e, xs, ys) implies rowok(sums@, carries@, N, I, e, xs, ys) by { rowstep(sums@, carries@, s0, c0, N, I, e, xs, ys); } }
//@at loop 5
    invariant n == N, m == M, N >= 1, M >= 1, N + M <= 0xFFFF, N <= N * M <= 0xFFFF, __lo5_0 == 0, __hi5_1 == m, __i5 <= m, sums@.len() == N * M, allnv(sums@, V), result@.len() == __i5, allnv(result@, V), forall|k: int| 0 <= k < __i5 ==> #[trigger] result@[k] == sums@[k * N]
    decreases __hi5_1 - __i5
//@at start 5
    proof { cell(N, M, i as int, 0); }
//@at loop 6
    invariant n == N, m == M, N >= 1, M >= 1, N + M <= 0xFFFF, N <= N * M <= 0xFFFF, __lo6_0 == 1, __hi6_1 == n, 1 <= __i6 <= n, sums@.len() == N * M, allnv(sums@, V), result@.len() == M + __i6 - 1, allnv(result@, V), (forall|k: int| 0 <= k < M ==> #[trigger] result@[k] == sums@[k * N]), forall|k: int| 1 <= k < __i6 ==> #[trigger] result@[M - 1 + k] == sums@[(M - 1) * N + k]
    decreases __hi6_1 - __i6
//@at start 6
    proof { cell(N, M, M - 1, i as int); }
//@at after 6
    proof { cell(N, M, M - 1, N - 1); }
//@at end-bind
    proof { assert(result@[M - 1 + 0] == sums@[(M - 1) * N + 0]); assert forall|e: Seq<bool>, xs: Seq<bool>, ys: Seq<bool>| #[trigger] stream(N, M, e, xs, ys) implies val(sb(__r@, e), (n + m) as nat) == val(qb(xs), n as nat) * val(qb(ys), m as nat) by { assert(rowok(sums@, carries@, N, M - 1, e, xs, ys)); assert forall|k: int| 0 <= k < N implies #[trigger] result@[M - 1 + k] == sums@[(M - 1) * N + k] by { if k == 0 { assert(result@[M - 1] == sums@[(M - 1) * N]); } } lastrow(sums@, carries@, __r@, N, M, e, xs, ys); } }
//@end

/// the cell whose pair is the q-th of the stream
pub open spec fn cell_at(n: int, m: int, q: int) -> (int, int) { choose|p: (int, int)| 0 <= p.0 < m && 0 <= p.1 < n && #[trigger] cpos(n, m, p.0, p.1) == q }
proof fn pair_of(n: int, m: int, q: int) requires n >= 1, m >= 1, 0 <= q < n * m ensures ({ let (r, c) = cell_at(n, m, q); 0 <= r < m && 0 <= c < n && cpos(n, m, r, c) == q }) { doff_all(n, m); assert(doff(n, m, n + m - 1) == 0); let (r, c) = pair_on(n, m, q, 0); assert(0 <= (r, c).0 < m && 0 <= (r, c).1 < n && cpos(n, m, (r, c).0, (r, c).1) == q); }
proof fn pair_on(n: int, m: int, q: int, d: int) -> (p: (int, int)) requires n >= 1, m >= 1, 0 <= d <= n + m - 1, 0 <= q < doff(n, m, d) ensures 0 <= p.0 < m, 0 <= p.1 < n, cpos(n, m, p.0, p.1) == q decreases n + m - d {
    if d >= n + m - 1 { (0, 0) } else if q < doff(n, m, d + 1) { pair_on(n, m, q, d + 1) } else { let j = q - doff(n, m, d + 1); let t = d + 1; let row = if t > n { t - n } else { 0 }; let r = row + j; let c = t - 1 - r; assert(cpos(n, m, r, c) == q); (r, c) }
}
#[derive(Clone, Copy)] pub struct MultiplierParams { pub n: usize, pub m: usize }
impl MuxCircuit {
    /// input i of the new circuit feeds every old input q with f()[q] == i (trusted; evaluated natively)
    #[verifier::external_body] pub fn remap_inputs(&mut self, deduped_count: u32, enc: Vec<u32>)
        requires enc@.len() == old(self).nin(), forall|q: int| 0 <= q < enc@.len() ==> #[trigger] enc@[q] < deduped_count, forall|i: int| 0 <= i < deduped_count ==> #[trigger] occurs(enc@, i)
        ensures final(self).nin() == deduped_count, final(self).nout() == old(self).nout(), forall|k: int, e: Seq<bool>| e.len() == deduped_count && 0 <= k < old(self).nout() ==> #[trigger] final(self).out(k, e) == old(self).out(k, remapped(e, enc@)) { unimplemented!() }
}
pub open spec fn occurs(s: Seq<u32>, i: int) -> bool { exists|q: int| 0 <= q < s.len() && #[trigger] s[q] == i }
pub open spec fn remapped(e: Seq<bool>, enc: Seq<u32>) -> Seq<bool> { Seq::new(enc.len(), |q: int| e[enc[q] as int]) }
pub open spec fn eb(e: Seq<bool>, a: int) -> spec_fn(int) -> bool { |k: int| e[a + k] }
//@fn mux_circuits/src/mul.rs :: multiplier_impl
//@ret r
//@rangety u32
//@sub "Vec::new()" => "Vec::<u32>::new()" optional
    requires params.n > 0, params.m > 0, params.n + params.m <= 0xFFFF, 2 * (params.n * params.m) < 0xFFFF
    ensures r.nin() == params.n + params.m, r.nout() == params.n + params.m,
        forall|e: Seq<bool>| e.len() == r.nin() ==> val(#[trigger] ob(&r, e), r.nout()) == val(eb(e, 0), params.n as nat) * val(eb(e, params.n as int), params.m as nat)
//@at start
    let ghost N = params.n as int; let ghost M = params.m as int; let ghost mut enc: Seq<u32> = Seq::empty(); let ghost mut c0: MuxCircuit = arbitrary();
    proof { assert(0x1usize << 16 == 0x10000) by (bit_vector); assert(params.n * params.m == N * M); assert(N * M >= 1 && 2 * N * M == 2 * (N * M)) by (nonlinear_arith) requires N >= 1, M >= 1; }
//@at loop 0
    invariant n == N, m == M, __hi0_1 == n, __lo0_0 == 0, __i0 <= n, __v0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __v0@[k] == k
    decreases __hi0_1 - __i0
//@at loop 1
    invariant n == N, m == M, N + M <= 0xFFFF, __hi1_1 == n + m, __lo1_0 == n, n <= __i1 <= n + m, __v1@.len() == __i1 - n, forall|k: int| 0 <= k < __i1 - n ==> #[trigger] __v1@[k] == N + k
    decreases __hi1_1 - __i1
//@at args
    let ghost X = Seq::new(N as nat, |k: int| k as u32); let ghost Y = Seq::new(M as nat, |k: int| (N + k) as u32);
    proof {
        assert(encok(__enc@, X, Y, N * M)) by { assert(exists|x: Seq<u32>, y: Seq<u32>| x =~= X && y =~= Y && #[trigger] encok(__enc@, x, y, N * M)); }
        assert forall|q: int| 0 <= q < __enc@.len() implies #[trigger] __enc@[q] < N + M by { pair_of(N, M, q / 2); let (r, c) = cell_at(N, M, q / 2); assert(cpos(N, M, r, c) == q / 2); assert(q == 2 * (q / 2) || q == 2 * (q / 2) + 1); }
        assert forall|i: int| 0 <= i < N + M implies #[trigger] occurs(__enc@, i) by { if i < N { cpos_in(N, M, 0, i); assert(__enc@[2 * cpos(N, M, 0, i)] == i); } else { cpos_in(N, M, i - N, 0); assert(__enc@[2 * cpos(N, M, i - N, 0) + 1] == i); } }
    }
    proof { enc = __enc@; c0 = mux_circuit; }
//@at end-bind
    proof {
        assert forall|e: Seq<bool>| e.len() == __r.nin() implies val(#[trigger] ob(&__r, e), __r.nout()) == val(eb(e, 0), N as nat) * val(eb(e, N), M as nat) by {
            let e2 = remapped(e, enc); let xs = e.subrange(0, N); let ys = e.subrange(N, N + M);
            assert(stream(N, M, e2, xs, ys)) by { assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N && #[trigger] cpos(N, M, i, j) < N * M implies ({ let q = 2 * cpos(N, M, i, j); e2[q] == xs[j] && e2[q + 1] == ys[i] }) by { cpos_in(N, M, i, j); let q = 2 * cpos(N, M, i, j); assert(enc[q] == j); assert(enc[q + 1] == N + i); } }
            val_ext(qb(xs), eb(e, 0), N as nat); val_ext(qb(ys), eb(e, N), M as nat);
            assert forall|k: int| 0 <= k < N + M implies #[trigger] ob(&__r, e)(k) == sb(bdd@, e2)(k) by { assert(c0.out(k, e2) == bdd@[k].ev(e2)); }
            val_ext(ob(&__r, e), sb(bdd@, e2), (N + M) as nat);
        }
    }
//@end
} // verus!
fn main() {}
