//@include ../prelude/base.rs
//@include ../prelude/fhegraph.rs
verus! {
pub open spec fn crank(a: CiphertextType) -> int { match a { CiphertextType::L1GgswCiphertext => 0, CiphertextType::L1GlweCiphertext => 1, CiphertextType::L1LweCiphertext => 2, CiphertextType::L0LweCiphertext => 3, _ => 4 } }
/// how many conversions lie between two types
pub open spec fn cdist(a: CiphertextType, b: CiphertextType) -> int {
    if a == b { 0 } else if a is L1GlevCiphertext { 1 + crank(b) } else if b is L1GlevCiphertext { (4 - crank(a)) % 4 + 1 } else { (crank(b) - crank(a)) % 4 } }
/// one conversion: the graph with its nodes, and which node holds the converted bit
pub open spec fn conv1(g: Seq<Node>, c: int, a: CiphertextType, b: CiphertextType) -> (Seq<Node>, CiphertextType) {
    let n = g.len() as int; let un = |op: FheOp| g.push(Node { op: op, ins: Seq::empty().push((FheEdge::Unary, c)) });
    match a {
        CiphertextType::L0LweCiphertext => (un(FheOp::CircuitBootstrap), CiphertextType::L1GgswCiphertext),
        CiphertextType::L1GlweCiphertext => (un(FheOp::SampleExtract(0)), CiphertextType::L1LweCiphertext),
        CiphertextType::L1LweCiphertext => (un(FheOp::KeyswitchL1toL0), CiphertextType::L0LweCiphertext),
        CiphertextType::L1GlevCiphertext => (un(FheOp::SchemeSwitch), CiphertextType::L1GgswCiphertext),
        CiphertextType::L1GgswCiphertext => if b is L1GlevCiphertext {
            (g.push(Node { op: FheOp::GlevCMux, ins: Seq::empty().push((FheEdge::Low, n + 1)).push((FheEdge::High, n + 2)).push((FheEdge::Sel, c)) }).push(Node { op: FheOp::ZeroGlev1, ins: Seq::empty() }).push(Node { op: FheOp::OneGlev1, ins: Seq::empty() }), b)
        } else { (g.push(Node { op: FheOp::MultiplyGgswGlwe, ins: Seq::empty().push((FheEdge::Glwe, n + 1)).push((FheEdge::Ggsw, c)) }).push(Node { op: FheOp::OneGlwe1, ins: Seq::empty() }), CiphertextType::L1GlweCiphertext) } } }
proof fn mid(g: Seq<Node>, h: Seq<Node>, c: int, a: CiphertextType, b: CiphertextType, r: NodeIndex, t: CiphertextType)
    requires good(g), 0 <= c < g.len(), gty(g[c].op) == a, a != b, r.i == g.len(), t == conv1(g, c, a, b).1, h =~= conv1(g, c, a, b).0
    ensures step(g, h), r.i < h.len(), gty(h[r.i as int].op) == t, cdist(t, b) < cdist(a, b), 0 <= cdist(t, b), forall|v: Vl| sat(h, v) ==> #[trigger] v(r.i as int) == v(c)
{
    match a {
        CiphertextType::L0LweCiphertext => { add1(g, FheOp::CircuitBootstrap, c); } CiphertextType::L1GlweCiphertext => { add1(g, FheOp::SampleExtract(0), c); }
        CiphertextType::L1LweCiphertext => { add1(g, FheOp::KeyswitchL1toL0, c); } CiphertextType::L1GlevCiphertext => { add1(g, FheOp::SchemeSwitch, c); }
        CiphertextType::L1GgswCiphertext => if b is L1GlevCiphertext { add_glev(g, c); } else { add_prod(g, c); }
    }
}
//@fn parasol_runtime/src/fhe_circuit.rs :: insert_ciphertext_conversion
//@ret r
    requires good(old(graph)@), cur_node.i < old(graph)@.len(), gty(old(graph)@[cur_node.i as int].op) == in_type
    ensures step(old(graph)@, final(graph)@), r.i < final(graph)@.len(), gty(final(graph)@[r.i as int].op) == out_type, in_type == out_type ==> final(graph)@ == old(graph)@ && r == cur_node,
        forall|v: Vl| sat(final(graph)@, v) ==> #[trigger] v(r.i as int) == v(cur_node.i as int)
    decreases cdist(in_type, out_type)
//@at start
    let ghost g0 = graph@; let ghost c = cur_node.i as int; proof { step_refl(g0); }
//@sub "insert_ciphertext_conversion(graph, conv_idx, next_type, out_type)" => "{ proof { mid(g0, graph@, c, in_type, out_type, conv_idx, next_type); } let ghost g1 = graph@; let __q = insert_ciphertext_conversion(graph, conv_idx, next_type, out_type); proof { step_trans(g0, g1, graph@); assert forall|v: Vl| sat(graph@, v) implies #[trigger] v(__q.i as int) == v(c) by { step_sat(g1, graph@, v); assert(v(conv_idx.i as int) == v(c)); } } __q }"
//@end
// ---- the circuits the products are made of: their contracts are the ones units x01 and x04 prove, restated on sequences of bits ----
pub open spec fn eb(e: Seq<bool>, o: int) -> spec_fn(int) -> bool { |k: int| e[o + k] }
pub open spec fn cval(c: &MuxCircuit, e: Seq<bool>) -> nat { val(ob(c, e), c.nout()) }
pub open spec fn multiplies(c: &MuxCircuit, n: nat, m: nat) -> bool { forall|e: Seq<bool>| e.len() == n + m ==> #[trigger] cval(c, e) == val(eb(e, 0), n) * val(eb(e, n as int), m) }
#[verifier::external_body] pub fn unsigned_multiplier(n: usize, m: usize) -> (r: MuxCircuit)
    requires n > 0, m > 0, n <= 16, m <= 16
    ensures r.nin() == n + m, r.nout() == n + m, multiplies(&r, n as nat, m as nat) { unimplemented!() }
pub open spec fn lmin(n: int, m: int) -> int { if n < m { n } else { m } }
pub open spec fn lmax(n: int, m: int) -> int { if n < m { m } else { n } }
pub open spec fn abit(n: int, m: int, c: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| if k < lmin(n, m) { e[c + 2 * k] } else if k < n { e[c + lmin(n, m) + k] } else { false } }
pub open spec fn bbit(n: int, m: int, c: int, e: Seq<bool>) -> spec_fn(int) -> bool { |k: int| if k < lmin(n, m) { e[c + 2 * k + 1] } else if k < m { e[c + lmin(n, m) + k] } else { false } }
pub open spec fn adds(c: &MuxCircuit, n: nat, m: nat) -> bool { forall|e: Seq<bool>| e.len() == n + m ==> #[trigger] cval(c, e) == val(abit(n as int, m as int, 0, e), n) + val(bbit(n as int, m as int, 0, e), m) }
#[verifier::external_body] pub fn ripple_carry_adder(n: usize, m: usize, cin: bool) -> (r: MuxCircuit)
    requires 0 < n, 0 < m, n + m + 1 < 0xFFFF, !cin
    ensures r.nin() == n + m, r.nout() == lmax(n as int, m as int) + 1, adds(&r, n as nat, m as nat) { unimplemented!() }
#[verifier::external_body] pub fn negator(n: usize) -> (r: MuxCircuit)
    requires 0 < n, n < 0xFFFF
    ensures r.nin() == n, r.nout() == n, forall|e: Seq<bool>| e.len() == n ==> #[trigger] cval(&r, e) == (if val(eb(e, 0), n as nat) == 0 { 0 } else { (p2(n as nat) - val(eb(e, 0), n as nat)) as nat }) { unimplemented!() }
pub open spec fn plo(n: int) -> int { if n <= 16 { n } else { n - n / 2 } }
pub open spec fn phi(n: int) -> int { if n <= 16 { 0 } else { n / 2 } }
#[verifier::external_body] pub fn partition_integer(n: usize) -> (r: (usize, usize)) requires n < 0xFFFF ensures r.0 == plo(n as int), r.1 == phi(n as int) { unimplemented!() }
/// the order in which the reduction takes the bits of the four partial products
pub uninterp spec fn gpos(n: int, m: int) -> Seq<(int, int)>;
pub open spec fn gpick<T>(p: (int, int), a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>) -> T { if p.0 == 0 { a[p.1] } else if p.0 == 1 { b[p.1] } else if p.0 == 2 { c[p.1] } else { d[p.1] } }
pub open spec fn gfits(n: int, m: int, p: (int, int)) -> bool { 0 <= p.1 < (if p.0 == 0 { plo(n) + plo(m) } else if p.0 == 1 { plo(n) + phi(m) } else if p.0 == 2 { phi(n) + plo(m) } else { phi(n) + phi(m) }) }
pub open spec fn genc<T>(n: int, m: int, a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>) -> Seq<T> { Seq::new(gpos(n, m).len(), |k: int| gpick(gpos(n, m)[k], a, b, c, d)) }
pub open spec fn gok(n: int, m: int) -> bool { gpos(n, m).len() == 2 * (n + m) && forall|k: int| 0 <= k < 2 * (n + m) ==> gfits(n, m, #[trigger] gpos(n, m)[k]) }
#[verifier::external_body] pub fn encode_gradeschool_reduction(n: usize, m: usize, a_lo_b_lo: &[NodeIndex], a_lo_b_hi: &[NodeIndex], a_hi_b_lo: &[NodeIndex], a_hi_b_hi: &[NodeIndex]) -> (r: Vec<NodeIndex>)
    requires n + m < 0x7FFF, n >= m, m > 16, a_lo_b_lo@.len() == plo(n as int) + plo(m as int), a_lo_b_hi@.len() == plo(n as int) + phi(m as int), a_hi_b_lo@.len() == phi(n as int) + plo(m as int), a_hi_b_hi@.len() == phi(n as int) + phi(m as int)
    ensures gok(n as int, m as int), r@ == genc(n as int, m as int, a_lo_b_lo@, a_lo_b_hi@, a_hi_b_lo@, a_hi_b_hi@) { unimplemented!() }
pub open spec fn sv(s: Seq<bool>) -> nat { val(eb(s, 0), s.len()) }
pub open spec fn reduces(c: &MuxCircuit, n: int, m: int) -> bool { forall|a: Seq<bool>, b: Seq<bool>, cc: Seq<bool>, d: Seq<bool>| a.len() == plo(n as int) + plo(m as int) && b.len() == plo(n as int) + phi(m as int) && cc.len() == phi(n as int) + plo(m as int) && d.len() == phi(n as int) + phi(m as int)
        ==> cval(c, #[trigger] genc(n as int, m as int, a, b, cc, d)) == (sv(a) + p2(plo(m as int) as nat) * sv(b) + p2(plo(n as int) as nat) * sv(cc) + p2((plo(n as int) + plo(m as int)) as nat) * sv(d)) % p2((n + m) as nat) }
#[verifier::external_body] pub fn gradeschool_reduce(n: usize, m: usize) -> (r: MuxCircuit)
    requires n + m < 0x7FFF, n >= m, m > 16
    ensures r.nin() == 2 * (n + m), r.nout() == n + m, reduces(&r, n as int, m as int) { unimplemented!() }
impl MuxMode { pub open spec fn ct(&self) -> CiphertextType { match self { MuxMode::Glwe => CiphertextType::L1GlweCiphertext, MuxMode::Glev => CiphertextType::L1GlevCiphertext } } }
impl FheCircuit {
    /// a circuit copied into the graph computes on the given nodes what the circuit computes (evaluated natively, sampled)
    #[verifier::external_body] pub fn insert_mux_circuit(&mut self, mux_circuit: &MuxCircuit, nodes_to_inputs: &[NodeIndex], mux_mode: MuxMode) -> (r: Vec<NodeIndex>)
        requires good(old(self)@), mux_circuit.nin() == nodes_to_inputs@.len(), nodes(old(self)@, nodes_to_inputs@, CiphertextType::L1GgswCiphertext)
        ensures step(old(self)@, final(self)@), nodes(final(self)@, r@, mux_mode.ct()), computes(final(self)@, mux_circuit, nodes_to_inputs@, r@) { unimplemented!() }
}
/// nodes that hold what a circuit computes on other nodes
pub open spec fn computes(g: Seq<Node>, c: &MuxCircuit, ins: Seq<NodeIndex>, r: Seq<NodeIndex>) -> bool { r.len() == c.nout() && forall|v: Vl, k: int| sat(g, v) && 0 <= k < r.len() ==> #[trigger] nb(r, v)(k) == c.out(k, nbs(ins, v)) }
/// the ciphertext types a multiplexer tree can be over
pub trait Muxable { spec fn mode() -> MuxMode; fn mux_mode() -> (r: MuxMode) ensures r == Self::mode(); fn ciphertext_type() -> (r: CiphertextType) ensures r == Self::mode().ct(); }
proof fn ins_val(c: &MuxCircuit, ins: Seq<NodeIndex>, r: Seq<NodeIndex>, v: Vl) requires r.len() == c.nout(), forall|k: int| 0 <= k < r.len() ==> #[trigger] nb(r, v)(k) == c.out(k, nbs(ins, v)) ensures val(nb(r, v), r.len()) == cval(c, nbs(ins, v))
{ val_ext(nb(r, v), ob(c, nbs(ins, v)), r.len()); }
proof fn p2add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases b { if b > 0 { p2add(a, (b - 1) as nat); let (x, y) = (p2(a) as int, p2((b - 1) as nat) as int); assert(x * (2 * y) == 2 * (x * y)) by (nonlinear_arith); } else { assert(p2(a) * 1 == p2(a)); } }
proof fn val_cat(f: spec_fn(int) -> bool, a: nat, b: nat) ensures val(f, a + b) == val(f, a) + p2(a) * val(|k: int| f(a + k), b) decreases b {
    let g = |k: int| f(a + k);
    if b > 0 { let c = (b - 1) as nat; val_cat(f, a, c); p2add(a, c); assert(val(g, b) == val(g, c) + b2n(f(a + b - 1)) * p2(c)); let (x, y, z, t) = (p2(a) as int, p2(c) as int, val(g, c) as int, b2n(f(a + b - 1)) as int); assert(x * (z + t * y) == x * z + t * (x * y)) by (nonlinear_arith); assert(val(f, a + b) == val(f, a + c) + b2n(f(a + b - 1)) * p2(a + c)); } else { assert(p2(a) * 0 == 0) by (nonlinear_arith); }
}
pub open spec fn nv(s: Seq<NodeIndex>, v: Vl) -> nat { val(nb(s, v), s.len()) }
proof fn nv_cat(s: Seq<NodeIndex>, k: int, v: Vl) requires 0 <= k <= s.len() ensures nv(s, v) == nv(s.take(k), v) + p2(k as nat) * nv(s.skip(k), v)
{ val_cat(nb(s, v), k as nat, (s.len() - k) as nat); val_ext(nb(s, v), nb(s.take(k), v), k as nat); let g = |i: int| nb(s, v)(k + i); val_ext(g, nb(s.skip(k), v), (s.len() - k) as nat); }

pub open spec fn isprod(g: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>, y: Seq<NodeIndex>, t: CiphertextType) -> bool { r.len() == x.len() + y.len() && nodes(g, r, t) && forall|v: Vl| sat(g, v) ==> #[trigger] nv(r, v) == nv(x, v) * nv(y, v) }
proof fn prod_step(g: Seq<Node>, h: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>, y: Seq<NodeIndex>, t: CiphertextType) requires good(g), step(g, h), isprod(g, r, x, y, t) ensures isprod(h, r, x, y, t)
{ nodes_step(g, h, r, t); assert forall|v: Vl| sat(h, v) implies #[trigger] nv(r, v) == nv(x, v) * nv(y, v) by { step_sat(g, h, v); } }
broadcast proof fn isprod_len(g: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>, y: Seq<NodeIndex>, t: CiphertextType) requires #[trigger] isprod(g, r, x, y, t) ensures r.len() == x.len() + y.len(), nodes(g, r, t) { }
proof fn isprod_comm(g: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>, y: Seq<NodeIndex>, t: CiphertextType) requires isprod(g, r, x, y, t) ensures isprod(g, r, y, x, t)
{ assert forall|v: Vl| sat(g, v) implies #[trigger] nv(r, v) == nv(y, v) * nv(x, v) by { let (p, q) = (nv(x, v) as int, nv(y, v) as int); assert(p * q == q * p) by (nonlinear_arith); } }
/// the first n of xs converted to GGSW
pub open spec fn conv(g: Seq<Node>, r: Seq<NodeIndex>, xs: Seq<NodeIndex>, n: int) -> bool { r.len() == n && n <= xs.len() && nodes(g, r, CiphertextType::L1GgswCiphertext) && forall|v: Vl, k: int| sat(g, v) && 0 <= k < n ==> #[trigger] nb(r, v)(k) == nb(xs, v)(k) }
proof fn conv_push(g: Seq<Node>, h: Seq<Node>, r: Seq<NodeIndex>, xs: Seq<NodeIndex>, n: int, y: NodeIndex)
    requires good(g), step(g, h), conv(g, r, xs, n), 0 <= n < xs.len(), y.i < h.len(), gty(h[y.i as int].op) is L1GgswCiphertext, forall|v: Vl| sat(h, v) ==> #[trigger] v(y.i as int) == v(xs[n].i as int)
    ensures conv(h, r.push(y), xs, n + 1)
{
    nodes_step(g, h, r, CiphertextType::L1GgswCiphertext);
    assert forall|v: Vl, k: int| sat(h, v) && 0 <= k < n + 1 implies #[trigger] nb(r.push(y), v)(k) == nb(xs, v)(k) by { step_sat(g, h, v); if k < n { assert(nb(r, v)(k) == nb(xs, v)(k)); } else { assert(v(y.i as int) == v(xs[n].i as int)); } }
}
proof fn conv_step(g: Seq<Node>, h: Seq<Node>, r: Seq<NodeIndex>, xs: Seq<NodeIndex>, n: int) requires good(g), step(g, h), conv(g, r, xs, n) ensures conv(h, r, xs, n)
{ nodes_step(g, h, r, CiphertextType::L1GgswCiphertext); assert forall|v: Vl, k: int| sat(h, v) && 0 <= k < n implies #[trigger] nb(r, v)(k) == nb(xs, v)(k) by { step_sat(g, h, v); } }
proof fn conv_init(g: Seq<Node>, xs: Seq<NodeIndex>) ensures conv(g, Seq::empty(), xs, 0) { }
proof fn conv_len(g: Seq<Node>, r: Seq<NodeIndex>, xs: Seq<NodeIndex>, n: int) requires conv(g, r, xs, n) ensures r.len() == n, nodes(g, r, CiphertextType::L1GgswCiphertext) { }
proof fn conv_done(g: Seq<Node>, r: Seq<NodeIndex>, xs: Seq<NodeIndex>, v: Vl) requires conv(g, r, xs, xs.len() as int), sat(g, v) ensures nbs(r, v) == nbs(xs, v)
{ assert forall|k: int| 0 <= k < xs.len() implies nbs(r, v)[k] == nbs(xs, v)[k] by { assert(nb(r, v)(k) == nb(xs, v)(k)); } assert(nbs(r, v) =~= nbs(xs, v)); }
proof fn comp_val(g: Seq<Node>, c: &MuxCircuit, ins: Seq<NodeIndex>, r: Seq<NodeIndex>, v: Vl) requires computes(g, c, ins, r), sat(g, v) ensures nv(r, v) == cval(c, nbs(ins, v)) { ins_val(c, ins, r, v); }
broadcast proof fn comp_len(g: Seq<Node>, c: &MuxCircuit, ins: Seq<NodeIndex>, r: Seq<NodeIndex>) requires #[trigger] computes(g, c, ins, r) ensures r.len() == c.nout() { }
broadcast proof fn step_good(g: Seq<Node>, h: Seq<Node>) requires #[trigger] step(g, h) ensures good(h) { }
proof fn done1(g: Seq<Node>, c: &MuxCircuit, a: Seq<NodeIndex>, b: Seq<NodeIndex>, xs: Seq<NodeIndex>, r: Seq<NodeIndex>, t: CiphertextType)
    requires xs == a + b, computes(g, c, xs, r), nodes(g, r, t), c.nout() == a.len() + b.len(), multiplies(c, a.len(), b.len())
    ensures isprod(g, r, a, b, t)
{
    assert forall|v: Vl| sat(g, v) implies #[trigger] nv(r, v) == nv(a, v) * nv(b, v) by {
        comp_val(g, c, xs, r, v); let e = nbs(xs, v); assert(e.len() == a.len() + b.len());
        val_ext(eb(e, 0), nb(a, v), a.len()); val_ext(eb(e, a.len() as int), nb(b, v), b.len());
    }
}
pub open spec fn weave(hi: Seq<NodeIndex>, q: Seq<NodeIndex>, n: int) -> Seq<NodeIndex> { Seq::new((n + q.len()) as nat, |k: int| if k < 2 * n { if k % 2 == 0 { hi[k / 2] } else { q[k / 2] } } else { q[k - n] }) }
proof fn nv_lt(s: Seq<NodeIndex>, v: Vl) ensures nv(s, v) < p2(s.len()) { val_lt(nb(s, v), s.len()); }
proof fn mul_lt(a: nat, b: nat, x: nat, y: nat) requires a < x, b < y ensures a * b < x * y { assert(a * b < x * y) by (nonlinear_arith) requires a < x, b < y; }
proof fn arith2(alo: int, ahi: int, b: int, pa: int, lo: int, hi: int) requires alo * b == lo + pa * hi ensures (alo + pa * ahi) * b == lo + pa * (hi + ahi * b)
{ assert((alo + pa * ahi) * b == alo * b + pa * (ahi * b)) by (nonlinear_arith); assert(pa * (hi + ahi * b) == pa * hi + pa * (ahi * b)) by (nonlinear_arith); }
proof fn done2(g: Seq<Node>, c: &MuxCircuit, a: Seq<NodeIndex>, b: Seq<NodeIndex>, al: int, p: Seq<NodeIndex>, q: Seq<NodeIndex>, ci: Seq<NodeIndex>, sum: Seq<NodeIndex>, t: CiphertextType)
    requires 0 < al < a.len(), b.len() > 0, isprod(g, p, a.take(al), b, t), isprod(g, q, a.skip(al), b, t), nodes(g, sum, t), computes(g, c, ci, sum), ({ let xs = weave(p.skip(al), q, b.len() as int); conv(g, ci, xs, xs.len() as int) }),
        c.nout() == a.len() - al + b.len() + 1, adds(c, b.len(), (a.len() - al + b.len()) as nat)
    ensures isprod(g, p.take(al) + sum.take(a.len() - al + b.len()), a, b, t)
{
    let n = b.len() as int; let m = (a.len() - al + b.len()) as int; let r = p.take(al) + sum.take(m); let hi = p.skip(al); let xs = weave(hi, q, n); let lo = p.take(al);
    assert forall|v: Vl| sat(g, v) implies #[trigger] nv(r, v) == nv(a, v) * nv(b, v) by {
        comp_val(g, c, ci, sum, v); conv_done(g, ci, xs, v); let e = nbs(xs, v); assert(e.len() == n + m);
        assert forall|k: int| 0 <= k < n implies #[trigger] abit(n, m, 0, e)(k) == nb(hi, v)(k) by { assert(xs[2 * k] == hi[k]); }
        val_ext(abit(n, m, 0, e), nb(hi, v), n as nat);
        assert forall|k: int| 0 <= k < m implies #[trigger] bbit(n, m, 0, e)(k) == nb(q, v)(k) by { if k < n { assert(xs[2 * k + 1] == q[k]); } else { assert(xs[n + k] == q[k]); } }
        val_ext(bbit(n, m, 0, e), nb(q, v), m as nat);
        assert(nv(sum, v) == nv(hi, v) + nv(q, v));
        nv_cat(p, al, v); nv_cat(a, al, v); nv_cat(r, al, v); assert(r.take(al) =~= lo); assert(r.skip(al) =~= sum.take(m));
        assert(nv(p, v) == nv(a.take(al), v) * nv(b, v)); assert(nv(q, v) == nv(a.skip(al), v) * nv(b, v));
        arith2(nv(a.take(al), v) as int, nv(a.skip(al), v) as int, nv(b, v) as int, p2(al as nat) as int, nv(lo, v) as int, nv(hi, v) as int);
        assert(nv(a, v) * nv(b, v) == nv(lo, v) + p2(al as nat) * nv(sum, v));
        // the sum's last bit is never set
        nv_lt(a, v); nv_lt(b, v); mul_lt(nv(a, v), nv(b, v), p2(a.len()), p2(b.len())); p2add(a.len(), b.len()); p2add(al as nat, m as nat); assert(p2(a.len()) * p2(b.len()) == p2(al as nat) * p2(m as nat));
        let (pa, pm, sv1) = (p2(al as nat) as int, p2(m as nat) as int, nv(sum, v) as int);
        assert(sv1 < pm) by (nonlinear_arith) requires pa * sv1 < pa * pm, pa > 0;
        assert(nv(sum, v) == val(nb(sum, v), m as nat) + b2n(nb(sum, v)(m)) * p2(m as nat)); assert(1 * p2(m as nat) == p2(m as nat)); assert(0 * p2(m as nat) == 0);
        assert(!nb(sum, v)(m)); val_ext(nb(sum, v), nb(sum.take(m), v), m as nat); assert(nv(sum.take(m), v) == nv(sum, v));
    }
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).i < g.len() && gty(g[r[k].i as int].op) == t by { if k < al { assert(r[k] == p[k]); } else { assert(r[k] == sum[k - al]); } }
}
proof fn arith3(al: int, ah: int, bl: int, bh: int, pa: int, pb: int) ensures (al + pa * ah) * (bl + pb * bh) == al * bl + pb * (al * bh) + pa * (ah * bl) + (pa * pb) * (ah * bh)
{ assert((al + pa * ah) * (bl + pb * bh) == al * (bl + pb * bh) + pa * (ah * (bl + pb * bh))) by (nonlinear_arith); assert(al * (bl + pb * bh) == al * bl + pb * (al * bh)) by (nonlinear_arith);
  assert(ah * (bl + pb * bh) == ah * bl + pb * (ah * bh)) by (nonlinear_arith); let y = ah * bh; let z = ah * bl; assert(pa * (z + pb * y) == pa * z + (pa * pb) * y) by (nonlinear_arith); }
proof fn nbs_genc(n: int, m: int, a: Seq<NodeIndex>, b: Seq<NodeIndex>, c: Seq<NodeIndex>, d: Seq<NodeIndex>, v: Vl) requires gok(n, m), a.len() == plo(n) + plo(m), b.len() == plo(n) + phi(m), c.len() == phi(n) + plo(m), d.len() == phi(n) + phi(m)
    ensures nbs(genc(n, m, a, b, c, d), v) == genc(n, m, nbs(a, v), nbs(b, v), nbs(c, v), nbs(d, v))
{ let x = nbs(genc(n, m, a, b, c, d), v); let y = genc(n, m, nbs(a, v), nbs(b, v), nbs(c, v), nbs(d, v)); assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by { assert(gfits(n, m, gpos(n, m)[k])); } assert(x =~= y); }
proof fn sv_nv(s: Seq<NodeIndex>, v: Vl) ensures sv(nbs(s, v)) == nv(s, v) { val_ext(eb(nbs(s, v), 0), nb(s, v), s.len()); }
proof fn done3(g: Seq<Node>, c: &MuxCircuit, a: Seq<NodeIndex>, b: Seq<NodeIndex>, p0: Seq<NodeIndex>, p1: Seq<NodeIndex>, p2_: Seq<NodeIndex>, p3: Seq<NodeIndex>, ci: Seq<NodeIndex>, r: Seq<NodeIndex>, t: CiphertextType)
    requires a.len() >= b.len() > 16, ({ let (n, m) = (a.len() as int, b.len() as int); let (x, y) = (plo(n), plo(m)); &&& isprod(g, p0, a.take(x), b.take(y), t) && isprod(g, p1, a.take(x), b.skip(y), t) && isprod(g, p2_, a.skip(x), b.take(y), t) && isprod(g, p3, a.skip(x), b.skip(y), t)
        &&& gok(n, m) && nodes(g, r, t) && computes(g, c, ci, r) && c.nout() == n + m && conv(g, ci, genc(n, m, p0, p1, p2_, p3), 2 * (n + m))
        &&& reduces(c, n, m) })
    ensures isprod(g, r, a, b, t)
{
    let (n, m) = (a.len() as int, b.len() as int); let (x, y) = (plo(n), plo(m));
    assert forall|v: Vl| sat(g, v) implies #[trigger] nv(r, v) == nv(a, v) * nv(b, v) by {
        comp_val(g, c, ci, r, v); conv_done(g, ci, genc(n, m, p0, p1, p2_, p3), v); nbs_genc(n, m, p0, p1, p2_, p3, v); sv_nv(p0, v); sv_nv(p1, v); sv_nv(p2_, v); sv_nv(p3, v);
        let e = genc(n, m, nbs(p0, v), nbs(p1, v), nbs(p2_, v), nbs(p3, v));
        let (al, ah, bl, bh) = (nv(a.take(x), v) as int, nv(a.skip(x), v) as int, nv(b.take(y), v) as int, nv(b.skip(y), v) as int); let (pa, pb) = (p2(x as nat) as int, p2(y as nat) as int);
        assert(nv(p0, v) == al * bl); assert(nv(p1, v) == al * bh); assert(nv(p2_, v) == ah * bl); assert(nv(p3, v) == ah * bh);
        nv_cat(a, x, v); nv_cat(b, y, v); arith3(al, ah, bl, bh, pa, pb); p2add(x as nat, y as nat);
        let tot = nv(a, v) * nv(b, v);
        assert(tot == al * bl + pb * (al * bh) + pa * (ah * bl) + (pa * pb) * (ah * bh));
        nv_lt(a, v); nv_lt(b, v); mul_lt(nv(a, v), nv(b, v), p2(a.len()), p2(b.len())); p2add(a.len(), b.len());
        assert(cval(c, e) == tot % p2((n + m) as nat)); vstd::arithmetic::div_mod::lemma_small_mod(tot, p2((n + m) as nat));
    }
}
#[verifier::external_body] pub fn concat2(a: &[NodeIndex], b: &[NodeIndex]) -> (r: Vec<NodeIndex>) ensures r@ == a@ + b@ { [a, b].concat() }
proof fn nodes_cut(g: Seq<Node>, s: Seq<NodeIndex>, k: int, t: CiphertextType) requires nodes(g, s, t), 0 <= k <= s.len() ensures nodes(g, s.take(k), t), nodes(g, s.skip(k), t)
{ assert forall|i: int| 0 <= i < k implies (#[trigger] s.take(k)[i]).i < g.len() && gty(g[s.take(k)[i].i as int].op) == t by { assert(s.take(k)[i] == s[i]); }
  assert forall|i: int| 0 <= i < s.len() - k implies (#[trigger] s.skip(k)[i]).i < g.len() && gty(g[s.skip(k)[i].i as int].op) == t by { assert(s.skip(k)[i] == s[k + i]); } }
proof fn node_at(g: Seq<Node>, s: Seq<NodeIndex>, t: CiphertextType, k: int) requires nodes(g, s, t), 0 <= k < s.len() ensures s[k].i < g.len(), gty(g[s[k].i as int].op) == t { }
proof fn nodes_cat(g: Seq<Node>, a: Seq<NodeIndex>, b: Seq<NodeIndex>, t: CiphertextType) requires nodes(g, a, t), nodes(g, b, t) ensures nodes(g, a + b, t)
{ let w = a + b; assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).i < g.len() && gty(g[w[k].i as int].op) == t by { if k < a.len() { assert(w[k] == a[k]); } else { assert(w[k] == b[k - a.len()]); } } }
proof fn cut_eq(s: Seq<NodeIndex>, k: int) requires 0 <= k <= s.len() ensures s.subrange(0, k) == s.take(k), s.subrange(k, s.len() as int) == s.skip(k), k == s.len() ==> s.take(k) == s { assert(s.subrange(0, k) =~= s.take(k)); assert(s.subrange(k, s.len() as int) =~= s.skip(k)); if k == s.len() { assert(s.take(k) =~= s); } }
proof fn nodes4(g: Seq<Node>, h: Seq<Node>, a: Seq<NodeIndex>, b: Seq<NodeIndex>, c: Seq<NodeIndex>, d: Seq<NodeIndex>) requires step(g, h), nodes(g, a, CiphertextType::L1GgswCiphertext), nodes(g, b, CiphertextType::L1GgswCiphertext), nodes(g, c, CiphertextType::L1GgswCiphertext), nodes(g, d, CiphertextType::L1GgswCiphertext)
    ensures nodes(h, a, CiphertextType::L1GgswCiphertext), nodes(h, b, CiphertextType::L1GgswCiphertext), nodes(h, c, CiphertextType::L1GgswCiphertext), nodes(h, d, CiphertextType::L1GgswCiphertext)
{ nodes_step(g, h, a, CiphertextType::L1GgswCiphertext); nodes_step(g, h, b, CiphertextType::L1GgswCiphertext); nodes_step(g, h, c, CiphertextType::L1GgswCiphertext); nodes_step(g, h, d, CiphertextType::L1GgswCiphertext); }
proof fn nodes_weave(g: Seq<Node>, hi: Seq<NodeIndex>, q: Seq<NodeIndex>, n: int, t: CiphertextType) requires nodes(g, hi, t), nodes(g, q, t), hi.len() == n, n <= q.len() ensures nodes(g, weave(hi, q, n), t)
{ let w = weave(hi, q, n); assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).i < g.len() && gty(g[w[k].i as int].op) == t by { if k < 2 * n { if k % 2 == 0 { assert(w[k] == hi[k / 2]); } else { assert(w[k] == q[k / 2]); } } else { assert(w[k] == q[k - n]); } } }
proof fn nodes_genc(g: Seq<Node>, n: int, m: int, a: Seq<NodeIndex>, b: Seq<NodeIndex>, c: Seq<NodeIndex>, d: Seq<NodeIndex>, t: CiphertextType)
    requires gok(n, m), a.len() == plo(n) + plo(m), b.len() == plo(n) + phi(m), c.len() == phi(n) + plo(m), d.len() == phi(n) + phi(m), nodes(g, a, t), nodes(g, b, t), nodes(g, c, t), nodes(g, d, t)
    ensures nodes(g, genc(n, m, a, b, c, d), t), genc(n, m, a, b, c, d).len() == 2 * (n + m)
{ let w = genc(n, m, a, b, c, d); assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).i < g.len() && gty(g[w[k].i as int].op) == t by { let p = gpos(n, m)[k]; assert(gfits(n, m, p)); } }
pub open spec fn all4(g: Seq<Node>, a: Seq<NodeIndex>, b: Seq<NodeIndex>, p0: Seq<NodeIndex>, p1: Seq<NodeIndex>, p2_: Seq<NodeIndex>, p3: Seq<NodeIndex>, t: CiphertextType) -> bool {
    let (x, y) = (plo(a.len() as int), plo(b.len() as int)); isprod(g, p0, a.take(x), b.take(y), t) && isprod(g, p1, a.take(x), b.skip(y), t) && isprod(g, p2_, a.skip(x), b.take(y), t) && isprod(g, p3, a.skip(x), b.skip(y), t) }
proof fn all4_at(g0: Seq<Node>, g1: Seq<Node>, g2: Seq<Node>, g3: Seq<Node>, g4: Seq<Node>, a: Seq<NodeIndex>, b: Seq<NodeIndex>, p0: Seq<NodeIndex>, p1: Seq<NodeIndex>, p2_: Seq<NodeIndex>, p3: Seq<NodeIndex>, t: CiphertextType)
    requires step(g0, g1), step(g1, g2), step(g2, g3), step(g3, g4), ({ let (x, y) = (plo(a.len() as int), plo(b.len() as int)); isprod(g1, p0, a.take(x), b.take(y), t) && isprod(g2, p1, a.take(x), b.skip(y), t) && isprod(g3, p2_, a.skip(x), b.take(y), t) && isprod(g4, p3, a.skip(x), b.skip(y), t) })
    ensures step(g0, g4), all4(g4, a, b, p0, p1, p2_, p3, t), nodes(g4, p0, t), nodes(g4, p1, t), nodes(g4, p2_, t), nodes(g4, p3, t)
{ hide(step); hide(isprod); broadcast use step_good, isprod_len; let (x, y) = (plo(a.len() as int), plo(b.len() as int)); step_trans(g2, g3, g4); step_trans(g1, g2, g4); step_trans(g0, g1, g4); prod_step(g1, g4, p0, a.take(x), b.take(y), t); prod_step(g2, g4, p1, a.take(x), b.skip(y), t); prod_step(g3, g4, p2_, a.skip(x), b.take(y), t); }
proof fn fin3(g0: Seq<Node>, g4: Seq<Node>, g5: Seq<Node>, h: Seq<Node>, c: &MuxCircuit, a: Seq<NodeIndex>, b: Seq<NodeIndex>, p0: Seq<NodeIndex>, p1: Seq<NodeIndex>, p2_: Seq<NodeIndex>, p3: Seq<NodeIndex>, ci: Seq<NodeIndex>, r: Seq<NodeIndex>, t: CiphertextType)
    requires a.len() >= b.len() > 16, good(g4), step(g0, g4), step(g4, g5), step(g5, h), all4(g4, a, b, p0, p1, p2_, p3, t), ({ let (n, m) = (a.len() as int, b.len() as int); gok(n, m) && nodes(h, r, t) && computes(h, c, ci, r) && c.nout() == n + m && conv(g5, ci, genc(n, m, p0, p1, p2_, p3), 2 * (n + m)) && reduces(c, n, m) })
    ensures step(g0, h), isprod(h, r, a, b, t)
{
    hide(step); hide(isprod); hide(reduces); hide(conv); hide(computes); broadcast use step_good; let (n, m) = (a.len() as int, b.len() as int); let (x, y) = (plo(n), plo(m)); step_trans(g4, g5, h); step_trans(g0, g4, h);
    prod_step(g4, h, p0, a.take(x), b.take(y), t); prod_step(g4, h, p1, a.take(x), b.skip(y), t); prod_step(g4, h, p2_, a.skip(x), b.take(y), t); prod_step(g4, h, p3, a.skip(x), b.skip(y), t); conv_step(g5, h, ci, genc(n, m, p0, p1, p2_, p3), 2 * (n + m));
    done3(h, c, a, b, p0, p1, p2_, p3, ci, r, t);
}
proof fn fin2(g0: Seq<Node>, g1: Seq<Node>, g2: Seq<Node>, g3: Seq<Node>, h: Seq<Node>, c: &MuxCircuit, a: Seq<NodeIndex>, b: Seq<NodeIndex>, al: int, p: Seq<NodeIndex>, q: Seq<NodeIndex>, ci: Seq<NodeIndex>, sum: Seq<NodeIndex>, t: CiphertextType)
    requires 0 < al < a.len(), b.len() > 0, step(g0, g1), step(g1, g2), step(g2, g3), step(g3, h), isprod(g1, p, a.take(al), b, t), isprod(g2, q, a.skip(al), b, t), nodes(h, sum, t), computes(h, c, ci, sum), ({ let xs = weave(p.skip(al), q, b.len() as int); conv(g3, ci, xs, xs.len() as int) }),
        c.nout() == a.len() - al + b.len() + 1, adds(c, b.len(), (a.len() - al + b.len()) as nat)
    ensures step(g0, h), isprod(h, p.take(al) + sum.take(a.len() - al + b.len()), a, b, t)
{
    hide(step); hide(isprod); hide(adds); hide(conv); hide(computes); broadcast use step_good; step_trans(g2, g3, h); step_trans(g1, g2, h); step_trans(g0, g1, h); prod_step(g1, h, p, a.take(al), b, t); prod_step(g2, h, q, a.skip(al), b, t);
    let xs = weave(p.skip(al), q, b.len() as int); conv_step(g3, h, ci, xs, xs.len() as int); done2(h, c, a, b, al, p, q, ci, sum, t);
}
//@fn parasol_runtime/src/circuits/mul.rs :: mul_impl
//@sig #[verifier::rlimit(40)] fn mul_impl<OutCt: Muxable>(uop_graph: &mut FheCircuit, a: &[NodeIndex], b: &[NodeIndex]) -> (r: Vec<NodeIndex>)
//@slice reduction_bits taken
//@sub "OutCt::CIPHERTEXT_TYPE" => "OutCt::ciphertext_type()"
//@sub "OutCt::MUX_MODE" => "OutCt::mux_mode()"
//@sub "[lo, &sum_out].concat()" => "{ proof { let t = OutCt::mode().ct(); fin2(g0, g1, g2, g3, uop_graph@, &adder, a@, b@, al, a_lo_b_lo@, a_hi_b_lo@, adder_inputs@, full, t); } concat2(lo, &sum_out) }"
//@sub "let (lo, hi) = a_lo_b_lo.split_at(a_lo_len);" => "let ghost g2 = uop_graph@; let ghost al = a_lo_len as int; proof { step_trans(g0, g1, g2);  prod_step(g1, g2, a_lo_b_lo@, a_lo@, b@, OutCt::mode().ct()); } let (lo, hi) = a_lo_b_lo.split_at(a_lo_len); let ghost xs = weave(hi@, a_hi_b_lo@, b@.len() as int); proof { nodes_cut(g2, a_lo_b_lo@, al, OutCt::mode().ct()); cut_eq(a_lo_b_lo@, al); nodes_weave(g2, hi@, a_hi_b_lo@, b@.len() as int, OutCt::mode().ct()); step_refl(g2); conv_init(g2, xs); }"
//@sub "sum_out.truncate(a_hi_len + b_lo_len);" => "let ghost full = sum_out@; sum_out.truncate(a_hi_len + b_lo_len); proof { cut_eq(full, a_hi_len + b_lo_len); }"
//@sub "let __x1 = {" => "let ghost gi = uop_graph@; let ghost vi = __v1@; proof { nodes_step(g2, gi, xs, OutCt::mode().ct()); let xi = xs[__j1 as int]; node_at(gi, xs, OutCt::mode().ct(), __j1 as int); assert(xi.i < gi.len() && gty(gi[xi.i as int].op) == OutCt::mode().ct()); assert(__j1 < 2 * b@.len() ==> __s1_0@[__j1 as int] == xi); assert(x == xi); } let __x1 = {"
//@sub "let __x3 = {" => "let ghost gi = uop_graph@; let ghost vi = __v3@; proof { nodes_step(g4, gi, xs, OutCt::mode().ct()); let xi = xs[__j3 as int]; node_at(gi, xs, OutCt::mode().ct(), __j3 as int); assert(xi.i < gi.len() && gty(gi[xi.i as int].op) == OutCt::mode().ct()); assert(x == xi); } let __x3 = {"
//@sub "let mut sum_out =" => "let ghost g3 = uop_graph@; proof { conv_len(g3, adder_inputs@, xs, xs.len() as int); } let mut sum_out ="
//@sub "let a_lo_b_lo = mul_impl::<OutCt>(uop_graph, a_lo, b_lo);" => "let a_lo_b_lo = mul_impl::<OutCt>(uop_graph, a_lo, b_lo); let ghost g1 = uop_graph@; proof { nodes4(g0, g1, a_lo@, a_hi@, b_lo@, b_hi@); }"
//@sub "let a_lo_b_hi = mul_impl::<OutCt>(uop_graph, a_lo, b_hi);" => "let a_lo_b_hi = mul_impl::<OutCt>(uop_graph, a_lo, b_hi); let ghost g2 = uop_graph@; proof { nodes4(g1, g2, a_lo@, a_hi@, b_lo@, b_hi@); }"
//@sub "let a_hi_b_hi = mul_impl::<OutCt>(uop_graph, a_hi, b_hi);" => "let ghost g3 = uop_graph@; proof { nodes4(g2, g3, a_lo@, a_hi@, b_lo@, b_hi@); } let a_hi_b_hi = mul_impl::<OutCt>(uop_graph, a_hi, b_hi); let ghost g4 = uop_graph@; let ghost ct = OutCt::mode().ct(); proof { all4_at(g0, g1, g2, g3, g4, a@, b@, a_lo_b_lo@, a_lo_b_hi@, a_hi_b_lo@, a_hi_b_hi@, ct); step_refl(g4); } let ghost xs = genc(a@.len() as int, b@.len() as int, a_lo_b_lo@, a_lo_b_hi@, a_hi_b_lo@, a_hi_b_hi@);"
//@sub "let reduction = gradeschool_reduce(a.len(), b.len());" => "let ghost g5 = uop_graph@; proof { conv_len(g5, reduction_bits@, xs, xs.len() as int); } let reduction = gradeschool_reduce(a.len(), b.len());"
//@sub "uop_graph.insert_mux_circuit(&mul_block, &interleaved, OutCt::mux_mode())" => "{ proof { nodes_cat(g0, a@, b@, CiphertextType::L1GgswCiphertext); assert(interleaved@ =~= a@ + b@); } let __q = uop_graph.insert_mux_circuit(&mul_block, &interleaved, OutCt::mux_mode()); proof { done1(uop_graph@, &mul_block, a@, b@, interleaved@, __q@, OutCt::mode().ct()); } __q }"
//@sub "uop_graph.insert_mux_circuit(&reduction, &reduction_bits, OutCt::mux_mode())" => "{ let __q = uop_graph.insert_mux_circuit(&reduction, &reduction_bits, OutCt::mux_mode()); proof { let h = uop_graph@; fin3(g0, g4, g5, h, &reduction, a@, b@, a_lo_b_lo@, a_lo_b_hi@, a_hi_b_lo@, a_hi_b_hi@, reduction_bits@, __q@, ct); } __q }"
    requires good(old(uop_graph)@), a@.len() > 0, b@.len() > 0, a@.len() + b@.len() < 0x7FFF, nodes(old(uop_graph)@, a@, CiphertextType::L1GgswCiphertext), nodes(old(uop_graph)@, b@, CiphertextType::L1GgswCiphertext)
    ensures step(old(uop_graph)@, final(uop_graph)@), isprod(final(uop_graph)@, r@, a@, b@, OutCt::mode().ct())
    decreases a@.len() + b@.len()
//@at start
    hide(step); hide(sat); hide(good); hide(conv); hide(isprod); hide(all4); hide(nodes); hide(reduces); hide(adds); hide(multiplies); hide(genc); hide(computes); hide(nv); let ghost g0 = uop_graph@; let ghost a0 = a@; let ghost b0 = b@; broadcast use step_good, isprod_len, comp_len; proof { step_refl(g0); }
//@sub "let (b_lo, b_hi) = b.split_at(b_lo_len);" => "let (b_lo, b_hi) = b.split_at(b_lo_len); proof { cut_eq(a@, a_lo_len as int); cut_eq(b@, b_lo_len as int); nodes_cut(g0, a@, a_lo_len as int, CiphertextType::L1GgswCiphertext); nodes_cut(g0, b@, b_lo_len as int, CiphertextType::L1GgswCiphertext); }"
//@at end-bind
    proof { assert(isprod(uop_graph@, __r@, a@, b@, OutCt::mode().ct())); isprod_comm(uop_graph@, __r@, a@, b@, OutCt::mode().ct()); }
//@at loop 0
    invariant uop_graph@ == g0, __s0_0@ == a@, __s0_1@ == b@, __n0 == a@.len() + b@.len(), __i0 <= __n0, __v0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __v0@[k] == (a@ + b@)[k] decreases __n0 - __i0
//@at loop 2
    invariant __s2_0@ == hi@, __s2_1@ == a_hi_b_lo@, __n2 == b@.len(), b@.len() <= hi@.len(), b@.len() <= a_hi_b_lo@.len(), __i2 <= __n2, __v2@.len() == 2 * __i2, forall|k: int| 0 <= k < 2 * __i2 ==> #[trigger] __v2@[k] == (if k % 2 == 0 { hi@[k / 2] } else { a_hi_b_lo@[k / 2] }) decreases __n2 - __i2
//@at loop 1
    invariant __s1_0@.len() == 2 * b@.len(), __s1_1@ == a_hi_b_lo@, __k1_2 == b@.len(), b@.len() < 0x7FFF, a_hi_b_lo@.len() < 0x7FFF, b@.len() <= a_hi_b_lo@.len(), __n1 == b@.len() + a_hi_b_lo@.len(), __i1 <= __n1, __n1 == xs.len(), xs == weave(hi@, a_hi_b_lo@, b@.len() as int), forall|k: int| 0 <= k < 2 * b@.len() ==> #[trigger] __s1_0@[k] == (if k % 2 == 0 { hi@[k / 2] } else { a_hi_b_lo@[k / 2] }),
        good(g2), good(uop_graph@), step(g2, uop_graph@), nodes(g2, xs, OutCt::mode().ct()), conv(uop_graph@, __v1@, xs, __i1 as int)
    decreases __n1 - __i1
//@at end 1
    proof { step_good(gi, uop_graph@); step_trans(g2, gi, uop_graph@); assert(x == xs[__j1 as int]); conv_push(gi, uop_graph@, vi, xs, __j1 as int, __x1); }
//@at loop 3
    invariant __s3_0@ == xs, __n3 == xs.len(), __i3 <= __n3, good(g4), good(uop_graph@), step(g4, uop_graph@), nodes(g4, xs, OutCt::mode().ct()), conv(uop_graph@, __v3@, xs, __i3 as int)
    decreases __n3 - __i3
//@at end 3
    proof { step_good(gi, uop_graph@); step_trans(g4, gi, uop_graph@); assert(x == xs[__j3 as int]); conv_push(gi, uop_graph@, vi, xs, __j3 as int, __x3); }
//@at before 3
    proof { nodes_genc(g4, a@.len() as int, b@.len() as int, a_lo_b_lo@, a_lo_b_hi@, a_hi_b_lo@, a_hi_b_hi@, ct); conv_init(g4, xs); }
//@end

// ---- signed products ----
pub open spec fn holds(g: Seq<Node>, r: Seq<NodeIndex>, n: int, t: CiphertextType, w: spec_fn(Vl, int) -> bool) -> bool { r.len() == n && nodes(g, r, t) && forall|v: Vl, k: int| sat(g, v) && 0 <= k < n ==> #[trigger] nb(r, v)(k) == w(v, k) }
proof fn holds_push(g: Seq<Node>, h: Seq<Node>, r: Seq<NodeIndex>, n: int, t: CiphertextType, w: spec_fn(Vl, int) -> bool, y: NodeIndex)
    requires good(g), step(g, h), holds(g, r, n, t, w), 0 <= n, y.i < h.len(), gty(h[y.i as int].op) == t, forall|v: Vl| sat(h, v) ==> #[trigger] v(y.i as int) == w(v, n)
    ensures holds(h, r.push(y), n + 1, t, w)
{
    nodes_step(g, h, r, t);
    assert forall|v: Vl, k: int| sat(h, v) && 0 <= k < n + 1 implies #[trigger] nb(r.push(y), v)(k) == w(v, k) by { step_sat(g, h, v); if k < n { assert(nb(r, v)(k) == w(v, k)); } else { assert(v(y.i as int) == w(v, n)); } }
}
proof fn holds_step(g: Seq<Node>, h: Seq<Node>, r: Seq<NodeIndex>, n: int, t: CiphertextType, w: spec_fn(Vl, int) -> bool) requires good(g), step(g, h), holds(g, r, n, t, w) ensures holds(h, r, n, t, w), nodes(h, r, t)
{ nodes_step(g, h, r, t); assert forall|v: Vl, k: int| sat(h, v) && 0 <= k < n implies #[trigger] nb(r, v)(k) == w(v, k) by { step_sat(g, h, v); } }
proof fn holds_init(g: Seq<Node>, t: CiphertextType, w: spec_fn(Vl, int) -> bool) ensures holds(g, Seq::empty(), 0, t, w) { }
proof fn holds_val(g: Seq<Node>, r: Seq<NodeIndex>, n: int, t: CiphertextType, w: spec_fn(Vl, int) -> bool, f: spec_fn(int) -> bool, v: Vl) requires 0 <= n, holds(g, r, n, t, w), sat(g, v), forall|k: int| 0 <= k < n ==> #[trigger] w(v, k) == f(k) ensures nv(r, v) == val(f, n as nat)
{ assert forall|k: int| 0 <= k < n implies #[trigger] nb(r, v)(k) == f(k) by { assert(w(v, k) == f(k)); } val_ext(nb(r, v), f, n as nat); }
/// two's complement
pub open spec fn tc(s: Seq<NodeIndex>, v: Vl) -> int { if v(s.last().i as int) { nv(s, v) - p2(s.len()) } else { nv(s, v) as int } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn negs(g: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>) -> bool { r.len() == x.len() && forall|v: Vl| sat(g, v) ==> #[trigger] nv(r, v) == (if nv(x, v) == 0 { 0 } else { (p2(x.len()) - nv(x, v)) as nat }) }
proof fn negs_step(g: Seq<Node>, h: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>) requires good(g), step(g, h), negs(g, r, x) ensures negs(h, r, x) { assert forall|v: Vl| sat(h, v) implies #[trigger] nv(r, v) == (if nv(x, v) == 0 { 0 } else { (p2(x.len()) - nv(x, v)) as nat }) by { step_sat(g, h, v); } }
pub open spec fn abss(g: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>) -> bool { r.len() == x.len() && nodes(g, r, CiphertextType::L1GgswCiphertext) && forall|v: Vl| sat(g, v) ==> #[trigger] nv(r, v) == iabs(tc(x, v)) }
proof fn abss_step(g: Seq<Node>, h: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>) requires good(g), step(g, h), abss(g, r, x) ensures abss(h, r, x) { nodes_step(g, h, r, CiphertextType::L1GgswCiphertext); assert forall|v: Vl| sat(h, v) implies #[trigger] nv(r, v) == iabs(tc(x, v)) by { step_sat(g, h, v); } }
/// the value of a number whose last bit is set is at least half
proof fn top_val(f: spec_fn(int) -> bool, n: nat) requires n > 0 ensures f(n - 1) ==> 2 * val(f, n) >= p2(n), !f(n - 1) ==> 2 * val(f, n) < p2(n)
{ let c = (n - 1) as nat; val_lt(f, c); assert(val(f, n) == val(f, c) + b2n(f(n - 1)) * p2(c)); assert(p2(n) == 2 * p2(c)); assert(1 * p2(c) == p2(c) && 0 * p2(c) == 0); }
proof fn tc_nv(x: Seq<NodeIndex>, v: Vl) requires x.len() > 0 ensures v(x.last().i as int) ==> 2 * nv(x, v) >= p2(x.len()), !v(x.last().i as int) ==> 2 * nv(x, v) < p2(x.len()), nv(x, v) < p2(x.len()) { top_val(nb(x, v), x.len()); nv_lt(x, v); }
//@fn parasol_runtime/src/circuits/mul.rs :: neg
//@ret r
    requires good(old(uop_graph)@), input@.len() > 0, input@.len() < 0x7FFF, nodes(old(uop_graph)@, input@, CiphertextType::L1GgswCiphertext)
    ensures step(old(uop_graph)@, final(uop_graph)@), nodes(final(uop_graph)@, r@, CiphertextType::L1GlweCiphertext), negs(final(uop_graph)@, r@, input@)
//@at end-bind
    proof { let h = uop_graph@; assert forall|v: Vl| sat(h, v) implies #[trigger] nv(__r@, v) == (if nv(input@, v) == 0 { 0 } else { (p2(input@.len()) - nv(input@, v)) as nat }) by { comp_val(h, &neg_circuit, input@, __r@, v); sv_nv(input@, v); let e = nbs(input@, v); assert(e.len() == input@.len()); } }
//@end
proof fn abss_len(g: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>) requires abss(g, r, x) ensures r.len() == x.len(), nodes(g, r, CiphertextType::L1GgswCiphertext) { }
proof fn negs_len(g: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>) requires negs(g, r, x) ensures r.len() == x.len() { }
proof fn holds_len(g: Seq<Node>, r: Seq<NodeIndex>, n: int, t: CiphertextType, w: spec_fn(Vl, int) -> bool) requires holds(g, r, n, t, w) ensures r.len() == n, nodes(g, r, t) { }
pub struct L1Glwe; impl Muxable for L1Glwe { open spec fn mode() -> MuxMode { MuxMode::Glwe } fn mux_mode() -> MuxMode { MuxMode::Glwe } fn ciphertext_type() -> CiphertextType { CiphertextType::L1GlweCiphertext } }
/// the multiplexer just added, whole
proof fn cmux_new(g: Seq<Node>, h: Seq<Node>, s: int, l: int, u: int) requires good(g), 0 <= s < g.len(), 0 <= l < g.len(), 0 <= u < g.len(), gty(g[s].op) is L1GgswCiphertext, gty(g[l].op) is L1GlweCiphertext, gty(g[u].op) is L1GlweCiphertext,
        ({ let n = g.len() as int; let h0 = g.push(Node { op: FheOp::CMux, ins: Seq::empty() }); let h1 = h0.update(n, Node { op: h0[n].op, ins: h0[n].ins.push((FheEdge::Sel, s)) }); let h2 = h1.update(n, Node { op: h1[n].op, ins: h1[n].ins.push((FheEdge::Low, l)) }); h == h2.update(n, Node { op: h2[n].op, ins: h2[n].ins.push((FheEdge::High, u)) }) })
    ensures step(g, h), h.len() == g.len() + 1, gty(h[g.len() as int].op) is L1GlweCiphertext, forall|v: Vl| sat(h, v) ==> #[trigger] v(g.len() as int) == (if v(s) { v(u) } else { v(l) })
{ add_cmux(g, s, l, u); assert(h =~= g.push(Node { op: FheOp::CMux, ins: Seq::empty().push((FheEdge::Sel, s)).push((FheEdge::Low, l)).push((FheEdge::High, u)) })); }
pub open spec fn wsel(s: int, f: Seq<NodeIndex>, t: Seq<NodeIndex>) -> spec_fn(Vl, int) -> bool { |v: Vl, k: int| if v(s) { v(t[k].i as int) } else { v(f[k].i as int) } }
pub open spec fn wid(f: Seq<NodeIndex>) -> spec_fn(Vl, int) -> bool { |v: Vl, k: int| v(f[k].i as int) }
proof fn abs_done(g2: Seq<Node>, h: Seq<Node>, x: Seq<NodeIndex>, ig: Seq<NodeIndex>, ng: Seq<NodeIndex>, r: Seq<NodeIndex>)
    requires x.len() > 0, good(g2), step(g2, h), holds(g2, ig, x.len() as int, CiphertextType::L1GlweCiphertext, wid(x)), negs(g2, ng, x), holds(h, r, x.len() as int, CiphertextType::L1GgswCiphertext, wsel(x.last().i as int, ig, ng))
    ensures abss(h, r, x)
{
    assert forall|v: Vl| sat(h, v) implies #[trigger] nv(r, v) == iabs(tc(x, v)) by {
        step_sat(g2, h, v); tc_nv(x, v); let s = x.last().i as int; holds_val(g2, ig, x.len() as int, CiphertextType::L1GlweCiphertext, wid(x), nb(x, v), v);
        if v(s) { holds_val(h, r, x.len() as int, CiphertextType::L1GgswCiphertext, wsel(s, ig, ng), nb(ng, v), v); assert(nv(r, v) == nv(ng, v)); } else { holds_val(h, r, x.len() as int, CiphertextType::L1GgswCiphertext, wsel(s, ig, ng), nb(ig, v), v); assert(nv(r, v) == nv(ig, v)); assert(nv(ig, v) == nv(x, v)); }
    }
}
//@fn parasol_runtime/src/circuits/mul.rs :: abs
//@ret r
    requires good(old(uop_graph)@), input@.len() > 0, input@.len() < 0x7FFF, nodes(old(uop_graph)@, input@, CiphertextType::L1GgswCiphertext)
    ensures step(old(uop_graph)@, final(uop_graph)@), abss(final(uop_graph)@, r@, input@)
//@at start
    hide(step); hide(sat); hide(good); hide(nodes); hide(nv); broadcast use step_good; let ghost g0 = uop_graph@; proof { step_refl(g0); holds_init(g0, CiphertextType::L1GlweCiphertext, wid(input@)); }
//@at loop 0
    invariant __s0_0@ == input@, __n0 == input@.len(), __i0 <= __n0, good(g0), good(uop_graph@), nodes(g0, input@, CiphertextType::L1GgswCiphertext), step(g0, uop_graph@), holds(uop_graph@, __v0@, __i0 as int, CiphertextType::L1GlweCiphertext, wid(input@)) decreases __n0 - __i0
//@sub "let __x0 = {" => "let ghost gi = uop_graph@; let ghost vi = __v0@; proof { nodes_step(g0, gi, input@, CiphertextType::L1GgswCiphertext); node_at(gi, input@, CiphertextType::L1GgswCiphertext, __j0 as int); } let __x0 = {"
//@at end 0
    proof { step_good(gi, uop_graph@); step_trans(g0, gi, uop_graph@); holds_push(gi, uop_graph@, vi, __j0 as int, CiphertextType::L1GlweCiphertext, wid(input@), __x0); }
//@sub "let neg_input_glwe = neg(uop_graph, input);" => "let ghost g1 = uop_graph@; proof { nodes_step(g0, g1, input@, CiphertextType::L1GgswCiphertext); } let neg_input_glwe = neg(uop_graph, input); let ghost g2 = uop_graph@; let ghost (ig, ng) = (input_glwe@, neg_input_glwe@); proof { step_good(g1, g2); step_trans(g0, g1, g2); nodes_step(g0, g2, input@, CiphertextType::L1GgswCiphertext); holds_step(g1, g2, ig, input@.len() as int, CiphertextType::L1GlweCiphertext, wid(input@)); step_refl(g2); }"
//@sub "let sel = *input.last().unwrap();" => "let sel = *input.last().unwrap(); proof { assert(sel == input@.last()); holds_init(g2, CiphertextType::L1GgswCiphertext, wsel(sel.i as int, ig, ng)); }"
//@at loop 1
    invariant __s1_0@ == ig, __s1_1@ == ng, __n1 == input@.len(), ig.len() == input@.len(), ng.len() == input@.len(), __i1 <= __n1, input@.len() > 0, sel == input@.last(), good(g2), good(uop_graph@), nodes(g2, input@, CiphertextType::L1GgswCiphertext), nodes(g2, ig, CiphertextType::L1GlweCiphertext), nodes(g2, ng, CiphertextType::L1GlweCiphertext), step(g2, uop_graph@), holds(uop_graph@, __v1@, __i1 as int, CiphertextType::L1GgswCiphertext, wsel(sel.i as int, ig, ng)) decreases __n1 - __i1
//@sub "let __x1 = {" => "let ghost gi = uop_graph@; let ghost vi = __v1@; let ghost k = __j1 as int; proof { nodes_step(g2, gi, input@, CiphertextType::L1GgswCiphertext); nodes_step(g2, gi, ig, CiphertextType::L1GlweCiphertext); nodes_step(g2, gi, ng, CiphertextType::L1GlweCiphertext); node_at(gi, input@, CiphertextType::L1GgswCiphertext, input@.len() - 1); node_at(gi, ig, CiphertextType::L1GlweCiphertext, k); node_at(gi, ng, CiphertextType::L1GlweCiphertext, k); } let ghost mut gj = gi; let __x1 = {"
//@sub "uop_graph.add_edge(bit_for_true, cmux_node, FheEdge::High);" => "uop_graph.add_edge(bit_for_true, cmux_node, FheEdge::High); proof { gj = uop_graph@; cmux_new(gi, gj, sel.i as int, ig[k].i as int, ng[k].i as int); step_good(gi, gj); }"
//@at end 1
    proof { let h = uop_graph@; step_good(gj, h); step_trans(gi, gj, h); step_trans(g2, gi, h); let w = wsel(sel.i as int, ig, ng); assert forall|v: Vl| sat(h, v) implies #[trigger] v(__x1.i as int) == w(v, k) by { step_sat(gj, h, v); assert(v(gi.len() as int) == (if v(sel.i as int) { v(ng[k].i as int) } else { v(ig[k].i as int) })); } holds_push(gi, h, vi, k, CiphertextType::L1GgswCiphertext, w, __x1); }
//@at end-bind
    proof { step_trans(g0, g2, uop_graph@); abs_done(g2, uop_graph@, input@, ig, ng, __r@); }
//@end

#[verifier::external_body] pub fn owned(a: &[NodeIndex]) -> (r: Vec<NodeIndex>) ensures r@ == a@ { a.to_owned() }
//@fn parasol_runtime/src/circuits/mul.rs :: append_uint_multiply
//@sig fn append_uint_multiply<OutCt: Muxable>(uop_graph: &mut FheCircuit, a: &[NodeIndex], b: &[NodeIndex]) -> (r: (Vec<NodeIndex>, Vec<NodeIndex>))
//@sub "(lo.to_owned(), hi.to_owned())" => "{ proof { assert(lo@ + hi@ =~= result@); } (owned(lo), owned(hi)) }"
    requires good(old(uop_graph)@), a@.len() > 0, b@.len() > 0, a@.len() + b@.len() < 0x7FFF, nodes(old(uop_graph)@, a@, CiphertextType::L1GgswCiphertext), nodes(old(uop_graph)@, b@, CiphertextType::L1GgswCiphertext)
    ensures step(old(uop_graph)@, final(uop_graph)@), r.0@.len() == a@.len(), isprod(final(uop_graph)@, r.0@ + r.1@, a@, b@, OutCt::mode().ct())
//@end
pub open spec fn wsgn(s1: int, s2: int, pos: Seq<NodeIndex>, neg: Seq<NodeIndex>) -> spec_fn(Vl, int) -> bool { |v: Vl, k: int| if v(s1) == v(s2) { v(pos[k].i as int) } else { v(neg[k].i as int) } }
pub open spec fn issprod(g: Seq<Node>, r: Seq<NodeIndex>, x: Seq<NodeIndex>, y: Seq<NodeIndex>, t: CiphertextType) -> bool { r.len() == x.len() + y.len() && nodes(g, r, t) && forall|v: Vl| sat(g, v) ==> #[trigger] nv(r, v) == (tc(x, v) * tc(y, v)) % (p2(x.len() + y.len()) as int) }
proof fn neg_mod(x: int, m: int) requires 0 <= x < m ensures (-x) % m == (if x == 0 { 0 } else { m - x }) { if x == 0 { vstd::arithmetic::div_mod::lemma_small_mod(0, m as nat); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-x, m, -1, m - x); } }
proof fn sgn_mod(ta: int, tb: int, x: int, m: int) requires x == iabs(ta) * iabs(tb), x < m ensures (ta < 0) == (tb < 0) ==> (ta * tb) % m == x, (ta < 0) != (tb < 0) ==> (ta * tb) % m == (if x == 0 { 0 } else { m - x })
{
    assert(x >= 0) by (nonlinear_arith) requires x == iabs(ta) * iabs(tb), iabs(ta) >= 0, iabs(tb) >= 0;
    if (ta < 0) == (tb < 0) { assert(ta * tb == x) by (nonlinear_arith) requires x == iabs(ta) * iabs(tb), (ta < 0) == (tb < 0); vstd::arithmetic::div_mod::lemma_small_mod(x as nat, m as nat); }
    else { assert(ta * tb == -x) by (nonlinear_arith) requires x == iabs(ta) * iabs(tb), (ta < 0) != (tb < 0); neg_mod(x, m); }
}
proof fn sdone(h: Seq<Node>, a: Seq<NodeIndex>, b: Seq<NodeIndex>, aa: Seq<NodeIndex>, bb: Seq<NodeIndex>, pos: Seq<NodeIndex>, pg: Seq<NodeIndex>, neg: Seq<NodeIndex>, r: Seq<NodeIndex>, t: CiphertextType)
    requires a.len() > 0, b.len() > 0, abss(h, aa, a), abss(h, bb, b), isprod(h, pos, aa, bb, CiphertextType::L1GlweCiphertext), holds(h, pg, pos.len() as int, CiphertextType::L1GgswCiphertext, wid(pos)), negs(h, neg, pg), holds(h, r, pos.len() as int, t, wsgn(a.last().i as int, b.last().i as int, pos, neg))
    ensures issprod(h, r, a, b, t)
{
    let n = pos.len() as int; let (s1, s2) = (a.last().i as int, b.last().i as int); let w = wsgn(s1, s2, pos, neg);
    assert forall|v: Vl| sat(h, v) implies #[trigger] nv(r, v) == (tc(a, v) * tc(b, v)) % (p2(a.len() + b.len()) as int) by {
        tc_nv(a, v); tc_nv(b, v); nv_lt(pos, v); let x = nv(pos, v) as int; assert(nv(aa, v) == iabs(tc(a, v))); assert(nv(bb, v) == iabs(tc(b, v))); sgn_mod(tc(a, v), tc(b, v), x, p2(n as nat) as int);
        holds_val(h, pg, n, CiphertextType::L1GgswCiphertext, wid(pos), nb(pos, v), v); assert(nv(pg, v) == nv(pos, v));
        if v(s1) == v(s2) { holds_val(h, r, n, t, w, nb(pos, v), v); assert(nv(r, v) == nv(pos, v)); } else { holds_val(h, r, n, t, w, nb(neg, v), v); assert(nv(r, v) == nv(neg, v)); }
    }
}
//@fn parasol_runtime/src/circuits/mul.rs :: append_int_multiply
//@sig #[verifier::rlimit(30)] fn append_int_multiply<OutCt: Muxable>(uop_graph: &mut FheCircuit, a: &[NodeIndex], b: &[NodeIndex]) -> (r: (Vec<NodeIndex>, Vec<NodeIndex>))
//@sub "OutCt::CIPHERTEXT_TYPE" => "OutCt::ciphertext_type()"
//@presub "mul_impl::<L1GlweCiphertext>" => "mul_impl::<L1Glwe>"
    requires good(old(uop_graph)@), a@.len() > 0, b@.len() > 0, a@.len() + b@.len() < 0x7FFF, nodes(old(uop_graph)@, a@, CiphertextType::L1GgswCiphertext), nodes(old(uop_graph)@, b@, CiphertextType::L1GgswCiphertext)
    ensures step(old(uop_graph)@, final(uop_graph)@), r.0@.len() == a@.len(), issprod(final(uop_graph)@, r.0@ + r.1@, a@, b@, OutCt::mode().ct())
//@at start
    hide(step); hide(sat); hide(good); hide(nodes); hide(nv); hide(negs); hide(abss); hide(isprod); hide(issprod); hide(holds); broadcast use step_good, isprod_len; let ghost g0 = uop_graph@; let ghost gg = CiphertextType::L1GgswCiphertext; let ghost gl = CiphertextType::L1GlweCiphertext; let ghost ct = OutCt::mode().ct();
//@sub "let abs_b = abs(uop_graph, b);" => "let ghost g1 = uop_graph@; proof { nodes_step(g0, g1, a@, gg); nodes_step(g0, g1, b@, gg); abss_len(g1, abs_a@, a@); } let abs_b = abs(uop_graph, b); let ghost g2 = uop_graph@; proof { step_trans(g0, g1, g2); nodes_step(g1, g2, a@, gg); nodes_step(g1, g2, b@, gg); abss_step(g1, g2, abs_a@, a@); abss_len(g2, abs_a@, a@); abss_len(g2, abs_b@, b@); }"
//@sub "let pos_product_ggsw =" => "let ghost g3 = uop_graph@; let ghost pp = pos_product@; proof { step_trans(g0, g2, g3); nodes_step(g2, g3, a@, gg); nodes_step(g2, g3, b@, gg); abss_step(g2, g3, abs_a@, a@); abss_step(g2, g3, abs_b@, b@); step_refl(g3); holds_init(g3, gg, wid(pp)); } let pos_product_ggsw ="
//@at loop 0
    invariant __s0_0@ == pp, __n0 == pp.len(), __i0 <= __n0, gg is L1GgswCiphertext, gl is L1GlweCiphertext, good(g3), good(uop_graph@), nodes(g3, pp, gl), step(g3, uop_graph@), holds(uop_graph@, __v0@, __i0 as int, gg, wid(pp)) decreases __n0 - __i0
//@sub "let __x0 = {" => "let ghost gi = uop_graph@; let ghost vi = __v0@; proof { nodes_step(g3, gi, pp, gl); node_at(gi, pp, gl, __j0 as int); } let __x0 = {"
//@at end 0
    proof { step_good(gi, uop_graph@); step_trans(g3, gi, uop_graph@); holds_push(gi, uop_graph@, vi, __j0 as int, gg, wid(pp), __x0); }
//@sub "let neg_product = neg(uop_graph, &pos_product_ggsw);" => "let ghost g4 = uop_graph@; let ghost pg = pos_product_ggsw@; proof { step_trans(g0, g3, g4); holds_len(g4, pg, pp.len() as int, gg, wid(pp)); } let neg_product = neg(uop_graph, &pos_product_ggsw); let ghost g5 = uop_graph@; let ghost ng = neg_product@; proof { step_good(g4, g5); step_trans(g3, g4, g5); step_trans(g0, g4, g5); nodes_step(g3, g5, a@, gg); nodes_step(g3, g5, b@, gg); nodes_step(g3, g5, pp, gl); abss_step(g3, g5, abs_a@, a@); abss_step(g3, g5, abs_b@, b@); prod_step(g3, g5, pp, abs_a@, abs_b@, gl); holds_step(g4, g5, pg, pp.len() as int, gg, wid(pp)); negs_len(g5, ng, pg); step_refl(g5); }"
//@sub "let s2 = *b.last().unwrap();" => "let s2 = *b.last().unwrap(); let ghost w = wsgn(s1.i as int, s2.i as int, pp, ng); proof { assert(s1 == a@.last() && s2 == b@.last()); holds_init(g5, ct, w); }"
//@at loop 1
    invariant __s1_0@ == pp, __s1_1@ == ng, __n1 == pp.len(), ng.len() == pp.len(), __i1 <= __n1, a@.len() > 0, b@.len() > 0, s1 == a@.last(), s2 == b@.last(), gg is L1GgswCiphertext, gl is L1GlweCiphertext, ct == OutCt::mode().ct(), w == wsgn(s1.i as int, s2.i as int, pp, ng), good(g5), good(uop_graph@), nodes(g5, a@, gg), nodes(g5, b@, gg), nodes(g5, pp, gl), nodes(g5, ng, gl), step(g5, uop_graph@), holds(uop_graph@, __v1@, __i1 as int, ct, w) decreases __n1 - __i1
//@sub "let __x1 = {" => "let ghost gi = uop_graph@; let ghost vi = __v1@; let ghost k = __j1 as int; proof { nodes_step(g5, gi, a@, gg); nodes_step(g5, gi, b@, gg); nodes_step(g5, gi, pp, gl); nodes_step(g5, gi, ng, gl); node_at(gi, a@, gg, a@.len() - 1); node_at(gi, b@, gg, b@.len() - 1); node_at(gi, pp, gl, k); node_at(gi, ng, gl, k); } let ghost mut ga = gi; let ghost mut gb = gi; let ghost mut gc = gi; let ghost n = gi.len() as int; let __x1 = {"
//@sub "uop_graph.add_edge(neg, cmux_11, FheEdge::High);" => "uop_graph.add_edge(neg, cmux_11, FheEdge::High); proof { ga = uop_graph@; cmux_new(gi, ga, s1.i as int, pp[k].i as int, ng[k].i as int); step_good(gi, ga); assert forall|i: int| 0 <= i < n implies #[trigger] ga[i] == gi[i] by { } assert(forall|i: int| 0 <= i < n ==> #[trigger] ga[i] == gi[i]); assert(ga[s1.i as int] == gi[s1.i as int] && ga[s2.i as int] == gi[s2.i as int] && ga[pp[k].i as int] == gi[pp[k].i as int] && ga[ng[k].i as int] == gi[ng[k].i as int]); }"
//@sub "uop_graph.add_edge(pos, cmux_12, FheEdge::High);" => "uop_graph.add_edge(pos, cmux_12, FheEdge::High); proof { gb = uop_graph@; cmux_new(ga, gb, s1.i as int, __s1_1@[k].i as int, __s1_0@[k].i as int); step_good(ga, gb); assert(gb[n] == ga[n] && gb[s2.i as int] == ga[s2.i as int]); }"
//@sub "uop_graph.add_edge(cmux_12, cmux_2, FheEdge::High);" => "uop_graph.add_edge(cmux_12, cmux_2, FheEdge::High); proof { gc = uop_graph@; cmux_new(gb, gc, s2.i as int, n, n + 1); step_good(gb, gc); }"
//@at end 1
    proof { let h = uop_graph@; step_good(gc, h); step_trans(gb, gc, h); step_trans(ga, gb, h); step_trans(gi, ga, h); step_trans(g5, gi, h); assert forall|v: Vl| sat(h, v) implies #[trigger] v(__x1.i as int) == w(v, k) by { step_sat(gc, h, v); step_sat(gb, h, v) ; step_sat(ga, h, v); let (p, q) = (v(n), v(n + 1)); assert(v(__x1.i as int) == v(n + 2)); } holds_push(gi, h, vi, k, ct, w, __x1); }
//@sub "let (lo, hi) = result.split_at(a.len());" => "let ghost h = uop_graph@; proof { step_trans(g0, g5, h); abss_step(g5, h, abs_a@, a@); abss_step(g5, h, abs_b@, b@); prod_step(g5, h, pp, abs_a@, abs_b@, gl); holds_step(g5, h, pg, pp.len() as int, gg, wid(pp)); negs_step(g5, h, ng, pg); holds_len(h, result@, pp.len() as int, ct, w); sdone(h, a@, b@, abs_a@, abs_b@, pp, pg, ng, result@, ct); } let (lo, hi) = result.split_at(a.len());"
//@sub "(lo.to_owned(), hi.to_owned())" => "{ proof { assert(lo@ + hi@ =~= result@); } (owned(lo), owned(hi)) }"
//@end
} // verus!
fn main() {}
