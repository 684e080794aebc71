//@include bdd.rs
// FHE computation graphs: petgraph's StableGraph is the list of its nodes, each with its operation and the edges into it in the order
// they were added (trusted). A valuation gives every node a bit; it satisfies the graph if every node computes what its
// documentation says of its operands.
verus! {
#[derive(Copy, Clone)] pub struct NodeIndex { pub i: usize }
#[verifier::external_body] pub struct SharedL0LweCiphertext { x: u64 }
#[verifier::external_body] pub struct SharedL1LweCiphertext { x: u64 }
#[verifier::external_body] pub struct SharedL1GlweCiphertext { x: u64 }
#[verifier::external_body] pub struct SharedL1GgswCiphertext { x: u64 }
#[verifier::external_body] pub struct SharedL1GlevCiphertext { x: u64 }
//@item parasol_runtime/src/fhe_circuit.rs :: FheOp
#[derive(Clone, Copy)]
//@item parasol_runtime/src/fhe_circuit.rs :: FheEdge
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item parasol_runtime/src/crypto/ciphertext.rs :: CiphertextType
//@item parasol_runtime/src/fhe_circuit.rs :: MuxMode
pub struct Node { pub op: FheOp, pub ins: Seq<(FheEdge, int)> }
#[verifier::external_body] pub struct FheCircuit { x: u64 }
impl View for FheCircuit { type V = Seq<Node>; uninterp spec fn view(&self) -> Seq<Node>; }
impl FheCircuit {
    #[verifier::external_body] pub fn add_node(&mut self, op: FheOp) -> (r: NodeIndex) ensures r.i == old(self)@.len(), final(self)@ == old(self)@.push(Node { op: op, ins: Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, w: FheEdge) requires a.i < old(self)@.len(), b.i < old(self)@.len()
        ensures final(self)@ == old(self)@.update(b.i as int, Node { op: old(self)@[b.i as int].op, ins: old(self)@[b.i as int].ins.push((w, a.i as int)) }) { unimplemented!() }
}
/// the type of what an operation gives
pub open spec fn gty(op: FheOp) -> CiphertextType { match op {
    FheOp::InputLwe0(_) | FheOp::KeyswitchL1toL0 | FheOp::ZeroLwe0 | FheOp::OneLwe0 => CiphertextType::L0LweCiphertext,
    FheOp::InputLwe1(_) | FheOp::SampleExtract(_) => CiphertextType::L1LweCiphertext,
    FheOp::InputGgsw1(_) | FheOp::CircuitBootstrap | FheOp::SchemeSwitch | FheOp::ZeroGgsw1 | FheOp::OneGgsw1 => CiphertextType::L1GgswCiphertext,
    FheOp::InputGlev1(_) | FheOp::GlevCMux | FheOp::ZeroGlev1 | FheOp::OneGlev1 => CiphertextType::L1GlevCiphertext,
    _ => CiphertextType::L1GlweCiphertext } }
pub open spec fn kty(op: FheOp, k: FheEdge) -> CiphertextType { match k {
    FheEdge::Sel | FheEdge::Ggsw => CiphertextType::L1GgswCiphertext,
    FheEdge::Low | FheEdge::High => if op is GlevCMux { CiphertextType::L1GlevCiphertext } else { CiphertextType::L1GlweCiphertext },
    FheEdge::Glwe => CiphertextType::L1GlweCiphertext,
    _ => match op { FheOp::SampleExtract(_) => CiphertextType::L1GlweCiphertext, FheOp::KeyswitchL1toL0 => CiphertextType::L1LweCiphertext, FheOp::CircuitBootstrap => CiphertextType::L0LweCiphertext, _ => CiphertextType::L1GlevCiphertext } } }
/// the operand connected by an edge of kind k (the last one added)
pub open spec fn src(s: Seq<(FheEdge, int)>, k: FheEdge) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last().0 == k { s.last().1 } else { src(s.drop_last(), k) } }
pub open spec fn has(g: Seq<Node>, i: int, k: FheEdge) -> bool { let j = src(g[i].ins, k); 0 <= j < g.len() && gty(g[j].op) == kty(g[i].op, k) }
/// every operand is connected once and has the type the operation needs
pub open spec fn wt(g: Seq<Node>, i: int) -> bool { match g[i].op {
    FheOp::CMux | FheOp::GlevCMux => g[i].ins.len() == 3 && has(g, i, FheEdge::Sel) && has(g, i, FheEdge::Low) && has(g, i, FheEdge::High),
    FheOp::MultiplyGgswGlwe => g[i].ins.len() == 2 && has(g, i, FheEdge::Glwe) && has(g, i, FheEdge::Ggsw),
    FheOp::SampleExtract(k) => k == 0 && g[i].ins.len() == 1 && has(g, i, FheEdge::Unary),
    FheOp::KeyswitchL1toL0 | FheOp::CircuitBootstrap | FheOp::SchemeSwitch => g[i].ins.len() == 1 && has(g, i, FheEdge::Unary),
    FheOp::ZeroLwe0 | FheOp::OneLwe0 | FheOp::ZeroGlwe1 | FheOp::OneGlwe1 | FheOp::ZeroGgsw1 | FheOp::OneGgsw1 | FheOp::ZeroGlev1 | FheOp::OneGlev1 => g[i].ins.len() == 0,
    FheOp::InputLwe0(_) | FheOp::InputLwe1(_) | FheOp::InputGlwe1(_) | FheOp::InputGgsw1(_) | FheOp::InputGlev1(_) => g[i].ins.len() == 0,
    _ => false } }
pub open spec fn good(g: Seq<Node>) -> bool { forall|i: int| 0 <= i < g.len() ==> #[trigger] wt(g, i) }
pub type Vl = spec_fn(int) -> bool;
pub open spec fn eqn(g: Seq<Node>, v: Vl, i: int) -> bool { let s = g[i].ins; match g[i].op {
    FheOp::CMux | FheOp::GlevCMux => v(i) == (if v(src(s, FheEdge::Sel)) { v(src(s, FheEdge::High)) } else { v(src(s, FheEdge::Low)) }),
    FheOp::MultiplyGgswGlwe => v(i) == (v(src(s, FheEdge::Glwe)) && v(src(s, FheEdge::Ggsw))),
    FheOp::SampleExtract(_) | FheOp::KeyswitchL1toL0 | FheOp::CircuitBootstrap | FheOp::SchemeSwitch => v(i) == v(src(s, FheEdge::Unary)),
    FheOp::ZeroLwe0 | FheOp::ZeroGlwe1 | FheOp::ZeroGgsw1 | FheOp::ZeroGlev1 => !v(i),
    FheOp::OneLwe0 | FheOp::OneGlwe1 | FheOp::OneGgsw1 | FheOp::OneGlev1 => v(i),
    _ => true } }
pub open spec fn sat(g: Seq<Node>, v: Vl) -> bool { forall|i: int| 0 <= i < g.len() ==> #[trigger] eqn(g, v, i) }
pub open spec fn agree(v: Vl, w: Vl, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] v(i) == w(i) }
/// h is g with well-formed nodes added; whatever the nodes of g hold, the new ones have values (so nothing below is vacuous)
pub open spec fn step(g: Seq<Node>, h: Seq<Node>) -> bool {
    &&& g.len() <= h.len() && (forall|i: int| 0 <= i < g.len() ==> #[trigger] h[i] == g[i])
    &&& good(h)
    &&& forall|v: Vl| #[trigger] sat(g, v) ==> exists|w: Vl| #[trigger] sat(h, w) && agree(v, w, g.len() as int)
}
pub proof fn eqn_eq(g: Seq<Node>, h: Seq<Node>, v: Vl, w: Vl, i: int) requires good(g), 0 <= i < g.len() <= h.len(), h[i] == g[i], agree(v, w, g.len() as int) ensures eqn(g, v, i) == eqn(h, w, i) { assert(wt(g, i)); }
pub proof fn step_sat(g: Seq<Node>, h: Seq<Node>, v: Vl) requires good(g), step(g, h), sat(h, v) ensures sat(g, v) { assert forall|i: int| 0 <= i < g.len() implies #[trigger] eqn(g, v, i) by { assert(h[i] == g[i]); eqn_eq(g, h, v, v, i); assert(eqn(h, v, i)); } }
pub proof fn step_refl(g: Seq<Node>) requires good(g) ensures step(g, g) { assert forall|v: Vl| #[trigger] sat(g, v) implies exists|w: Vl| #[trigger] sat(g, w) && agree(v, w, g.len() as int) by { assert(agree(v, v, g.len() as int)); } }
pub proof fn step_trans(a: Seq<Node>, b: Seq<Node>, c: Seq<Node>) requires step(a, b), step(b, c) ensures step(a, c) {
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] by { assert(b[i] == a[i]); }
    assert forall|v: Vl| #[trigger] sat(a, v) implies exists|w: Vl| #[trigger] sat(c, w) && agree(v, w, a.len() as int) by {
        let w = choose|w: Vl| #[trigger] sat(b, w) && agree(v, w, a.len() as int); let u = choose|u: Vl| #[trigger] sat(c, u) && agree(w, u, b.len() as int); assert(sat(c, u));
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] v(i) == u(i) by { assert(w(i) == u(i)); assert(v(i) == w(i)); }
    }
}
/// adding nodes whose equations have a solution
pub proof fn step_new(g: Seq<Node>, h: Seq<Node>, f: spec_fn(Vl) -> Vl)
    requires good(g), g.len() <= h.len(), forall|i: int| 0 <= i < g.len() ==> #[trigger] h[i] == g[i], forall|i: int| g.len() <= i < h.len() ==> #[trigger] wt(h, i),
        forall|v: Vl, i: int| g.len() <= i < h.len() ==> #[trigger] eqn(h, f(v), i), forall|v: Vl| agree(v, #[trigger] f(v), g.len() as int)
    ensures step(g, h)
{
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] wt(h, i) by { if i < g.len() { assert(wt(g, i)); assert(h[i] == g[i]); let s = g[i].ins;
        assert forall|k: FheEdge| #[trigger] has(g, i, k) implies has(h, i, k) by { assert(h[src(s, k)] == g[src(s, k)]); } } }
    assert forall|v: Vl| #[trigger] sat(g, v) implies exists|w: Vl| #[trigger] sat(h, w) && agree(v, w, g.len() as int) by {
        let w = f(v); assert(agree(v, w, g.len() as int));
        assert forall|i: int| 0 <= i < h.len() implies #[trigger] eqn(h, w, i) by { if i < g.len() { assert(h[i] == g[i]); eqn_eq(g, h, v, w, i); assert(eqn(g, v, i)); } }
        assert(sat(h, w));
    }
}
/// one node with one operand
pub proof fn add1(g: Seq<Node>, op: FheOp, c: int) requires good(g), 0 <= c < g.len(), op matches FheOp::SampleExtract(k) ==> k == 0, op is SampleExtract || op is KeyswitchL1toL0 || op is CircuitBootstrap || op is SchemeSwitch, gty(g[c].op) == kty(op, FheEdge::Unary)
    ensures ({ let h = g.push(Node { op: op, ins: Seq::empty().push((FheEdge::Unary, c)) }); step(g, h) && forall|v: Vl| sat(h, v) ==> #[trigger] v(g.len() as int) == v(c) })
{
    let n = g.len() as int; let h = g.push(Node { op: op, ins: Seq::empty().push((FheEdge::Unary, c)) }); reveal_with_fuel(src, 2);
    let f = |v: Vl| { let w: Vl = |i: int| if i == n { v(c) } else { v(i) }; w }; assert(h[c] == g[c]); assert(src(h[n].ins, FheEdge::Unary) == c); step_new(g, h, f);
    assert forall|v: Vl| sat(h, v) implies #[trigger] v(n) == v(c) by { assert(eqn(h, v, n)); }
}
/// what a GGSW bit selects, times one or between constants: the node, then its constants
pub proof fn add_prod(g: Seq<Node>, c: int) requires good(g), 0 <= c < g.len(), gty(g[c].op) is L1GgswCiphertext
    ensures ({ let n = g.len() as int; let h = g.push(Node { op: FheOp::MultiplyGgswGlwe, ins: Seq::empty().push((FheEdge::Glwe, n + 1)).push((FheEdge::Ggsw, c)) }).push(Node { op: FheOp::OneGlwe1, ins: Seq::empty() });
        step(g, h) && forall|v: Vl| sat(h, v) ==> #[trigger] v(n) == v(c) })
{
    let n = g.len() as int; let s = Seq::empty().push((FheEdge::Glwe, n + 1)).push((FheEdge::Ggsw, c)); let h = g.push(Node { op: FheOp::MultiplyGgswGlwe, ins: s }).push(Node { op: FheOp::OneGlwe1, ins: Seq::empty() }); reveal_with_fuel(src, 3);
    assert(s.drop_last() =~= Seq::empty().push((FheEdge::Glwe, n + 1))); assert(src(s, FheEdge::Glwe) == n + 1); assert(src(s, FheEdge::Ggsw) == c); assert(h[c] == g[c]);
    let f = |v: Vl| { let w: Vl = |i: int| if i == n { v(c) } else if i == n + 1 { true } else { v(i) }; w }; step_new(g, h, f);
    assert forall|v: Vl| sat(h, v) implies #[trigger] v(n) == v(c) by { assert(eqn(h, v, n)); assert(eqn(h, v, n + 1)); }
}
pub proof fn add_glev(g: Seq<Node>, c: int) requires good(g), 0 <= c < g.len(), gty(g[c].op) is L1GgswCiphertext
    ensures ({ let n = g.len() as int; let h = g.push(Node { op: FheOp::GlevCMux, ins: Seq::empty().push((FheEdge::Low, n + 1)).push((FheEdge::High, n + 2)).push((FheEdge::Sel, c)) }).push(Node { op: FheOp::ZeroGlev1, ins: Seq::empty() }).push(Node { op: FheOp::OneGlev1, ins: Seq::empty() });
        step(g, h) && forall|v: Vl| sat(h, v) ==> #[trigger] v(n) == v(c) })
{
    let n = g.len() as int; let s1 = Seq::empty().push((FheEdge::Low, n + 1)); let s2 = s1.push((FheEdge::High, n + 2)); let s = s2.push((FheEdge::Sel, c));
    let h = g.push(Node { op: FheOp::GlevCMux, ins: s }).push(Node { op: FheOp::ZeroGlev1, ins: Seq::empty() }).push(Node { op: FheOp::OneGlev1, ins: Seq::empty() }); reveal_with_fuel(src, 4);
    assert(s.drop_last() =~= s2); assert(s2.drop_last() =~= s1); assert(src(s, FheEdge::Low) == n + 1); assert(src(s, FheEdge::High) == n + 2); assert(src(s, FheEdge::Sel) == c); assert(h[c] == g[c]);
    let f = |v: Vl| { let w: Vl = |i: int| if i == n { v(c) } else if i == n + 1 { false } else if i == n + 2 { true } else { v(i) }; w }; step_new(g, h, f);
    assert forall|v: Vl| sat(h, v) implies #[trigger] v(n) == v(c) by { assert(eqn(h, v, n)); assert(eqn(h, v, n + 1)); assert(eqn(h, v, n + 2)); }
}
/// one multiplexer
pub proof fn add_cmux(g: Seq<Node>, s: int, l: int, u: int) requires good(g), 0 <= s < g.len(), 0 <= l < g.len(), 0 <= u < g.len(), gty(g[s].op) is L1GgswCiphertext, gty(g[l].op) is L1GlweCiphertext, gty(g[u].op) is L1GlweCiphertext
    ensures ({ let n = g.len() as int; let h = g.push(Node { op: FheOp::CMux, ins: Seq::empty().push((FheEdge::Sel, s)).push((FheEdge::Low, l)).push((FheEdge::High, u)) });
        step(g, h) && forall|v: Vl| sat(h, v) ==> #[trigger] v(n) == (if v(s) { v(u) } else { v(l) }) })
{
    let n = g.len() as int; let s1 = Seq::empty().push((FheEdge::Sel, s)); let s2 = s1.push((FheEdge::Low, l)); let s3 = s2.push((FheEdge::High, u)); let h = g.push(Node { op: FheOp::CMux, ins: s3 }); reveal_with_fuel(src, 4);
    assert(s3.drop_last() =~= s2); assert(s2.drop_last() =~= s1); assert(src(s3, FheEdge::Low) == l); assert(src(s3, FheEdge::High) == u); assert(src(s3, FheEdge::Sel) == s); assert(h[s] == g[s] && h[l] == g[l] && h[u] == g[u]);
    let f = |v: Vl| { let w: Vl = |i: int| if i == n { if v(s) { v(u) } else { v(l) } } else { v(i) }; w }; step_new(g, h, f);
    assert forall|v: Vl| sat(h, v) implies #[trigger] v(n) == (if v(s) { v(u) } else { v(l) }) by { assert(eqn(h, v, n)); }
}
/// nodes of a type, and the bits they hold
pub open spec fn nodes(g: Seq<Node>, s: Seq<NodeIndex>, t: CiphertextType) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).i < g.len() && gty(g[s[k].i as int].op) == t }
pub open spec fn nb(s: Seq<NodeIndex>, v: Vl) -> spec_fn(int) -> bool { |k: int| v(s[k].i as int) }
pub open spec fn nbs(s: Seq<NodeIndex>, v: Vl) -> Seq<bool> { Seq::new(s.len(), nb(s, v)) }
pub proof fn nodes_step(g: Seq<Node>, h: Seq<Node>, s: Seq<NodeIndex>, t: CiphertextType) requires step(g, h), nodes(g, s, t) ensures nodes(h, s, t) { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).i < h.len() && gty(h[s[k].i as int].op) == t by { assert(h[s[k].i as int] == g[s[k].i as int]); } }
} // verus!
