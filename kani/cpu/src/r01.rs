//! FHE computation graphs, evaluated node by node from their documentation: every node has a ciphertext type and a plaintext bit
//! (64 assignments at a time), and every operation insists on the types of its operands.
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{CiphertextType as T, FheCircuit, FheEdge, FheOp, L1GlevCiphertext, L1GlweCiphertext, circuits::mul::{append_int_multiply, append_uint_multiply}, insert_ciphertext_conversion, prune, test_utils::get_encryption_128};
use petgraph::{Direction, stable_graph::{NodeIndex, StableGraph}, visit::EdgeRef};
use std::{collections::HashMap, sync::Arc};
type V = (T, u64);
pub fn eval(g: &StableGraph<FheOp, FheEdge>, input: &dyn Fn(NodeIndex) -> u64) -> HashMap<NodeIndex, V> {
    let mut v: HashMap<NodeIndex, V> = HashMap::new();
    for i in petgraph::algo::toposort(g, None).expect("the graph has a cycle") {
        let get = |p: &dyn Fn(&FheEdge) -> bool, t: T| -> u64 {
            let mut it = g.edges_directed(i, Direction::Incoming).filter(|e| p(e.weight())); let e = it.next().expect("an operand is missing"); assert!(it.next().is_none(), "an operand is connected twice");
            let (u, w) = v[&e.source()]; assert!(u == t, "{:?} is given a {u:?} where it needs a {t:?}", g[i]); w };
        let un = |t: T| get(&|e| matches!(e, FheEdge::Unary), t); let cm = |t: T| { let s = get(&|e| matches!(e, FheEdge::Sel), T::L1GgswCiphertext); (s & get(&|e| matches!(e, FheEdge::High), t)) | (!s & get(&|e| matches!(e, FheEdge::Low), t)) };
        let x = match &g[i] {
            FheOp::InputLwe0(_) => (T::L0LweCiphertext, input(i)), FheOp::InputLwe1(_) => (T::L1LweCiphertext, input(i)), FheOp::InputGlwe1(_) => (T::L1GlweCiphertext, input(i)),
            FheOp::InputGgsw1(_) => (T::L1GgswCiphertext, input(i)), FheOp::InputGlev1(_) => (T::L1GlevCiphertext, input(i)),
            FheOp::SampleExtract(k) => { assert!(*k == 0); (T::L1LweCiphertext, un(T::L1GlweCiphertext)) }
            FheOp::KeyswitchL1toL0 => (T::L0LweCiphertext, un(T::L1LweCiphertext)), FheOp::CircuitBootstrap => (T::L1GgswCiphertext, un(T::L0LweCiphertext)), FheOp::SchemeSwitch => (T::L1GgswCiphertext, un(T::L1GlevCiphertext)),
            FheOp::CMux => (T::L1GlweCiphertext, cm(T::L1GlweCiphertext)), FheOp::GlevCMux => (T::L1GlevCiphertext, cm(T::L1GlevCiphertext)),
            FheOp::MultiplyGgswGlwe => (T::L1GlweCiphertext, get(&|e| matches!(e, FheEdge::Glwe), T::L1GlweCiphertext) & get(&|e| matches!(e, FheEdge::Ggsw), T::L1GgswCiphertext)),
            FheOp::ZeroLwe0 => (T::L0LweCiphertext, 0), FheOp::OneLwe0 => (T::L0LweCiphertext, !0), FheOp::ZeroGlwe1 => (T::L1GlweCiphertext, 0), FheOp::OneGlwe1 => (T::L1GlweCiphertext, !0),
            FheOp::ZeroGgsw1 => (T::L1GgswCiphertext, 0), FheOp::OneGgsw1 => (T::L1GgswCiphertext, !0), FheOp::ZeroGlev1 => (T::L1GlevCiphertext, 0), FheOp::OneGlev1 => (T::L1GlevCiphertext, !0),
            o => panic!("{o:?} has no place here"),
        };
        v.insert(i, x);
    }
    v
}
fn slice(xs: &[u128], n: usize) -> Vec<u64> { (0..n).map(|j| xs.iter().enumerate().fold(0u64, |a, (l, x)| a | (((*x >> j) as u64 & 1) << l))).collect() }
fn unslice(ws: &[u64], l: usize) -> u128 { ws.iter().enumerate().fold(0u128, |a, (j, w)| a | (((*w >> l) as u128 & 1) << j)) }
fn mask(n: usize) -> u128 { if n >= 128 { !0 } else { (1 << n) - 1 } }
fn numbers(n: usize) -> Vec<u128> {
    let m = mask(n); let top = 1u128 << (n - 1); let mut v = vec![0, 1, m, top, top - 1, top | 1, m ^ 1];
    while v.len() < 64 { let a = nd::any_u64() as u128 | (nd::any_u64() as u128) << 64; let k = nd::any_u8() as usize; v.push(match k % 4 { 0 => a & m, 1 => a & m & (1u128 << (k % n)).wrapping_sub(1), 2 => m & !(1u128 << (k % n)), _ => m & a & (a >> 3) }); }
    let r = nd::any_u8() as usize % 64; v.rotate_left(r); v
}
thread_local! { static GGSW: Arc<AtomicRefCell<parasol_runtime::L1GgswCiphertext>> = Arc::new(AtomicRefCell::new(get_encryption_128().allocate_ggsw_l1())); }
fn inputs(g: &mut FheCircuit, n: usize) -> Vec<NodeIndex> { (0..n).map(|_| g.add_node(FheOp::InputGgsw1(GGSW.with(|c| c.clone())))).collect() }
/// the words of `outs` for the given words of `ins`; every output must have type `t`
fn run(g: &StableGraph<FheOp, FheEdge>, ins: &[(NodeIndex, u64)], outs: &[NodeIndex], t: T) -> Vec<u64> {
    let m: HashMap<NodeIndex, u64> = ins.iter().copied().collect(); let v = eval(g, &|i| m[&i]);
    outs.iter().map(|o| { let (u, w) = v[o]; assert!(u == t, "a result is a {u:?}, not a {t:?}"); w }).collect()
}
fn widths() -> (usize, usize) {
    let (a, b) = (nd::any_u8() as usize, nd::any_u8() as usize);
    match nd::any_u8() % 16 { 0 => (16, 16), 1 => (17 + a % 4, 1 + b % 9), 2 => (1 + b % 9, 17 + a % 4), 3 => (17, 17), 4 => (32, 32), 5 => (9, 8), 6 => (8, 9), 7 => (8, 8), 8 => (18, 18), 9 => (64, 64), _ => (1 + a % 7, 1 + b % 7) }
}
fn product(n: usize, m: usize, signed: bool, glev: bool) {
    let mut g = FheCircuit::new(); let (x, y) = (inputs(&mut g, n), inputs(&mut g, m));
    let t = if glev { T::L1GlevCiphertext } else { T::L1GlweCiphertext };
    let (lo, hi) = match (signed, glev) { (false, false) => append_uint_multiply::<L1GlweCiphertext>(&mut g, &x, &y), (false, true) => append_uint_multiply::<L1GlevCiphertext>(&mut g, &x, &y),
        (true, false) => append_int_multiply::<L1GlweCiphertext>(&mut g, &x, &y), (true, true) => append_int_multiply::<L1GlevCiphertext>(&mut g, &x, &y) };
    assert!(lo.len() == n && hi.len() == m, "a product of {n} x {m} bits has {} + {} bits", lo.len(), hi.len());
    let (a, b) = (numbers(n), numbers(m)); let ins: Vec<_> = x.iter().copied().zip(slice(&a, n)).chain(y.iter().copied().zip(slice(&b, m))).collect();
    let all: Vec<_> = lo.iter().chain(hi.iter()).copied().collect(); let o = run(&g, &ins, &all, t);
    let sx = |v: u128, k: usize| if signed && v >> (k - 1) & 1 == 1 { v | !mask(k) } else { v };
    for l in 0..64 { let want = sx(a[l], n).wrapping_mul(sx(b[l], m)) & mask(n + m); assert!(unslice(&o, l) == want, "{n} x {m} bits, signed {signed}: {:#x} * {:#x} gave {:#x}, not {want:#x}", a[l], b[l], unslice(&o, l)); }
    // the low half alone, pruned, is what the processor and the fluent API run
    let (p, r) = prune(&g.graph, &lo); let keep: Vec<_> = ins.iter().filter(|(i, _)| r.contains_key(i)).map(|(i, w)| (r[i], *w)).collect(); let outs: Vec<_> = lo.iter().map(|i| r[i]).collect();
    assert!(run(&p, &keep, &outs, t) == o[..n], "pruning a {n} x {m} bit product changed it");
}
nd::harnesses! {
  fn r01_unsigned() { let (n, m) = widths(); let glev = nd::any_u8() % 3 == 0; product(n, m, false, glev); }
  fn r01_signed() { let (n, m) = widths(); let glev = nd::any_u8() % 3 == 0; product(n, m, true, glev); }
  fn r01_listed_widths() {
    for (n, m, signed, glev) in [(17, 5, false, false), (4, 24, false, true), (18, 9, true, false), (17, 17, false, true), (17, 17, true, true), (33, 33, false, false), (32, 32, true, false), (32, 32, false, true), (20, 18, false, false), (17, 16, false, false)] { product(n, m, signed, glev); }
  }
  fn r01_conversion() {
    let e = get_encryption_128(); let ts = [T::L0LweCiphertext, T::L1LweCiphertext, T::L1GlweCiphertext, T::L1GgswCiphertext, T::L1GlevCiphertext];
    for a in ts { for b in ts { let w = nd::any_u64(); let mut g = FheCircuit::new();
        let i = match a { T::L0LweCiphertext => g.add_node(FheOp::InputLwe0(Arc::new(AtomicRefCell::new(e.allocate_lwe_l0())))), T::L1LweCiphertext => g.add_node(FheOp::InputLwe1(Arc::new(AtomicRefCell::new(e.allocate_lwe_l1())))),
            T::L1GlweCiphertext => g.add_node(FheOp::InputGlwe1(Arc::new(AtomicRefCell::new(e.allocate_glwe_l1())))), T::L1GgswCiphertext => inputs(&mut g, 1)[0], T::L1GlevCiphertext => g.add_node(FheOp::InputGlev1(Arc::new(AtomicRefCell::new(e.allocate_glev_l1())))) };
        let o = insert_ciphertext_conversion(&mut g, i, a, b); assert!(run(&g, &[(i, w)], &[o], b) == [w], "converting {a:?} to {b:?} changes the value");
    } }
  }
  fn r01_prune() {
    // a random graph of labelled nodes and edges: what is kept is exactly what the named nodes need, unchanged
    let n = 1 + nd::any_u8() as usize % 24; let mut g: StableGraph<usize, u8> = StableGraph::new(); let ids: Vec<_> = (0..n).map(|i| g.add_node(i)).collect();
    for j in 1..n { for _ in 0..nd::any_u8() % 4 { let i = nd::any_u8() as usize % j; g.add_edge(ids[i], ids[j], nd::any_u8()); } }
    let gone = nd::any_u8() as usize % n; if n > 1 && nd::any_bool() { g.remove_node(ids[gone]); } let live: Vec<_> = g.node_indices().collect();
    let want: Vec<_> = (0..1 + nd::any_u8() % 3).map(|_| live[nd::any_u8() as usize % live.len()]).collect();
    let mut need = std::collections::HashSet::new(); let mut q = want.clone(); while let Some(x) = q.pop() { if need.insert(x) { q.extend(g.neighbors_directed(x, Direction::Incoming)); } }
    let (p, r) = prune(&g, &want); assert!(r.len() == need.len() && p.node_count() == need.len() && need.iter().all(|x| r.contains_key(x)), "what is kept is not what is needed");
    let mut e0: Vec<_> = g.edge_indices().filter_map(|e| { let (a, b) = g.edge_endpoints(e).unwrap(); need.contains(&b).then(|| (g[a], g[b], g[e])) }).collect(); let mut e1: Vec<_> = p.edge_indices().map(|e| { let (a, b) = p.edge_endpoints(e).unwrap(); (p[a], p[b], p[e]) }).collect();
    e0.sort(); e1.sort(); assert!(e0 == e1, "the edges kept are not the ones between kept nodes"); for x in &need { assert!(p[r[x]] == g[*x], "a node was renamed to another one"); }
  }
}
