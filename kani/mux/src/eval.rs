//! Evaluates a circuit gate by gate from its documentation: 64 input assignments at a time, one per bit of the words.
use mux_circuits::*;
use petgraph::{Direction, visit::EdgeRef, stable_graph::NodeIndex};
use std::collections::HashMap;
pub fn eval(c: &MuxCircuit, inputs: &[u64]) -> Vec<u64> {
    let n_in = c.graph.node_weights().filter(|x| matches!(x, MuxOp::Variable(_))).count();
    assert!(n_in == inputs.len(), "the circuit has {n_in} inputs, not {}", inputs.len());
    let order = petgraph::algo::toposort(&c.graph, None).expect("the circuit has a cycle");
    let mut v: HashMap<NodeIndex, u64> = HashMap::new(); let mut outs: Vec<(u32, u64)> = vec![]; let mut seen = vec![false; n_in];
    for i in order {
        let one = |k: MuxEdgeInfo| { let mut it = c.graph.edges_directed(i, Direction::Incoming).filter(|e| *e.weight() == k); let e = it.next().expect("a missing wire"); assert!(it.next().is_none(), "two wires for one input"); v[&e.source()] };
        let x = match c.graph[i] {
            MuxOp::Zero => 0, MuxOp::One => !0,
            MuxOp::Variable(k) => { assert!(!seen[k as usize], "input {k} appears twice"); seen[k as usize] = true; inputs[k as usize] }
            MuxOp::Output(k) => { let x = one(MuxEdgeInfo::Output); outs.push((k, x)); x }
            MuxOp::Mux => { let s = one(MuxEdgeInfo::Select); (s & one(MuxEdgeInfo::High)) | (!s & one(MuxEdgeInfo::Low)) }
        };
        v.insert(i, x);
    }
    for (k, n) in c.inputs.iter().enumerate() { assert!(c.graph[*n] == MuxOp::Variable(k as u32), "inputs[{k}]"); }
    outs.sort(); for (k, (o, _)) in outs.iter().enumerate() { assert!(*o == k as u32, "outputs are numbered {outs:?}"); }
    outs.into_iter().map(|x| x.1).collect()
}
/// the words of 64 assignments: bit l of word j is bit j of number l
pub fn slice(xs: &[u128], n: usize) -> Vec<u64> { (0..n).map(|j| xs.iter().enumerate().fold(0u64, |a, (l, x)| a | (((*x >> j) as u64 & 1) << l))).collect() }
pub fn unslice(ws: &[u64], l: usize) -> u128 { ws.iter().enumerate().fold(0u128, |a, (j, w)| a | (((*w >> l) as u128 & 1) << j)) }
pub fn mask(n: usize) -> u128 { if n >= 128 { !0 } else { (1 << n) - 1 } }
/// 64 numbers of n bits: edges, then random
pub fn numbers(n: usize) -> Vec<u128> {
    let m = mask(n); let top = 1u128 << (n - 1);
    let mut v = vec![0, 1, m, top, top - 1, top | 1, m ^ 1, 0x5555_5555_5555_5555_5555_5555_5555_5555 & m];
    while v.len() < 64 { let a = nd::any_u64() as u128 | (nd::any_u64() as u128) << 64; let k = nd::any_u8(); v.push(match k % 4 { 0 => a & m, 1 => a & m & (1u128 << (k as usize % n)).wrapping_sub(1), 2 => !(a & (1u128 << (k as usize % n)).wrapping_sub(1)) & m, _ => a & m & ((a >> 3) | 1) }); }
    // pair edges with everything over the draws
    let r = nd::any_u8() as usize % 64; v.rotate_left(r); v
}
pub fn interleave(a: &[u64], b: &[u64]) -> Vec<u64> { let m = a.len().min(b.len()); let mut v = vec![]; for i in 0..m { v.push(a[i]); v.push(b[i]); } v.extend_from_slice(&a[m..]); v.extend_from_slice(&b[m..]); v }
pub fn signed(x: u128, n: usize) -> i128 { if x >> (n - 1) & 1 == 1 { (x | !mask(n)) as i128 } else { x as i128 } }
