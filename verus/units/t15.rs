//@include ../prelude/base.rs
//@include ../prelude/triidx.rs
verus! {
pub struct TriangularPairs<T> { pub items: Vec<T>, pub outer_idx: usize, pub inner_idx: usize }
/// the position of the pair (a, b) in the sequence TriangularPairs yields, and its successor
pub open spec fn succ(o: int, i: int, n: int) -> (int, int) { if i + 1 < n { (o, i + 1) } else { (o + 1, o + 1) } }
proof fn succ_lin(o: int, i: int, n: int) requires 0 <= o <= i < n ensures ({ let s = succ(o, i, n); lin(s.0, s.1, n) == lin(o, i, n) + 1 && s.0 <= s.1 && (s.0 < n ==> s.1 < n) && (s.0 >= n ==> 2 * lin(s.0, s.1, n) == n * (n + 1)) }) { rows_closed(n, n); }
impl<T: Copy> TriangularPairs<T> {
    pub open spec fn wf(&self) -> bool { self.items@.len() < usize::MAX && self.outer_idx <= self.inner_idx && (self.outer_idx < self.items@.len() ==> self.inner_idx < self.items@.len()) && self.outer_idx <= self.items@.len() }
    /// how many pairs have been yielded
    pub open spec fn pos(&self) -> int { lin(self.outer_idx as int, self.inner_idx as int, self.items@.len() as int) }
//@fn sunscreen_tfhe/src/iteration/triangular_pairs.rs :: <Iterator for TriangularPairs>::next
//@sig pub fn next(&mut self) -> (ret: Option<(T, T)>)
//@sub ".clone()" => ""
    requires old(self).wf()
    ensures final(self).wf(), final(self).items@ == old(self).items@,
        old(self).outer_idx >= old(self).items@.len() <==> ret.is_none(), ret.is_none() ==> final(self).pos() == old(self).pos(),
        ret.is_some() ==> ret.unwrap() == (old(self).items@[old(self).outer_idx as int], old(self).items@[old(self).inner_idx as int]) && final(self).pos() == old(self).pos() + 1
            && (final(self).outer_idx >= final(self).items@.len() ==> 2 * final(self).pos() == final(self).items@.len() * (final(self).items@.len() + 1))
//@at start
    proof { if self.outer_idx < self.items@.len() { succ_lin(self.outer_idx as int, self.inner_idx as int, self.items@.len() as int); } }
//@end
}
/// the k-th pair yielded is the pair whose linear index is k: the constructor starts at index 0
pub fn start<T: Copy>(items: Vec<T>) -> (r: TriangularPairs<T>) requires items@.len() < usize::MAX ensures r.wf(), r.pos() == 0 { TriangularPairs { items: items, outer_idx: 0, inner_idx: 0 } }
} // verus!
fn main() {}
