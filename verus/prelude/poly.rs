verus! {
#[derive(Copy, Clone, PartialEq, Eq)] pub struct PolynomialDegree(pub usize);
/// dst!: a transparent wrapper of a coefficient slice
pub struct PolynomialRef<T> { pub data: [T] }
impl<T> PolynomialRef<T> {
    // dst! AsSlice / AsMutSlice
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.data@ { &self.data }
    pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).data@, final(self).data@ == final(r)@ { &mut self.data }
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: PolynomialRef::coeffs
        ensures ret@ == self.data@
//@end
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: PolynomialRef::coeffs_mut
        ensures ret@ == old(self).data@, final(self).data@ == final(ret)@
//@end
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: PolynomialRef::degree
        ensures ret.0 == self.data@.len()
//@end
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: PolynomialRef::len
        ensures ret == self.data@.len()
//@end
}
pub type TP = PolynomialRef<Torus<WORD>>;
pub open spec fn wsgn(odd: bool, x: WORD) -> WORD { if odd { wneg(x) } else { x } }
/// coefficient k (any integer) of p read as a function on the exponents with X^N = -1
pub open spec fn ext(p: Seq<Torus<WORD>>, k: int) -> WORD { let n = p.len() as int; let r = k % (2 * n); if r < n { p[r].0 } else { wneg(p[r - n].0) } }
pub proof fn wneg_neg(x: WORD) ensures wneg(wneg(x)) == x { }
pub assume_specification<T>[ <[T]>::rotate_left ](d: &mut [T], mid: usize) requires mid <= old(d)@.len() ensures final(d)@ == old(d)@.subrange(mid as int, old(d)@.len() as int) + old(d)@.subrange(0, mid as int);
pub assume_specification<T>[ <[T]>::rotate_right ](d: &mut [T], k: usize) requires k <= old(d)@.len() ensures final(d)@ == old(d)@.subrange(old(d)@.len() - k, old(d)@.len() as int) + old(d)@.subrange(0, old(d)@.len() - k);
pub open spec fn ispow2(n: int) -> bool { exists|m: nat| #[trigger] vstd::arithmetic::power2::pow2(m) == n }
pub assume_specification[ usize::is_power_of_two ](x: usize) -> (r: bool) ensures r == ispow2(x as int);
} // verus!
