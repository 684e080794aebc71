//@include ../prelude/base.rs
verus! {
/// the operators of std::ops have this shape; `post` says what the result must be
pub trait Bop<R> where Self: Sized { type Output; spec fn ok(self, rhs: R, r: Self::Output) -> bool; fn bop(self, rhs: R) -> (r: Self::Output) ensures self.ok(rhs, r); }
pub struct Z(pub u64);
pub struct G<T>(pub T);
pub struct W(pub u64);
// the fundamental operations: any functions of the operands, not commutative
pub uninterp spec fn fz(a: Z, b: Z) -> Z;
pub uninterp spec fn fg<T>(a: G<T>, b: G<T>) -> G<T>;
pub uninterp spec fn fw(a: Z, b: W) -> Z;
//@expand refify
} // verus!
fn main() {}
