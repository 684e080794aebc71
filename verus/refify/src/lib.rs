//! Expanded on every run (rustc -Zunpretty=expanded): what refify_binary_op generates for two carriers.
use sunscreen_math_macros::refify_binary_op;
pub trait Bop<R> { type Output; fn bop(self, rhs: R) -> Self::Output; }
pub struct Z(pub u64);
pub struct G<T>(pub T);
pub struct W(pub u64);
#[refify_binary_op]
impl Bop<&Z> for &Z { type Output = Z; fn bop(self, rhs: &Z) -> Self::Output { Z(self.0.wrapping_sub(rhs.0)) } }
#[refify_binary_op]
impl<T> Bop<&G<T>> for &G<T> where T: Copy { type Output = G<T>; fn bop(self, rhs: &G<T>) -> Self::Output { let _ = rhs; G(self.0) } }
#[refify_binary_op]
impl Bop<&W> for &Z { type Output = Z; fn bop(self, rhs: &W) -> Self::Output { Z(self.0.wrapping_sub(rhs.0)) } }
