//@include base.rs
//@generic S T
verus! {
pub type S = WORD;
/// num::traits::Wrapping{Add,Sub,Mul,Neg} on WORD (by-reference signatures).
pub trait WOps: Sized {
    spec fn v(&self) -> WORD;
    fn w_add(&self, o: &Self) -> (r: Self) ensures r.v() == wadd(self.v(), o.v());
    fn w_sub(&self, o: &Self) -> (r: Self) ensures r.v() == wsub(self.v(), o.v());
    fn w_neg(&self) -> (r: Self) ensures r.v() == wneg(self.v());
}
impl WOps for WORD {
    open spec fn v(&self) -> WORD { *self }
    fn w_add(&self, o: &WORD) -> WORD { (*self).wrapping_add(*o) }
    fn w_sub(&self, o: &WORD) -> WORD { (*self).wrapping_sub(*o) }
    fn w_neg(&self) -> WORD { 0WORD.wrapping_sub(*self) }
}
pub trait WMul { spec fn mv(&self) -> WORD; fn w_mul(&self, o: &WORD) -> (r: WORD) ensures r == wmul(self.mv(), *o); }
impl WMul for WORD { open spec fn mv(&self) -> WORD { *self } fn w_mul(&self, o: &WORD) -> WORD { (*self).wrapping_mul(*o) } }
#[derive(Copy, PartialEq, Eq)]
pub struct Torus<S>(pub S);
// derive(Clone) of a Copy type
impl<S: Copy> Clone for Torus<S> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
// Deref<Target = S> of Torus: the multiplication reaches the word's.
impl WMul for Torus<WORD> { open spec fn mv(&self) -> WORD { self.0 } fn w_mul(&self, o: &WORD) -> WORD { self.0.wrapping_mul(*o) } }
impl Torus<WORD> {
    // From<S>: `Self(value)`
//@fn sunscreen_tfhe/src/math/torus.rs :: <From for Torus>::from
//@rename from
//@ret r
        ensures r.0 == value
//@end
//@fn sunscreen_tfhe/src/math/torus.rs :: Torus::inner
//@ret r
        ensures r == self.0
//@end
//@fn sunscreen_tfhe/src/math/torus.rs :: <Zero for Torus>::zero
//@sub "S::from(0)" => "0"
//@ret r
        ensures r.0 == 0
//@end
}
impl core::ops::Add<&Torus<WORD>> for &Torus<WORD> { type Output = Torus<WORD>;
//@fn sunscreen_tfhe/src/math/torus.rs :: <Add for &Torus<S>>::add
//@byref
//@sub "Self::Output::from" => "Torus::from"
//@end
}
impl vstd::std_specs::ops::AddSpecImpl<&Torus<WORD>> for &Torus<WORD> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &Torus<WORD>) -> bool { true }
    open spec fn add_spec(self, rhs: &Torus<WORD>) -> Torus<WORD> { Torus(wadd(self.0, rhs.0)) }
}
impl core::ops::Add<Torus<WORD>> for &Torus<WORD> { type Output = Torus<WORD>;
    fn add(self, rhs: Torus<WORD>) -> Torus<WORD> { Torus::from(self.0.w_add(&rhs.0)) } // refify_binary_op
}
impl vstd::std_specs::ops::AddSpecImpl<Torus<WORD>> for &Torus<WORD> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Torus<WORD>) -> bool { true }
    open spec fn add_spec(self, rhs: Torus<WORD>) -> Torus<WORD> { Torus(wadd(self.0, rhs.0)) }
}
impl core::ops::Add<&Torus<WORD>> for Torus<WORD> { type Output = Torus<WORD>;
    fn add(self, rhs: &Torus<WORD>) -> Torus<WORD> { Torus::from(self.0.w_add(&rhs.0)) } // refify_binary_op
}
impl vstd::std_specs::ops::AddSpecImpl<&Torus<WORD>> for Torus<WORD> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &Torus<WORD>) -> bool { true }
    open spec fn add_spec(self, rhs: &Torus<WORD>) -> Torus<WORD> { Torus(wadd(self.0, rhs.0)) }
}
impl core::ops::Add<Torus<WORD>> for Torus<WORD> { type Output = Torus<WORD>;
    fn add(self, rhs: Torus<WORD>) -> Torus<WORD> { Torus::from(self.0.w_add(&rhs.0)) } // refify_binary_op
}
impl vstd::std_specs::ops::AddSpecImpl<Torus<WORD>> for Torus<WORD> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Torus<WORD>) -> bool { true }
    open spec fn add_spec(self, rhs: Torus<WORD>) -> Torus<WORD> { Torus(wadd(self.0, rhs.0)) }
}
impl core::ops::Sub<&Torus<WORD>> for &Torus<WORD> { type Output = Torus<WORD>;
//@fn sunscreen_tfhe/src/math/torus.rs :: <Sub for &Torus<S>>::sub
//@byref
//@sub "Self::Output::from" => "Torus::from"
//@end
}
impl vstd::std_specs::ops::SubSpecImpl<&Torus<WORD>> for &Torus<WORD> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &Torus<WORD>) -> bool { true }
    open spec fn sub_spec(self, rhs: &Torus<WORD>) -> Torus<WORD> { Torus(wsub(self.0, rhs.0)) }
}
impl core::ops::Sub<Torus<WORD>> for &Torus<WORD> { type Output = Torus<WORD>;
    fn sub(self, rhs: Torus<WORD>) -> Torus<WORD> { Torus::from(self.0.w_sub(&rhs.0)) } // refify_binary_op
}
impl vstd::std_specs::ops::SubSpecImpl<Torus<WORD>> for &Torus<WORD> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Torus<WORD>) -> bool { true }
    open spec fn sub_spec(self, rhs: Torus<WORD>) -> Torus<WORD> { Torus(wsub(self.0, rhs.0)) }
}
impl core::ops::Sub<&Torus<WORD>> for Torus<WORD> { type Output = Torus<WORD>;
    fn sub(self, rhs: &Torus<WORD>) -> Torus<WORD> { Torus::from(self.0.w_sub(&rhs.0)) } // refify_binary_op
}
impl vstd::std_specs::ops::SubSpecImpl<&Torus<WORD>> for Torus<WORD> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &Torus<WORD>) -> bool { true }
    open spec fn sub_spec(self, rhs: &Torus<WORD>) -> Torus<WORD> { Torus(wsub(self.0, rhs.0)) }
}
impl core::ops::Sub<Torus<WORD>> for Torus<WORD> { type Output = Torus<WORD>;
    fn sub(self, rhs: Torus<WORD>) -> Torus<WORD> { Torus::from(self.0.w_sub(&rhs.0)) } // refify_binary_op
}
impl vstd::std_specs::ops::SubSpecImpl<Torus<WORD>> for Torus<WORD> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Torus<WORD>) -> bool { true }
    open spec fn sub_spec(self, rhs: Torus<WORD>) -> Torus<WORD> { Torus(wsub(self.0, rhs.0)) }
}
impl core::ops::Mul<&WORD> for &Torus<WORD> { type Output = Torus<WORD>;
//@fn sunscreen_tfhe/src/math/torus.rs :: <Mul for &Torus<S>>::mul
//@byref
//@sub "Self::Output::from" => "Torus::from"
//@end
}
impl vstd::std_specs::ops::MulSpecImpl<&WORD> for &Torus<WORD> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &WORD) -> bool { true }
    open spec fn mul_spec(self, rhs: &WORD) -> Torus<WORD> { Torus(wmul(self.0, *rhs)) }
}
impl core::ops::Mul<WORD> for &Torus<WORD> { type Output = Torus<WORD>;
    fn mul(self, rhs: WORD) -> Torus<WORD> { Torus::from(self.0.w_mul(&rhs)) } // refify_binary_op
}
impl vstd::std_specs::ops::MulSpecImpl<WORD> for &Torus<WORD> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: WORD) -> bool { true }
    open spec fn mul_spec(self, rhs: WORD) -> Torus<WORD> { Torus(wmul(self.0, rhs)) }
}
impl core::ops::Mul<&WORD> for Torus<WORD> { type Output = Torus<WORD>;
    fn mul(self, rhs: &WORD) -> Torus<WORD> { Torus::from(self.0.w_mul(rhs)) } // refify_binary_op
}
impl vstd::std_specs::ops::MulSpecImpl<&WORD> for Torus<WORD> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &WORD) -> bool { true }
    open spec fn mul_spec(self, rhs: &WORD) -> Torus<WORD> { Torus(wmul(self.0, *rhs)) }
}
impl core::ops::Mul<WORD> for Torus<WORD> { type Output = Torus<WORD>;
    fn mul(self, rhs: WORD) -> Torus<WORD> { Torus::from(self.0.w_mul(&rhs)) } // refify_binary_op
}
impl vstd::std_specs::ops::MulSpecImpl<WORD> for Torus<WORD> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: WORD) -> bool { true }
    open spec fn mul_spec(self, rhs: WORD) -> Torus<WORD> { Torus(wmul(self.0, rhs)) }
}
impl core::ops::Neg for Torus<WORD> { type Output = Torus<WORD>;
//@fn sunscreen_tfhe/src/math/torus.rs :: <Neg for Torus>::neg
//@byref
//@sub "Self::Output::from" => "Torus::from"
//@end
}
impl vstd::std_specs::ops::NegSpecImpl for Torus<WORD> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Torus<WORD> { Torus(wneg(self.0)) }
}
impl core::ops::AddAssign<&Torus<WORD>> for Torus<WORD> {
//@fn sunscreen_tfhe/src/math/torus.rs :: <AddAssign<&Self> for Torus<S>>::add_assign
//@end
}
impl vstd::std_specs::ops::AddAssignSpecImpl<&Torus<WORD>> for Torus<WORD> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: &Torus<WORD>) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: &Torus<WORD>) -> &Torus<WORD> { &Torus(wadd(self.0, rhs.0)) }
}
impl core::ops::AddAssign<Torus<WORD>> for Torus<WORD> {
//@fn sunscreen_tfhe/src/math/torus.rs :: <AddAssign<Self> for Torus<S>>::add_assign
//@end
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Torus<WORD>> for Torus<WORD> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: Torus<WORD>) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: Torus<WORD>) -> &Torus<WORD> { &Torus(wadd(self.0, rhs.0)) }
}
impl core::ops::SubAssign<&Torus<WORD>> for Torus<WORD> {
//@fn sunscreen_tfhe/src/math/torus.rs :: <SubAssign<&Self> for Torus<S>>::sub_assign
//@end
}
impl vstd::std_specs::ops::SubAssignSpecImpl<&Torus<WORD>> for Torus<WORD> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: &Torus<WORD>) -> bool { true }
    open spec fn sub_assign_spec(&self, rhs: &Torus<WORD>) -> &Torus<WORD> { &Torus(wsub(self.0, rhs.0)) }
}
impl core::ops::SubAssign<Torus<WORD>> for Torus<WORD> {
//@fn sunscreen_tfhe/src/math/torus.rs :: <SubAssign<Self> for Torus<S>>::sub_assign
//@end
}
impl vstd::std_specs::ops::SubAssignSpecImpl<Torus<WORD>> for Torus<WORD> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: Torus<WORD>) -> bool { true }
    open spec fn sub_assign_spec(&self, rhs: Torus<WORD>) -> &Torus<WORD> { &Torus(wsub(self.0, rhs.0)) }
}
pub trait WOpsT: Sized { spec fn tv(&self) -> WORD;
    fn w_add(&self, o: &Self) -> (r: Self) ensures r.tv() == wadd(self.tv(), o.tv());
    fn w_sub(&self, o: &Self) -> (r: Self) ensures r.tv() == wsub(self.tv(), o.tv());
    fn w_neg(&self) -> (r: Self) ensures r.tv() == wneg(self.tv());
}
impl WOpsT for Torus<WORD> {
    open spec fn tv(&self) -> WORD { self.0 }
//@fn sunscreen_tfhe/src/math/torus.rs :: <WrappingAdd for Torus>::wrapping_add
//@rename w_add
//@end
//@fn sunscreen_tfhe/src/math/torus.rs :: <WrappingSub for Torus>::wrapping_sub
//@rename w_sub
//@end
//@fn sunscreen_tfhe/src/math/torus.rs :: <WrappingNeg for Torus>::wrapping_neg
//@rename w_neg
//@byref
//@sub "Self::from" => "Torus::from"
//@end
}
/// `num::traits::WrappingAdd::wrapping_add(x, y)` written as a path in the source.
pub mod num { pub mod traits {
    pub mod WrappingAdd { use super::super::super::*; verus! { pub fn wrapping_add(c: &Torus<WORD>, a: &Torus<WORD>) -> (r: Torus<WORD>) ensures r.0 == wadd(c.0, a.0) { c.w_add(a) } } }
    pub mod WrappingSub { use super::super::super::*; verus! { pub fn wrapping_sub(c: &Torus<WORD>, a: &Torus<WORD>) -> (r: Torus<WORD>) ensures r.0 == wsub(c.0, a.0) { c.w_sub(a) } } }
    pub mod WrappingNeg { use super::super::super::*; verus! { pub fn wrapping_neg(c: &Torus<WORD>) -> (r: Torus<WORD>) ensures r.0 == wneg(c.0) { c.w_neg() } } }
} }
} // verus!
