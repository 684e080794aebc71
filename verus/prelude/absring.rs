verus! {
// ---- the coefficient ring: any type with commutative ring operations -------------------------------
#[verifier::external_body] pub struct Rg { x: u64 }
pub uninterp spec fn radd(a: Rg, b: Rg) -> Rg;
pub uninterp spec fn rmul(a: Rg, b: Rg) -> Rg;
pub uninterp spec fn rneg(a: Rg) -> Rg;
pub uninterp spec fn r0() -> Rg;
pub uninterp spec fn r1() -> Rg;
pub open spec fn rsub(a: Rg, b: Rg) -> Rg { radd(a, rneg(b)) }
pub axiom fn ax_add(a: Rg, b: Rg, c: Rg) ensures radd(a, b) == radd(b, a), radd(radd(a, b), c) == radd(a, radd(b, c)), radd(a, r0()) == a, radd(a, rneg(a)) == r0();
pub axiom fn ax_mul(a: Rg, b: Rg, c: Rg) ensures rmul(a, b) == rmul(b, a), rmul(rmul(a, b), c) == rmul(a, rmul(b, c)), rmul(a, r1()) == a, rmul(a, radd(b, c)) == radd(rmul(a, b), rmul(a, c));
pub proof fn mul_zero(a: Rg) ensures rmul(a, r0()) == r0(), rmul(r0(), a) == r0()
{ let z = rmul(a, r0()); ax_add(r0(), r0(), r0()); ax_mul(a, r0(), r0()); ax_add(z, z, rneg(z)); ax_add(z, r0(), r0()); }
pub proof fn sub_add(a: Rg, b: Rg) ensures radd(rsub(a, b), b) == a, radd(b, rsub(a, b)) == a { ax_add(a, rneg(b), b); ax_add(b, b, b); ax_add(rneg(b), b, b); ax_add(a, r0(), r0()); ax_add(rsub(a, b), b, b); }
pub proof fn swap(a: Rg, b: Rg, c: Rg, d: Rg) ensures radd(radd(a, b), radd(c, d)) == radd(radd(a, c), radd(b, d)) { ax_add(a, b, radd(c, d)); ax_add(b, c, d); ax_add(b, c, d); ax_add(c, b, d); ax_add(a, c, radd(b, d)); }
impl Clone for Rg { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for Rg { #[verifier::external_body] fn eq(&self, o: &Rg) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Rg { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Rg) -> bool { *self == *o } }
impl Rg {
    #[verifier::external_body] pub fn zero() -> (r: Rg) ensures r == r0() { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: Rg) ensures r == r1() { unimplemented!() }
    #[verifier::external_body] pub fn vartime_is_zero(&self) -> (r: bool) ensures r == (*self == r0()) { unimplemented!() }
    #[verifier::external_body] pub fn neg_(self) -> (r: Rg) ensures r == rneg(self) { unimplemented!() }
}
impl core::ops::Add<Rg> for Rg { type Output = Rg; #[verifier::external_body] fn add(self, o: Rg) -> (r: Rg) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Rg> for Rg { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Rg) -> bool { true } open spec fn add_spec(self, o: Rg) -> Rg { radd(self, o) } }
impl core::ops::Add<&Rg> for Rg { type Output = Rg; #[verifier::external_body] fn add(self, o: &Rg) -> (r: Rg) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&Rg> for Rg { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &Rg) -> bool { true } open spec fn add_spec(self, o: &Rg) -> Rg { radd(self, *o) } }
impl core::ops::Sub<Rg> for Rg { type Output = Rg; #[verifier::external_body] fn sub(self, o: Rg) -> (r: Rg) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Rg> for Rg { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Rg) -> bool { true } open spec fn sub_spec(self, o: Rg) -> Rg { rsub(self, o) } }
impl core::ops::Sub<&Rg> for Rg { type Output = Rg; #[verifier::external_body] fn sub(self, o: &Rg) -> (r: Rg) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&Rg> for Rg { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &Rg) -> bool { true } open spec fn sub_spec(self, o: &Rg) -> Rg { rsub(self, *o) } }
impl core::ops::Mul<Rg> for Rg { type Output = Rg; #[verifier::external_body] fn mul(self, o: Rg) -> (r: Rg) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Rg> for Rg { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Rg) -> bool { true } open spec fn mul_spec(self, o: Rg) -> Rg { rmul(self, o) } }
impl core::ops::Mul<&Rg> for Rg { type Output = Rg; #[verifier::external_body] fn mul(self, o: &Rg) -> (r: Rg) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&Rg> for Rg { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &Rg) -> bool { true } open spec fn mul_spec(self, o: &Rg) -> Rg { rmul(self, *o) } }
} // verus!
