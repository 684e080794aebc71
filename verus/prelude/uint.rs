verus! {
// ---- crypto_bigint::Uint<N>: a number below B() = 2^(64 N), contracts of the operations used -----
pub uninterp spec fn B() -> int;
pub axiom fn b_pos() ensures B() >= 2, B() % 2 == 0;
#[derive(Clone, Copy)] pub struct Uint { pub limbs: u64 }
#[derive(Clone, Copy)] pub struct Choice { pub c: u8 }
impl Choice { pub uninterp spec fn v(&self) -> bool;
    #[verifier::external_body] pub fn not(self) -> (r: Choice) ensures r.v() == !self.v() { unimplemented!() }
    /// subtle::Choice::from(u8): 0 or 1
    #[verifier::external_body] pub fn from(x: u8) -> (r: Choice) requires x <= 1 ensures r.v() == (x == 1) { unimplemented!() } }
impl Uint {
    pub uninterp spec fn v(&self) -> int;
    #[verifier::external_body] pub broadcast proof fn v_range(x: Uint) ensures 0 <= #[trigger] x.v() < B() { }
    #[verifier::external_body] pub proof fn v_ext(a: Uint, b: Uint) requires a.v() == b.v() ensures a == b { }
    #[verifier::external_body] pub fn wrapping_sub(&self, o: &Uint) -> (r: Uint) ensures r.v() == (self.v() - o.v()) % B() { unimplemented!() }
    #[verifier::external_body] pub fn wrapping_add(&self, o: &Uint) -> (r: Uint) ensures r.v() == (self.v() + o.v()) % B() { unimplemented!() }
    #[verifier::external_body] pub fn wrapping_mul(&self, o: &Uint) -> (r: Uint) ensures r.v() == (self.v() * o.v()) % B() { unimplemented!() }
    /// (low, high) halves of the product
    #[verifier::external_body] pub fn mul_wide(&self, o: &Uint) -> (r: (Uint, Uint)) ensures r.0.v() == (self.v() * o.v()) % B(), r.1.v() == (self.v() * o.v()) / B() { unimplemented!() }
    #[verifier::external_body] pub fn conditional_assign(&mut self, o: &Uint, c: Choice) ensures *final(self) == if c.v() { *o } else { *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn conditional_select(a: &Uint, b: &Uint, c: Choice) -> (r: Uint) ensures r == if c.v() { *b } else { *a } { unimplemented!() }
    #[verifier::external_body] pub fn ct_lt(&self, o: &Uint) -> (r: Choice) ensures r.v() == (self.v() < o.v()) { unimplemented!() }
    #[verifier::external_body] pub fn ge(&self, o: &Uint) -> (r: bool) ensures r == (self.v() >= o.v()) { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, o: &Uint) -> (r: bool) ensures r == (self.v() == o.v()) { unimplemented!() }
    /// defined for reduced arguments
    #[verifier::external_body] pub fn add_mod(&self, o: &Uint, m: &Uint) -> (r: Uint) requires self.v() < m.v(), o.v() < m.v() ensures r.v() == (self.v() + o.v()) % m.v() { unimplemented!() }
    #[verifier::external_body] pub fn sub_mod(&self, o: &Uint, m: &Uint) -> (r: Uint) requires self.v() < m.v(), o.v() < m.v() ensures r.v() == (self.v() - o.v()) % m.v() { unimplemented!() }
    #[verifier::external_body] pub fn from_u64(x: u64) -> (r: Uint) ensures r.v() == x { unimplemented!() }
    #[verifier::external_body] pub fn rem(&self, m: &Uint) -> (r: Uint) requires m.v() > 0 ensures r.v() == self.v() % m.v() { unimplemented!() }
    /// inverse modulo an odd modulus, and whether it exists
    #[verifier::external_body] pub fn inv_odd_mod(&self, m: &Uint) -> (r: (Uint, Choice)) requires m.v() % 2 == 1 ensures 0 <= r.0.v() < m.v(), r.1.v() ==> (self.v() * r.0.v()) % m.v() == 1int % m.v(), forall|y: int| #[trigger] (self.v() * y) % m.v() == 1int % m.v() ==> r.1.v() { unimplemented!() }
    #[verifier::external_body] pub fn zero_() -> (r: Uint) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one_() -> (r: Uint) ensures r.v() == 1 { unimplemented!() }
}
/// the constants of a BarrettConfig, as their documentation defines them
pub uninterp spec fn md_() -> int;
pub axiom fn md_range() ensures 2 <= md_(), 2 * md_() <= B();
#[verifier::external_body] pub fn C_MODULUS() -> (r: &'static Uint) ensures r.v() == md_() { unimplemented!() }
#[verifier::external_body] pub fn C_R() -> (r: &'static Uint) ensures r.v() == B() / md_() { unimplemented!() }
#[verifier::external_body] pub fn C_S() -> (r: &'static Uint) ensures r.v() == (B() * B()) / md_() - B() * (B() / md_()) { unimplemented!() }
#[verifier::external_body] pub fn C_T() -> (r: &'static Uint) ensures r.v() == B() - (B() / md_()) * md_() { unimplemented!() }
} // verus!
