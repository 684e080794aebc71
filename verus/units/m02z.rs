//@include ../prelude/base.rs
//@generic T
//@all ".into()" => ".into_z()"
//@all "ZInt < T >" => "ZInt"
//@all "T::zero()" => "zero_w()"
//@all "T::one()" => "one_w()"
verus! {
#[derive(Clone, Copy)] pub struct ZInt(pub WORD);
impl ZInt { pub open spec fn v(&self) -> int { self.0 as int } }
pub trait WOps: Sized { spec fn wv(&self) -> int; fn w_add(&self, o: &Self) -> (r: Self) ensures r.wv() == (self.wv() + o.wv()) % M(); fn w_sub(&self, o: &Self) -> (r: Self) ensures r.wv() == (self.wv() - o.wv()) % M(); fn w_mul(&self, o: &Self) -> (r: Self) ensures r.wv() == (self.wv() * o.wv()) % M(); }
/// num::traits Wrapping* for the machine words: the core wrapping operations
impl WOps for WORD {
    open spec fn wv(&self) -> int { *self as int }
    fn w_add(&self, o: &Self) -> (r: Self) { proof { let s = *self as int + *o as int; if s >= M() { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s, M(), 1, s - M()); } else { vstd::arithmetic::div_mod::lemma_small_mod(s as nat, M() as nat); } } (*self).wrapping_add(*o) }
    fn w_sub(&self, o: &Self) -> (r: Self) { proof { let s = *self as int - *o as int; if s < 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s, M(), -1, s + M()); } else { vstd::arithmetic::div_mod::lemma_small_mod(s as nat, M() as nat); } } (*self).wrapping_sub(*o) }
    fn w_mul(&self, o: &Self) -> (r: Self) { (*self).wrapping_mul(*o) }
}
pub trait IntoZ: Sized { spec fn z(self) -> ZInt; fn into_z(self) -> (r: ZInt) ensures r == self.z(); }
impl ZInt {
//@fn sunscreen_math/src/ring/mod.rs :: ZInt::new
//@rename new_
//@sig fn new_(val: WORD) -> (ret: ZInt)
    ensures ret.0 == val
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <From<T> for ZInt<T>>::from
//@sig pub fn from(value: WORD) -> (ret: ZInt)
    ensures ret.0 == value
//@end
}
pub fn zint_of(x: WORD) -> (r: ZInt) ensures r.0 == x { ZInt::from(x) }
//@fn sunscreen_math/src/ring/mod.rs :: <Zero for WORD>::zero
//@rename zero_w
//@sig pub fn zero_w() -> (ret: WORD)
    ensures ret == 0
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <One for WORD>::one
//@rename one_w
//@sig pub fn one_w() -> (ret: WORD)
    ensures ret == 1
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Zero for WORD>::vartime_is_zero
//@rename is_zero_w
//@sig pub fn is_zero_w(s: &WORD) -> (ret: bool)
//@sub "self == &0" => "*s == 0"
    ensures ret == (*s == 0)
//@end
impl ZInt {
//@fn sunscreen_math/src/ring/mod.rs :: <Add for ZInt>::add
//@sig pub fn add(&self, rhs: &ZInt) -> (ret: ZInt)
//@byref
    ensures ret.v() == (self.v() + rhs.v()) % M()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Sub for ZInt>::sub
//@sig pub fn sub(&self, rhs: &ZInt) -> (ret: ZInt)
//@byref
    ensures ret.v() == (self.v() - rhs.v()) % M()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Mul for ZInt>::mul
//@sig pub fn mul(&self, rhs: &ZInt) -> (ret: ZInt)
//@byref
    ensures ret.v() == (self.v() * rhs.v()) % M()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Zero for ZInt>::zero
//@sig pub fn zero() -> (ret: ZInt)
    ensures ret.v() == 0
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Zero for ZInt>::vartime_is_zero
//@sig pub fn vartime_is_zero(&self) -> (ret: bool)
//@sub "self.0.vartime_is_zero()" => "is_zero_w(&self.0)"
    ensures ret == (self.v() == 0)
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <One for ZInt>::one
//@sig pub fn one() -> (ret: ZInt)
    ensures ret.v() == 1
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Neg for ZInt<T>>::neg
//@sig pub fn neg(self) -> (ret: ZInt)
//@sub "Self::zero() - self" => "Self::zero().sub(&self)"
    ensures ret.v() == (0 - self.v()) % M()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Neg for &ZInt<T>>::neg
//@rename neg_ref
//@sig pub fn neg_ref(&self) -> (ret: ZInt)
//@sub "ZInt::zero() - self" => "ZInt::zero().sub(self)"
    ensures ret.v() == (0 - self.v()) % M()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <PartialEq for ZInt>::eq
//@sig pub fn eq(&self, other: &ZInt) -> (ret: bool)
    ensures ret == (self.v() == other.v())
//@end
}
impl IntoZ for WORD { open spec fn z(self) -> ZInt { ZInt(self) } fn into_z(self) -> (r: ZInt) { ZInt::from(self) } }
} // verus!
fn main() {}
