//@include ../prelude/base.rs
//@include ../prelude/uint.rs
//@include ../prelude/barrett.rs
//@generic N C
//@all "& C::MODULUS" => "C_MODULUS()"
//@all "&C::MODULUS" => "C_MODULUS()"
//@all "&C::R" => "C_R()"
//@all "&C::S" => "C_S()"
//@all "&C::T" => "C_T()"
//@all "Uint < N >" => "Uint"
verus! {
pub struct BarrettBackend;
impl BarrettBackend {
//@fn sunscreen_math/src/ring/barrett.rs :: BarrettBackend::barrett_reduce >> reduce
//@sig fn reduce(val: &mut Uint)
    ensures final(val).v() == (if old(val).v() < md_() { old(val).v() } else { old(val).v() - md_() })
//@at start
    proof { b_pos(); md_range(); broadcast use Uint::v_range; if val.v() >= md_() { small(val.v() - md_(), B()); } }
//@end
//@fn sunscreen_math/src/ring/barrett.rs :: BarrettBackend::barrett_reduce
//@sub "reduce::<N, C>" => "Self::reduce"
    ensures ret.v() == (x.0.v() + B() * x.1.v()) % md_(), 0 <= ret.v() < md_()
//@at start
    let ghost (lo, hi, b, m) = (x.0.v(), x.1.v(), B(), md_());
    proof {
        b_pos(); md_range(); broadcast use Uint::v_range;
        low_est(lo, b, m); high_est(hi, b, m);
        let r = b / m; let t = b - r * m; let s = (b * b) / m - b * r;
        let q1 = (hi * s) / b; near(hi * t, q1, m); wrap_sub(hi * t, q1 * m, b);
        let q0 = (lo * r) / b; near(lo, q0, m); wrap_sub_r(lo, q0 * m, b);
        let (u, w) = (lo % m, hi * t % m);
        lemma_mod_bound(lo, m); lemma_mod_bound(hi * t, m); small(u + w, b);
        assert(hi * b == b * hi && hi * t == t * hi && hi * s == s * hi && lo * r == r * lo && q0 * m == m * q0 && q1 * m == m * q1) by (nonlinear_arith);
        lemma_add_mod_noop(lo, b * hi, m);
        if u + w >= m { lemma_fundamental_div_mod_converse(u + w, m, 1, u + w - m); } else { small(u + w, m); }
    }
//@end
//@fn sunscreen_math/src/ring/barrett.rs :: <ArithmeticBackend for BarrettBackend>::mul_mod
//@sig pub fn mul_mod(lhs: &Uint, rhs: &Uint) -> (ret: Uint)
    ensures ret.v() == (lhs.v() * rhs.v()) % md_(), 0 <= ret.v() < md_()
//@at start
    proof { b_pos(); broadcast use Uint::v_range; lemma_fundamental_div_mod(lhs.v() * rhs.v(), B()); }
//@end
//@fn sunscreen_math/src/ring/barrett.rs :: <ArithmeticBackend for BarrettBackend>::encode
//@sig pub fn encode(val: &Uint) -> (ret: Uint)
    ensures ret == *val
//@end
//@fn sunscreen_math/src/ring/barrett.rs :: <ArithmeticBackend for BarrettBackend>::decode
//@sig pub fn decode(val: &Uint) -> (ret: Uint)
    ensures ret == *val
//@end
}
} // verus!
//@generic B
//@all "B::MODULUS_DIV_2" => "C_MODULUS_DIV_2()"
//@all "& B::MODULUS" => "C_MODULUS()"
//@all "&B::MODULUS" => "C_MODULUS()"
//@all "B::MODULUS" => "*C_MODULUS()"
//@all "B::ZERO" => "Uint::zero_()"
//@all "B::ONE" => "Uint::one_()"
//@all "B::encode" => "BarrettBackend::encode"
//@all "B::decode" => "BarrettBackend::decode"
//@all "B::add_mod" => "BarrettBackend::add_mod"
//@all "B::sub_mod" => "BarrettBackend::sub_mod"
//@all "B::mul_mod" => "BarrettBackend::mul_mod"
//@all "&Self::MODULUS" => "C_MODULUS()"
//@all "_phantom: PhantomData," => ""
//@all "Self::Output {" => "Zq {"
//@all "Uint::ZERO" => "Uint::zero_()"
verus! {
impl BarrettBackend {
//@fn sunscreen_math/src/ring/mod.rs :: trait ArithmeticBackend::add_mod
    requires lhs.v() < md_(), rhs.v() < md_()
    ensures ret.v() == (lhs.v() + rhs.v()) % md_(), 0 <= ret.v() < md_()
//@at start
    proof { md_range(); lemma_mod_bound(lhs.v() + rhs.v(), md_()); }
//@end
//@fn sunscreen_math/src/ring/mod.rs :: trait ArithmeticBackend::sub_mod
    requires lhs.v() < md_(), rhs.v() < md_()
    ensures ret.v() == (lhs.v() - rhs.v()) % md_(), 0 <= ret.v() < md_()
//@at start
    proof { md_range(); lemma_mod_bound(lhs.v() - rhs.v(), md_()); }
//@end
}
#[derive(Clone, Copy)] pub struct Zq { pub val: Uint }
pub enum Error { OutOfRange }
impl Zq {
    /// the stored value is canonical
    pub open spec fn wf(&self) -> bool { 0 <= self.val.v() < md_() }
//@fn sunscreen_math/src/ring/mod.rs :: <Add for Zq>::add
//@sig pub fn add(&self, rhs: &Zq) -> (ret: Zq)
    requires self.wf(), rhs.wf()
    ensures ret.wf(), ret.val.v() == (self.val.v() + rhs.val.v()) % md_()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Sub for Zq>::sub
//@sig pub fn sub(&self, rhs: &Zq) -> (ret: Zq)
    requires self.wf(), rhs.wf()
    ensures ret.wf(), ret.val.v() == (self.val.v() - rhs.val.v()) % md_()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Mul for Zq>::mul
//@sig pub fn mul(&self, rhs: &Zq) -> (ret: Zq)
    requires self.wf(), rhs.wf()
    ensures ret.wf(), ret.val.v() == (self.val.v() * rhs.val.v()) % md_()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Zero for Zq>::zero
//@sig pub fn zero() -> (ret: Zq)
    ensures ret.wf(), ret.val.v() == 0
//@at start
    proof { md_range(); }
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Zero for Zq>::vartime_is_zero
//@sig pub fn vartime_is_zero(&self) -> (ret: bool)
//@sub "self.val == Uint::ZERO" => "self.val.eq(&Uint::zero_())"
    ensures ret == (self.val.v() == 0)
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <One for Zq>::one
//@sig pub fn one() -> (ret: Zq)
    ensures ret.wf(), ret.val.v() == 1
//@at start
    proof { md_range(); }
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Neg for Zq<N,B>>::neg
//@sig pub fn neg(self) -> (ret: Zq)
//@sub "Zq::zero() - self" => "Zq::zero().sub(&self)"
    requires self.wf()
    ensures ret.wf(), ret.val.v() == (0 - self.val.v()) % md_()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Neg for &Zq<N,B>>::neg
//@rename neg_ref
//@sig pub fn neg_ref(&self) -> (ret: Zq)
//@sub "Zq::zero() - self" => "Zq::zero().sub(self)"
    requires self.wf()
    ensures ret.wf(), ret.val.v() == (0 - self.val.v()) % md_()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <PartialEq for Zq>::eq
//@sig pub fn eq(&self, other: &Zq) -> (ret: bool)
    ensures ret == (self.val.v() == other.val.v())
//@end
//@fn sunscreen_math/src/ring/mod.rs :: Zq::into_bigint
    requires self.wf()
    ensures ret.v() == self.val.v(), 0 <= ret.v() < md_()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <TryFrom<Uint<N>> for Zq<N,B>>::try_from
//@rename try_from_
//@sig pub fn try_from_(value: Uint) -> (ret: Result<Zq, Error>)
    ensures ret is Ok <==> value.v() < md_(), ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.val.v() == value.v()
//@at start
    proof { broadcast use Uint::v_range; }
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <From<u64> for Zq<N,B>>::from
//@rename from_u64
//@sig pub fn from_u64(value: u64) -> (ret: Zq)
//@sub "NonZero::new(B::MODULUS).unwrap()" => "*C_MODULUS()"
    ensures ret.wf(), ret.val.v() == value as int % md_()
//@at start
    proof { md_range(); lemma_mod_bound(value as int, md_()); }
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <From<u32> for Zq<N,B>>::from
//@rename from_u32
//@sig pub fn from_u32(value: u32) -> (ret: Zq)
//@sub "(value as u64).into()" => "Zq::from_u64(value as u64)"
    ensures ret.wf(), ret.val.v() == value as int % md_()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <From<i64> for Zq<N,B>>::from
//@rename from_i64
//@sig pub fn from_i64(value: i64) -> (ret: Zq)
//@sub "NonZero::new(B::MODULUS).unwrap()" => "*C_MODULUS()"
//@sub "value.unsigned_abs()" => "uabs(value)"
//@sub "value.is_negative()" => "isneg(value)"
    requires value >= -md_()
    ensures ret.wf(), ret.val.v() == value as int % md_()
//@at start
    proof { md_range(); b_pos(); let (v, m) = (value as int, md_()); lemma_mod_bound(v, m); if v < 0 { small(m + v, B()); lemma_mod_add_multiples_vanish(v, m); lemma_mod_bound(m + v, m); } lemma_mod_bound(if v < 0 { m + v } else { v }, m); }
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <From<i32> for Zq<N,B>>::from
//@rename from_i32
//@sig pub fn from_i32(value: i32) -> (ret: Zq)
//@sub "Self::from(" => "Zq::from_i64("
    requires value >= -md_()
    ensures ret.wf(), ret.val.v() == value as int % md_()
//@end
//@fn sunscreen_math/src/ring/mod.rs :: <Field for Zq>::inverse
//@sig pub fn inverse(&self) -> (ret: Zq)
    requires self.wf(), md_() % 2 == 1
    ensures ret.wf(), (exists|y: int| #[trigger] (self.val.v() * y) % md_() == 1int % md_()) ==> self.mul_spec(ret) == 1
//@at start
    proof { md_range(); small(1, md_()); }
//@end
    pub open spec fn mul_spec(&self, o: Zq) -> int { (self.val.v() * o.val.v()) % md_() }
}
/// i64::unsigned_abs, i64::is_negative (core)
#[verifier::external_body] pub fn uabs(x: i64) -> (r: u64) ensures r == (if x < 0 { 0 - x as int } else { x as int }) { x.unsigned_abs() }
pub fn isneg(x: i64) -> (r: bool) ensures r == (x < 0) { x < 0 }
proof fn distrib(x: int, y: int, z: int) ensures x * (y + z) == x * y + x * z { lemma_mul_is_distributive_add(x, y, z); }
/// canonical values are equal exactly when they are congruent, so the operations above make the canonical values the ring Z/m
pub proof fn ring_laws(a: Zq, b: Zq, c: Zq) requires a.wf(), b.wf(), c.wf()
    ensures ({ let m = md_(); let (x, y, z) = (a.val.v(), b.val.v(), c.val.v()); (((x + y) % m) + z) % m == (x + ((y + z) % m)) % m && (((x * y) % m) * z) % m == (x * ((y * z) % m)) % m && (x * ((y + z) % m)) % m == ((x * y) % m + (x * z) % m) % m && ((x - y) % m + y) % m == x && (x + 0) % m == x && (x * 1) % m == x })
{
    md_range(); let m = md_(); let (x, y, z) = (a.val.v(), b.val.v(), c.val.v());
    lemma_add_mod_noop_right(z, x + y, m); lemma_add_mod_noop_right(x, y + z, m);
    lemma_mul_mod_noop_left(x * y, z, m); lemma_mul_mod_noop_right(x, y * z, m); lemma_mul_is_associative(x, y, z);
    lemma_mul_mod_noop_right(x, y + z, m); distrib(x, y, z); lemma_add_mod_noop(x * y, x * z, m);
    lemma_add_mod_noop_right(y, x - y, m); small(x, m);
}
} // verus!
fn main() {}
