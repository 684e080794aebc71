//@include base.rs
verus! {
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
pub assume_specification[u64::overflowing_add](a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 as int == (if a + b > u64::MAX { a + b - 0x1_0000_0000_0000_0000 } else { a + b }), r.1 == (a + b > u64::MAX);
pub assume_specification[u64::overflowing_sub](a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 as int == (if a < b { a - b + 0x1_0000_0000_0000_0000 } else { a - b }), r.1 == (a < b);
pub const GOLDILOCKS_PRIME: u64 = 0xFFFFFFFF00000001;
pub open spec fn P() -> int { 0xFFFFFFFF00000001 }
pub open spec fn pm(x: int) -> u64 { (x % P()) as u64 }
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Fg(pub u64);
pub struct Fg96 { pub lo: u64, pub hi: u64 }
pub struct Fg159 { pub lo: u64, pub mid: u64, pub hi: u64 }
impl Fg {
    /// canonical: the unique representative below the prime
    pub open spec fn ok(&self) -> bool { self.0 < P() }
}
impl Fg96 { pub open spec fn val(&self) -> int { self.lo + self.hi * 0x1_0000_0000_0000_0000 } }
impl Fg159 { pub open spec fn val(&self) -> int { self.lo + self.mid * 0x1_0000_0000_0000_0000 + self.hi * 0x1_0000_0000_0000_0000_0000_0000 } }
proof fn uniq(x: int, q: int, r: int) requires x == q * P() + r, 0 <= r < P() ensures x % P() == r { lemma_fundamental_div_mod_converse(x, P(), q, r); }
proof fn red96(lo: int, hi: int, r: int, k: int)
    requires r == lo + hi * 0xFFFF_FFFF - k * P(), 0 <= r < P()
    ensures (lo + hi * 0x1_0000_0000_0000_0000) % P() == r
{ assert(lo + hi * 0x1_0000_0000_0000_0000 == (hi + k) * P() + r) by (nonlinear_arith) requires r == lo + hi * 0xFFFF_FFFF - k * 0xFFFFFFFF00000001; uniq(lo + hi * 0x1_0000_0000_0000_0000, hi + k, r); }
proof fn red159(lo: int, mid: int, hi: int, r: int, k: int)
    requires r == lo - hi + mid * 0xFFFF_FFFF - k * P(), 0 <= r < P()
    ensures (lo + mid * 0x1_0000_0000_0000_0000 + hi * 0x1_0000_0000_0000_0000_0000_0000) % P() == r
{ let q = hi * 0x1_0000_0001 + mid + k; assert(lo + mid * 0x1_0000_0000_0000_0000 + hi * 0x1_0000_0000_0000_0000_0000_0000 == q * P() + r) by (nonlinear_arith) requires r == lo - hi + mid * 0xFFFF_FFFF - k * 0xFFFFFFFF00000001, q == hi * 0x1_0000_0001 + mid + k; uniq(lo + mid * 0x1_0000_0000_0000_0000 + hi * 0x1_0000_0000_0000_0000_0000_0000, q, r); }
proof fn shl32(x: u64) requires x < 0x1_0000_0000 ensures x << 32 == x * 0x1_0000_0000, x << 32 >= x, (x << 32) - x == x * 0xFFFF_FFFF
{ assert(x << 32 == x * 0x1_0000_0000) by (bit_vector) requires x < 0x1_0000_0000; }
impl Fg {
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: Fg::new
    ensures ret.ok(), ret.0 == pm(x as int)
//@at start
    proof { if x >= GOLDILOCKS_PRIME { uniq(x as int, 1, x - P()); } else { uniq(x as int, 0, x as int); } }
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: Fg::unreduced_add
//@sub "carry.into()" => "(carry as u64)"
    ensures ret.val() == self.0 + rhs.0, ret.hi <= 1
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: Fg::unreduced_sub
    requires rhs.ok()
    ensures ret.val() == self.0 - rhs.0 + P(), ret.hi <= 1
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: Fg::unreduced_mul
//@sub "res.into()" => "Fg159::from(res)"
    ensures ret.val() == self.0 * rhs.0, ret.mid <= u32::MAX, ret.hi <= u32::MAX
//@at start
    proof { assert(self.0 as int * rhs.0 as int <= u128::MAX) by (nonlinear_arith) requires self.0 <= u64::MAX, rhs.0 <= u64::MAX; }
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: Fg::unreduced_mad
//@sub "res.into()" => "Fg159::from(res)"
    ensures ret.val() == self.0 * b.0 + c.0, ret.mid <= u32::MAX, ret.hi <= u32::MAX
//@at start
    proof { assert(self.0 as int * b.0 as int + c.0 <= u128::MAX && self.0 as int * b.0 as int <= u128::MAX) by (nonlinear_arith) requires self.0 <= u64::MAX, b.0 <= u64::MAX, c.0 <= u64::MAX; }
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: Fg::mad
    ensures ret.ok(), ret.0 == pm(self.0 * b.0 + c.0)
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <From for Fg>::from
//@ret r
    ensures r.ok(), r.0 == pm(value as int)
//@end
}
impl Fg159 {
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <From for Fg159>::from
//@ret r
    ensures r.val() == res, r.mid <= u32::MAX, r.hi <= u32::MAX
//@at start
    proof {
        let (l, m, h) = (res as u64, (res >> 64) as u32 as u64, (res >> 96) as u64);
        assert(l as u128 + m as u128 * 0x1_0000_0000_0000_0000u128 + h as u128 * 0x1_0000_0000_0000_0000_0000_0000u128 == res) by (bit_vector) requires l == res as u64, m == (res >> 64) as u32 as u64, h == (res >> 96) as u64;
        assert((res >> 96) as u64 <= 0xFFFF_FFFF) by (bit_vector);
        assert(m as int * 0x1_0000_0000_0000_0000 <= u128::MAX && h as int * 0x1_0000_0000_0000_0000_0000_0000 <= u128::MAX);
    }
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: Fg159::reduce
    requires self.mid <= u32::MAX, self.hi < 0x8000_0000_0000_0000
    ensures ret.ok(), ret.0 == pm(self.val())
//@at start
    proof {
        shl32(self.mid); let d = (self.lo - self.hi) as int; let base: int = if d < 0 { d + P() } else { d }; let k0: int = if d < 0 { -1 } else { 0 };
        let s = base + self.mid * 0xFFFF_FFFF; assert(0 <= self.mid * 0xFFFF_FFFF <= 0xFFFF_FFFE_0000_0001) by (nonlinear_arith) requires 0 <= self.mid <= 0xFFFF_FFFF;
        let k: int = if s >= P() { 1 } else { 0 };
        assert(0 <= s - k * P() < P());
        red159(self.lo as int, self.mid as int, self.hi as int, s - k * P(), k0 + k);
    }
//@end
}
impl Fg96 {
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: Fg96::reduce
    requires self.hi <= u32::MAX
    ensures ret.ok(), ret.0 == pm(self.val())
//@at start
    proof {
        shl32(self.hi); let s = self.lo + self.hi * 0xFFFF_FFFF; assert(0 <= self.hi * 0xFFFF_FFFF <= 0xFFFF_FFFE_0000_0001) by (nonlinear_arith) requires 0 <= self.hi <= 0xFFFF_FFFF;
        let k: int = if s >= P() { 1 } else { 0 };
        assert(0 <= s - k * P() < P());
        red96(self.lo as int, self.hi as int, s - k * P(), k);
    }
//@end
}
impl core::ops::Add<&Fg> for &Fg { type Output = Fg;
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <Add for &Fg>::add
    ensures ret.ok()
//@at start
    proof { let s = self.0 + rhs.0; if s >= P() { uniq(s, 1, s - P()); } else { uniq(s, 0, s); } }
//@end
}
impl vstd::std_specs::ops::AddSpecImpl<&Fg> for &Fg {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &Fg) -> bool { self.ok() && rhs.ok() }
    open spec fn add_spec(self, rhs: &Fg) -> Fg { Fg(pm(self.0 + rhs.0)) }
}
impl core::ops::Sub<&Fg> for &Fg { type Output = Fg;
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <Sub for &Fg>::sub
//@sub "u32::from(c)" => "(c as u32)"
    ensures ret.ok()
//@at start
    proof { let s = self.0 - rhs.0; if s < 0 { uniq(s, -1, s + P()); } else { uniq(s, 0, s); } }
//@end
}
impl vstd::std_specs::ops::SubSpecImpl<&Fg> for &Fg {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &Fg) -> bool { self.ok() && rhs.ok() }
    open spec fn sub_spec(self, rhs: &Fg) -> Fg { Fg(pm(self.0 - rhs.0)) }
}
impl core::ops::Mul<&Fg> for &Fg { type Output = Fg;
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <Mul for &Fg>::mul
    ensures ret.ok()
//@end
}
impl vstd::std_specs::ops::MulSpecImpl<&Fg> for &Fg {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &Fg) -> bool { true }
    open spec fn mul_spec(self, rhs: &Fg) -> Fg { Fg(pm(self.0 * rhs.0)) }
}
impl core::ops::Neg for Fg { type Output = Fg;
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <Neg for Fg>::neg
    ensures ret.ok()
//@at start
    proof { let s = -(self.0 as int); if s < 0 { uniq(s, -1, s + P()); } else { uniq(s, 0, s); } }
//@end
}
impl vstd::std_specs::ops::NegSpecImpl for Fg {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.ok() }
    open spec fn neg_spec(self) -> Fg { Fg(pm(-(self.0 as int))) }
}
impl core::ops::Mul<Fg> for Fg { type Output = Fg;
    fn mul(self, rhs: Fg) -> (ret: Fg) ensures ret.ok() { self.unreduced_mul(rhs).reduce() } // refify_binary_op
}
impl vstd::std_specs::ops::MulSpecImpl<Fg> for Fg {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Fg) -> bool { true }
    open spec fn mul_spec(self, rhs: Fg) -> Fg { Fg(pm(self.0 * rhs.0)) }
}
impl Fg {
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <One for Fg>::one
    ensures ret.0 == 1
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <Zero for Fg>::zero
    ensures ret.0 == 0
//@end
}
// ---- exponentiation ---------------------------------------------------------------------------
use vstd::arithmetic::power::*;
pub fn u32min(a: u32, b: u32) -> (r: u32) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
proof fn pm_mul(x: int, y: int) ensures pm(pm(x) * pm(y)) == pm(x * y) { lemma_mul_mod_noop(x, y, P()); }
proof fn step(e: WORD, i: u32)
    requires i < WBITS
    ensures (e as int) % (pow2((i + 1) as nat) as int) == (e as int) % (pow2(i as nat) as int) + ((e >> i) & 1) * pow2(i as nat), (e >> i) & 1 == 0 || (e >> i) & 1 == 1
{
    lemma_pow2_unfold((i + 1) as nat); lemma_pow2_pos(i as nat);
    assert(e >> i == e >> (i as WORD)) by (bit_vector) requires i < WBITS; lemma_WORD_shr_is_div(e, i as WORD);
    let y = e >> i; assert(y & 1 == y % 2) by (bit_vector);
    lemma_mod_breakdown(e as int, pow2(i as nat) as int, 2);
    let p = pow2(i as nat) as int; let b = (y % 2) as int; assert(p * b == b * p) by (nonlinear_arith); assert(p * 2 == 2 * p) by (nonlinear_arith);
}
proof fn whole(e: WORD) ensures e < pow2(WBITS as nat) { lemma2_to64(); assert(pow2(64) == 0x1_0000_0000_0000_0000) by { lemma_pow2_unfold(64); lemma_pow2_unfold(63); lemma_pow2_unfold(62);  lemma_pow2_adds(32, 32); } lemma_small_mod(e as nat, pow2(WBITS as nat)); }
impl Fg {
//@fn sunscreen_tfhe/src/math/mod.rs :: <Pow for U>::pow
//@sig pub fn pow(&self, exp: WORD) -> (ret: Fg)
//@sub "U::one()" => "Fg::one()"
//@sub "T::one()" => "1WORD"
//@sub "u32::min" => "u32min"
//@sub "std::mem::size_of::<T>()" => "core::mem::size_of::<WORD>()"
    requires self.ok()
    ensures ret.ok(), ret.0 == pm(pow(self.0 as int, exp as nat))
//@at loop 0
    invariant bits == WBITS, __hi0_1 == bits, __i0 <= bits, result.ok(), power.ok(), self.ok(),
        power.0 == pm(pow(self.0 as int, pow2(__i0 as nat))), result.0 == pm(pow(self.0 as int, ((exp as int) % (pow2(__i0 as nat) as int)) as nat))
    decreases bits - __i0
//@at init 0
    proof { lemma2_to64(); lemma_pow1(self.0 as int); lemma_pow0(self.0 as int); lemma_small_mod(self.0 as nat, P() as nat); }
//@at start 0
    proof {
        let x = self.0 as int; let p = pow2(i as nat); step(exp, i); lemma_pow2_unfold((i + 1) as nat); lemma_pow2_pos(i as nat);
        let a = ((exp as int) % (p as int)) as nat; let b = (exp >> i) & 1;
        pm_mul(pow(x, p), pow(x, p)); lemma_pow_adds(x, p, p); assert(2 * p == p + p); assert(pow2((i + 1) as nat) == p + p);
        assert(pm(power.0 * power.0) == pm(pow(x, p + p)));
        let e2 = (exp as int) % (pow2((i + 1) as nat) as int); assert(e2 == a + b * p); assert(e2 >= 0);
        if b == 1 { assert(((exp as int) % (pow2((i + 1) as nat) as int)) == a + p) by (nonlinear_arith) requires (exp as int) % (pow2((i + 1) as nat) as int) == a + b * p, b == 1; lemma_pow_adds(x, a, p); pm_mul(pow(x, a), pow(x, p)); }
        else { assert(b * p == 0) by (nonlinear_arith) requires b == 0; }
    }
//@at after 0
    proof { whole(exp); lemma_small_mod(exp as nat, pow2(WBITS as nat)); }
//@end
}
} // verus!
