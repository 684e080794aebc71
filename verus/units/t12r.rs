//@include ../prelude/goldilocks.rs
verus! {
pub assume_specification[u64::is_power_of_two](x: u64) -> (r: bool) ensures r == (exists|k: nat| k < 64 && x == pow2(k));
pub open spec fn sqk(x: int, k: nat) -> int decreases k { if k == 0 { x % P() } else { let y = sqk(x, (k - 1) as nat); (y * y) % P() } }
proof fn sqk_pow(x: int, k: nat) ensures sqk(x, k) == pow(x, pow2(k)) % P() decreases k {
    lemma2_to64();
    if k == 0 { lemma_pow1(x); } else {
        let h = (k - 1) as nat; sqk_pow(x, h); lemma_pow2_unfold(k); let p = pow2(h); lemma_pow_adds(x, p, p); assert(p + p == pow2(k)); lemma_mul_mod_noop(pow(x, p), pow(x, p), P());
    }
}
proof fn generator() ensures pow(12037493425763644479, pow2(31)) % P() == P() - 1, pow(12037493425763644479, pow2(32)) % P() == 1 {
    sqk_pow(12037493425763644479, 31); sqk_pow(12037493425763644479, 32);
    assert(sqk(12037493425763644479, 31) == 0xFFFFFFFF00000000) by (compute_only);
    assert(sqk(12037493425763644479, 32) == 1) by (compute_only);
}
proof fn pow_pm(x: int, a: nat, b: nat) ensures pow((pow(x, a) % P()), b) % P() == pow(x, a * b) % P() { lemma_pow_mod_noop(pow(x, a), b, P()); lemma_pow_multiplies(x, a, b); }
impl Fg {
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <RootOfUnity for Fg>::nth_root_of_unity
    requires exists|k: nat| k <= 32 && n == pow2(k)
    ensures ret.ok(), pow(ret.0 as int, n as nat) % P() == 1, n > 1 ==> pow(ret.0 as int, (n / 2) as nat) % P() == P() - 1
//@at start
    proof { let k = choose|k: nat| k <= 32 && n == pow2(k); lemma_pow2_pos(k); }
//@at end-bind
    proof {
        let k = choose|k: nat| k <= 32 && n == pow2(k); lemma2_to64(); lemma_pow2_adds(k, (32 - k) as nat); lemma_pow2_pos((32 - k) as nat);
        let e = pow2((32 - k) as nat); lemma_div_by_multiple(e as int, n as int); assert(e * n == n * e) by (nonlinear_arith); assert(exp == e);
        generator(); pow_pm(12037493425763644479, e, n as nat); 
        if n > 1 { assert(k != 0); lemma_pow2_unfold(k); lemma_pow2_adds((k - 1) as nat, (32 - k) as nat); let h = pow2((k - 1) as nat); assert(e * h == h * e) by (nonlinear_arith); assert(n / 2 == h); pow_pm(12037493425763644479, e, h); }
    }
//@end
//@fn sunscreen_tfhe/src/math/goldilocks_field.rs :: <Inverse for Fg>::inverse
//@sub "<Fg as Pow<u64>>::pow" => "Fg::pow"
    requires self.ok()
    ensures ret.ok(), ret.0 == pm(pow(self.0 as int, (P() - 2) as nat))
//@end
}
} // verus!
fn main() {}
