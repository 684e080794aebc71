//@all "S::from_u64" => "from_u64_s"
//@all "S::BITS" => "WORD::BITS"
verus! {
#[derive(Copy, Clone)] pub struct PlaintextBits(pub u32);
pub trait WShift: Sized {
    spec fn sv(&self) -> WORD;
    fn w_shl(&self, n: u32) -> (r: WORD) ensures n < WBITS ==> r == self.sv() << n;
    fn w_shr(&self, n: u32) -> (r: WORD) ensures n < WBITS ==> r == self.sv() >> n;
}
impl WShift for WORD {
    open spec fn sv(&self) -> WORD { *self }
    #[verifier::external_body] fn w_shl(&self, n: u32) -> (r: WORD) { (*self).wrapping_shl(n) }
    #[verifier::external_body] fn w_shr(&self, n: u32) -> (r: WORD) { (*self).wrapping_shr(n) }
}
proof fn shl_md(v: WORD, sh: u32) requires sh < WBITS ensures v << sh == md(v * pow2(sh as nat))
{
    pw(); pw_lt(sh as nat); let t = (WBITS - sh) as WORD; 
    if sh == 0 { assert(v << 0u32 == v) by (bit_vector); assert(v * 1 == v); }
    else {
        let top = (WBITS - sh) as nat; pw_lt(top); lemma_pow2_adds(sh as nat, top); lemma_WORD_low_bits_mask_is_mod(v, top); lemma_low_bits_mask_values();
        let m = low_bits_mask(top) as WORD; pw_lt(top); assert(low_bits_mask(top) == pow2(top) - 1);
        let lo = v & m; let (p, q) = (pow2(sh as nat) as int, pow2(top) as int);
        one_shl(t); 
        assert(v << sh == (v & (sub((1 as WORD) << t, 1))) << sh) by (bit_vector) requires t == WBITS - sh, 0 < sh < WBITS;
        assert(lo == v as int % q); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v as int, q); let k = v as int / q;
        assert(lo * p <= WORD::MAX) by (nonlinear_arith) requires lo < q, p * q == M(), lo >= 0, p >= 1, WORD::MAX == M() - 1;
        assert(lo << sh == lo << (sh as WORD)) by (bit_vector) requires sh < WBITS; lemma_WORD_shl_is_mul(lo, sh as WORD);
        assert(v * p == lo * p + M() * k) by (nonlinear_arith) requires v == q * k + lo, p * q == M();
        md_shift(lo * p, k); assert(md(lo * p) == lo * p) by { vstd::arithmetic::div_mod::lemma_small_mod((lo * p) as nat, M() as nat); }
    }
}
proof fn rnd_bits32(x: WORD, sh: u32)
    requires 1 <= sh < WBITS
    ensures (x >> ((sh - 1) as u32)) & 1 <= 1, (x >> sh) + ((x >> ((sh - 1) as u32)) & 1) == rnd(x as int, sh as nat), (x >> sh) < pow2((WBITS - sh) as nat)
{
    let s1 = (sh - 1) as u32;
    pw(); pw_lt(sh as nat); pw_lt(s1 as nat); lemma_pow2_unfold(sh as nat); lemma_pow2_adds(sh as nat, (WBITS - sh) as nat);
    assert(x >> sh == x >> (sh as WORD)) by (bit_vector) requires sh < WBITS;
    assert(x >> s1 == x >> (s1 as WORD)) by (bit_vector) requires s1 < WBITS;
    lemma_WORD_shr_is_div(x, sh as WORD); lemma_WORD_shr_is_div(x, s1 as WORD);
    let (h, p) = (pow2(s1 as nat) as int, pow2(sh as nat) as int);
    let y = x >> s1; assert(y & 1 == y % 2) by (bit_vector);
    vstd::arithmetic::div_mod::lemma_div_denominator(x as int, h, 2);
    let q = (x as int) / p; let r = (x as int) % p; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, p);
    let b = (x as int) / h - 2 * q;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, h); let r2 = (x as int) % h;
    assert(x == h * (2 * q + b) + r2); assert(h * (2 * q + b) == p * q + h * b) by (nonlinear_arith) requires p == 2 * h;
    assert((x + h) == p * q + (h * b + r2 + h)); assert(b == 0 || b == 1); assert(p * q == q * p) by (nonlinear_arith); assert((q + 1) * p == q * p + p) by (nonlinear_arith);
    if b == 0 { assert(h * b == 0) by (nonlinear_arith) requires b == 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + h, p, q, r2 + h); }
    else { assert(h * b == h) by (nonlinear_arith) requires b == 1; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + h, p, q + 1, r2); }
    let top = pow2((WBITS - sh) as nat) as int; assert(q < top) by (nonlinear_arith) requires p * q <= x, x < p * top, p > 0;
}
impl Torus<WORD> {
//@fn sunscreen_tfhe/src/math/torus.rs :: Torus::encode
//@byref
    requires 1 <= plain_bits.0 < WBITS
    ensures ret.0 == md(val * pow2((W() - plain_bits.0) as nat))
//@at start
    proof { shl_md(val, (WORD::BITS - plain_bits.0) as u32); }
//@end
//@fn sunscreen_tfhe/src/math/torus.rs :: Torus::decode
//@byref
//@sub "S::from(0x1)" => "(1 as WORD)"
    requires 1 <= plain_bits.0 < WBITS
    ensures ret == rnd(self.0 as int, (W() - plain_bits.0) as nat) % (pow2(plain_bits.0 as nat) as int)
//@at start
    proof {
        let w = plain_bits.0; let sh = (WORD::BITS - w) as u32; rnd_bits32(self.0, sh); pw_lt(w as nat); lemma_low_bits_mask_values();
        assert(0x1u64 << w == 0x1u64 << (w as u64)) by (bit_vector) requires w < WBITS; lemma_u64_shl_is_mul(1, w as u64);
        let r = ((self.0 >> sh) + ((self.0 >> ((sh - 1) as u32)) & 1)) as WORD; lemma_WORD_low_bits_mask_is_mod(r, w as nat); assert(low_bits_mask(w as nat) == pow2(w as nat) - 1);
    }
//@end
}
} // verus!
