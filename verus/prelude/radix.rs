verus! {
use vstd::arithmetic::power2::*;
use vstd::bits::*;
#[derive(Copy, Clone)] pub struct RadixLog(pub usize);
#[derive(Copy, Clone)] pub struct RadixCount(pub usize);
#[derive(Copy, Clone)] pub struct RadixDecomposition { pub count: RadixCount, pub radix_log: RadixLog }
pub open spec fn W() -> int { WBITS }
impl RadixDecomposition { pub open spec fn ok(&self) -> bool { 1 <= self.radix_log.0 < W() && self.count.0 >= 1 && self.radix_log.0 * self.count.0 <= W() } }
//@fn sunscreen_tfhe/src/math/torus.rs :: <FromU64 for WORD>::from_u64
//@rename from_u64_s
//@sig fn from_u64_s(val: u64) -> (ret: WORD)
//@sub "as Self" => "as WORD" optional
    requires val <= WORD::MAX
    ensures ret == val
//@at start
    proof { if val <= 0xFFFFFFFF { assert(val & 0xFFFFFFFF == val) by (bit_vector) requires val <= 0xFFFFFFFF; } }
//@end
/// value of a digit word read as a two's complement number
pub open spec fn sd(d: WORD) -> int { if 2 * (d as int) >= M() { d - M() } else { d as int } }
pub proof fn pw() ensures pow2(WBITS) == M(), pow2((WBITS - 1) as nat) * 2 == M(), pow2(0) == 1, pow2(1) == 2 { lemma2_to64(); lemma2_to64_rest(); lemma_pow2_unfold(WBITS); }
/// 2^l of a shift amount below the width, as a word
pub proof fn pw_lt(l: nat) requires l < WBITS ensures 1 <= pow2(l) <= WORD::MAX, 2 * pow2(l) <= M() { pw(); lemma_pow2_pos(l); if l < WBITS - 1 { lemma_pow2_strictly_increases(l, (WBITS - 1) as nat); } }
pub proof fn one_shl(l: WORD) requires l < WBITS ensures (1 as WORD) << l == pow2(l as nat) { pw_lt(l as nat); lemma_WORD_shl_is_mul(1, l); }
/// the signed digit taken from x, and what remains
pub open spec fn digit_of(x: WORD, l: usize) -> WORD { let d0 = x & ((pow2(l as nat) - 1) as WORD); wsub(d0, (d0 >> ((l - 1) as usize)) << l) }
pub open spec fn rest_of(x: WORD, l: usize) -> WORD { let d0 = x & ((pow2(l as nat) - 1) as WORD); wadd(x >> l, d0 >> ((l - 1) as usize)) }
} // verus!
