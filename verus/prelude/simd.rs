verus! {
// ---- math/simd: kernels on words ---------------------------------------------------------------
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn min3(a: int, b: int, c: int) -> int { min2(min2(a, b), c) }
pub open spec fn shr_rnd(x: WORD, n: u32) -> WORD { wadd(x >> n, (x >> ((n - 1) as u32)) & 1) }
pub proof fn mask_val(l: usize) requires 1 <= l < WBITS ensures 0x1u64 << l == pow2(l as nat), pow2(l as nat) >= 1, pow2(l as nat) - 1 <= WORD::MAX
{ pw_lt(l as nat); lemma_pow2_pos(l as nat); assert(0x1u64 << l == 0x1u64 << (l as u64)) by (bit_vector) requires l < WBITS; lemma_u64_shl_is_mul(1, l as u64); }
//@def ADDPOST final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> #[trigger] final(c)@[i] == if i < min3(old(c)@.len() as int, a@.len() as int, b@.len() as int) { wadd(a@[i], b@[i]) } else { old(c)@[i] }
//@def SUBPOST final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> #[trigger] final(c)@[i] == if i < min3(old(c)@.len() as int, a@.len() as int, b@.len() as int) { wsub(a@[i], b@[i]) } else { old(c)@[i] }
//@def MADPOST final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> #[trigger] final(c)@[i] == if i < min2(old(c)@.len() as int, a@.len() as int) { wadd(old(c)@[i], wmul(a@[i], s)) } else { old(c)@[i] }
//@def SHRPOST final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> #[trigger] final(c)@[i] == if i < min2(old(c)@.len() as int, a@.len() as int) { shr_rnd(a@[i], n) } else { old(c)@[i] }
//@def DECPOST final(s)@.len() == old(s)@.len(), final(r)@.len() == old(r)@.len(), forall|i: int| 0 <= i < min2(old(s)@.len() as int, old(r)@.len() as int) ==> #[trigger] final(s)@[i] == rest_of(old(s)@[i], radix_log), forall|i: int| 0 <= i < min2(old(s)@.len() as int, old(r)@.len() as int) ==> #[trigger] final(r)@[i] == digit_of(old(s)@[i], radix_log), forall|i: int| min2(old(s)@.len() as int, old(r)@.len() as int) <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == old(s)@[i], forall|i: int| min2(old(s)@.len() as int, old(r)@.len() as int) <= i < old(r)@.len() ==> #[trigger] final(r)@[i] == old(r)@[i]



//@fn sunscreen_tfhe/src/math/simd/scalar.rs :: vector_add
//@sig fn scalar_vector_add(c: &mut [WORD], a: &[WORD], b: &[WORD])
//@byref
    ensures ADDPOST
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __s0_0@.len() == c0.len(), c0 == old(c)@, __s0_1@ == a@, __s0_2@ == b@, __n0 == min3(c0.len() as int, a@.len() as int, b@.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { wadd(a@[j], b@[j]) } else { c0[j] }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/simd/scalar.rs :: vector_sub
//@sig fn scalar_vector_sub(c: &mut [WORD], a: &[WORD], b: &[WORD])
//@byref
    ensures SUBPOST
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __s0_0@.len() == c0.len(), c0 == old(c)@, __s0_1@ == a@, __s0_2@ == b@, __n0 == min3(c0.len() as int, a@.len() as int, b@.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { wsub(a@[j], b@[j]) } else { c0[j] }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/simd/scalar.rs :: vector_scalar_mad
//@sig fn scalar_vector_scalar_mad(c: &mut [WORD], a: &[WORD], s: WORD)
//@byref
    ensures MADPOST
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __s0_0@.len() == c0.len(), c0 == old(c)@, __s0_1@ == a@, __n0 == min2(c0.len() as int, a@.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { wadd(c0[j], wmul(a@[j], s)) } else { c0[j] }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/simd/scalar.rs :: vector_shr_round
//@sig fn scalar_vector_shr_round(c: &mut [WORD], a: &[WORD], n: u32)
//@byref
//@sub "S::one()" => "1WORD" optional
    requires 1 <= n < WBITS
    ensures SHRPOST
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant 1 <= n < WBITS, __s0_0@.len() == c0.len(), c0 == old(c)@, __s0_1@ == a@, __n0 == min2(c0.len() as int, a@.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { shr_rnd(a@[j], n) } else { c0[j] }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/simd/scalar.rs :: vector_next_decomp
//@sig fn scalar_vector_next_decomp(s: &mut [WORD], r: &mut [WORD], radix_log: usize)
//@byref
//@sub "T::from_u64" => "from_u64_s"
    requires 1 <= radix_log < WBITS
    ensures DECPOST
//@at init 0
    let ghost c0 = __s0_0@; let ghost d0 = __s0_1@;
//@at loop 0
    invariant 1 <= radix_log < WBITS, __s0_0@.len() == c0.len(), c0 == old(s)@, d0 == old(r)@, __s0_1@.len() == d0.len(), __n0 == min2(c0.len() as int, d0.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { rest_of(c0[j], radix_log) } else { c0[j] },
        forall|j: int| 0 <= j < d0.len() ==> #[trigger] __s0_1@[j] == if j < __i0 { digit_of(c0[j], radix_log) } else { d0[j] }
    decreases __n0 - __i0
//@at start 0
    proof { mask_val(radix_log); }
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/avx2.rs :: vector_add_u64
//@sig fn avx2_vector_add_u64(c: &mut [WORD], a: &[WORD], b: &[WORD])
    ensures ADDPOST
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __s0_0@.len() == c0.len(), c0 == old(c)@, __s0_1@ == a@, __s0_2@ == b@, __n0 == min3(c0.len() as int, a@.len() as int, b@.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { wadd(a@[j], b@[j]) } else { c0[j] }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/avx2.rs :: vector_sub_u64
//@sig fn avx2_vector_sub_u64(c: &mut [WORD], a: &[WORD], b: &[WORD])
    ensures SUBPOST
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __s0_0@.len() == c0.len(), c0 == old(c)@, __s0_1@ == a@, __s0_2@ == b@, __n0 == min3(c0.len() as int, a@.len() as int, b@.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { wsub(a@[j], b@[j]) } else { c0[j] }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/avx2.rs :: vector_shr_round
//@sig fn avx2_vector_shr_round(c: &mut [WORD], a: &[WORD], n: u32)
//@sub "S::one()" => "1WORD" optional
    requires 1 <= n < WBITS
    ensures SHRPOST
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant 1 <= n < WBITS, __s0_0@.len() == c0.len(), c0 == old(c)@, __s0_1@ == a@, __n0 == min2(c0.len() as int, a@.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { shr_rnd(a@[j], n) } else { c0[j] }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/avx2.rs :: vector_next_decomp
//@sig fn avx2_vector_next_decomp(s: &mut [WORD], r: &mut [WORD], radix_log: usize)
//@byref
//@sub "T::from_u64" => "from_u64_s"
    requires 1 <= radix_log < WBITS
    ensures DECPOST
//@at init 0
    let ghost c0 = __s0_0@; let ghost d0 = __s0_1@;
//@at loop 0
    invariant 1 <= radix_log < WBITS, __s0_0@.len() == c0.len(), c0 == old(s)@, d0 == old(r)@, __s0_1@.len() == d0.len(), __n0 == min2(c0.len() as int, d0.len() as int), __i0 <= __n0,
        forall|j: int| 0 <= j < c0.len() ==> #[trigger] __s0_0@[j] == if j < __i0 { rest_of(c0[j], radix_log) } else { c0[j] },
        forall|j: int| 0 <= j < d0.len() ==> #[trigger] __s0_1@[j] == if j < __i0 { digit_of(c0[j], radix_log) } else { d0[j] }
    decreases __n0 - __i0
//@at start 0
    proof { mask_val(radix_log); }
//@end
// CPU feature detection: any answer
#[verifier::external_body] fn avx_512_available() -> bool { false }
#[verifier::external_body] fn avx2_available() -> bool { false }
#[verifier::external_body] fn fma_available() -> bool { false }
#[verifier::external_body] fn ptr_aligned(c: &[WORD], a: usize) -> bool { false }
// the inline-assembly kernel: aligned vectors of equal length, a multiple of 16
#[verifier::external_body] fn avx512_vector_scalar_mad(c: &mut [WORD], a: &[WORD], s: WORD)
    requires old(c)@.len() == a@.len(), a@.len() % 16 == 0
    ensures final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> #[trigger] final(c)@[i] == wadd(old(c)@[i], wmul(a@[i], s))
{ }

//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for WORD>::vector_add
//@sig fn s_vector_add(c: &mut [WORD], a: &[WORD], b: &[WORD])
//@sub "avx2::" => "avx2_" optional
//@sub "avx512::" => "avx512_" optional
//@sub "scalar::" => "scalar_" optional
    ensures ADDPOST
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for WORD>::vector_sub
//@sig fn s_vector_sub(c: &mut [WORD], a: &[WORD], b: &[WORD])
//@sub "avx2::" => "avx2_" optional
//@sub "avx512::" => "avx512_" optional
//@sub "scalar::" => "scalar_" optional
    ensures SUBPOST
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for WORD>::vector_scalar_mad
//@sig fn s_vector_scalar_mad(c: &mut [WORD], a: &[WORD], s: WORD)
//@sub "avx2::" => "avx2_" optional
//@sub "avx512::" => "avx512_" optional
//@sub "scalar::" => "scalar_" optional
//@sub "let align = core::mem::align_of::<__m512d>();" => "let align = 64;" optional
//@sub "c.as_ptr().align_offset(align) == 0" => "ptr_aligned(c, align)" optional
//@sub "a.as_ptr().align_offset(align) == 0" => "ptr_aligned(a, align)" optional
    ensures MADPOST
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for WORD>::vector_shr_round
//@sig fn s_vector_shr_round(c: &mut [WORD], a: &[WORD], n: u32)
//@sub "avx2::" => "avx2_" optional
//@sub "avx512::" => "avx512_" optional
//@sub "scalar::" => "scalar_" optional
    requires 1 <= n < WBITS
    ensures SHRPOST
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for WORD>::vector_next_decomp
//@sig fn s_vector_next_decomp(s: &mut [WORD], r: &mut [WORD], radix_log: usize)
//@sub "avx2::" => "avx2_" optional
//@sub "avx512::" => "avx512_" optional
//@sub "scalar::" => "scalar_" optional
    requires 1 <= radix_log < WBITS
    ensures DECPOST
//@end
} // verus!
