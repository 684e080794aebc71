verus! {
// bytemuck::cast_slice between Torus<S> (repr(transparent)) and S
#[verifier::external_body] pub fn t_cast(c: &[Torus<WORD>]) -> (r: &[WORD]) ensures r@.len() == c@.len(), forall|i: int| 0 <= i < c@.len() ==> #[trigger] r@[i] == c@[i].0 { unsafe { core::mem::transmute(c) } }
#[verifier::external_body] pub fn t_cast_mut(c: &mut [Torus<WORD>]) -> (r: &mut [WORD])
    ensures r@.len() == old(c)@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == old(c)@[i].0,
        final(c)@.len() == final(r)@.len(), forall|i: int| 0 <= i < final(c)@.len() ==> #[trigger] final(c)@[i] == Torus(final(r)@[i])
{ unsafe { core::mem::transmute(c) } }
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for Torus>::vector_add
//@sig fn t_vector_add(c: &mut [Torus<WORD>], a: &[Torus<WORD>], b: &[Torus<WORD>])
//@sub "bytemuck::cast_slice_mut" => "t_cast_mut"
//@sub "bytemuck::cast_slice" => "t_cast" optional
//@sub "S::vector_" => "s_vector_"
    ensures final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> (#[trigger] final(c)@[i]).0 == if i < min3(old(c)@.len() as int, a@.len() as int, b@.len() as int) { wadd(a@[i].0, b@[i].0) } else { old(c)@[i].0 }
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for Torus>::vector_sub
//@sig fn t_vector_sub(c: &mut [Torus<WORD>], a: &[Torus<WORD>], b: &[Torus<WORD>])
//@sub "bytemuck::cast_slice_mut" => "t_cast_mut"
//@sub "bytemuck::cast_slice" => "t_cast" optional
//@sub "S::vector_" => "s_vector_"
    ensures final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> (#[trigger] final(c)@[i]).0 == if i < min3(old(c)@.len() as int, a@.len() as int, b@.len() as int) { wsub(a@[i].0, b@[i].0) } else { old(c)@[i].0 }
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for Torus>::vector_scalar_mad
//@sig fn t_vector_scalar_mad(c: &mut [Torus<WORD>], a: &[Torus<WORD>], s: Torus<WORD>)
//@sub "bytemuck::cast_slice_mut" => "t_cast_mut"
//@sub "bytemuck::cast_slice" => "t_cast" optional
//@sub "S::vector_" => "s_vector_"
    ensures final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> (#[trigger] final(c)@[i]).0 == if i < min2(old(c)@.len() as int, a@.len() as int) { wadd(old(c)@[i].0, wmul(a@[i].0, s.0)) } else { old(c)@[i].0 }
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for Torus>::vector_shr_round
//@sig fn t_vector_shr_round(c: &mut [Torus<WORD>], a: &[Torus<WORD>], n: u32)
//@sub "bytemuck::cast_slice_mut" => "t_cast_mut"
//@sub "bytemuck::cast_slice" => "t_cast" optional
//@sub "S::vector_" => "s_vector_"
    requires 1 <= n < WBITS
    ensures final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < old(c)@.len() ==> (#[trigger] final(c)@[i]).0 == if i < min2(old(c)@.len() as int, a@.len() as int) { shr_rnd(a@[i].0, n) } else { old(c)@[i].0 }
//@end
//@fn sunscreen_tfhe/src/math/simd/x86_64/mod.rs :: <VectorOps for Torus>::vector_next_decomp
//@sig fn t_vector_next_decomp(s: &mut [Torus<WORD>], r: &mut [Torus<WORD>], radix_log: usize)
//@sub "bytemuck::cast_slice_mut" => "t_cast_mut"
//@sub "bytemuck::cast_slice" => "t_cast" optional
//@sub "S::vector_" => "s_vector_"
    requires 1 <= radix_log < WBITS
    ensures final(s)@.len() == old(s)@.len(), final(r)@.len() == old(r)@.len(),
        forall|i: int| 0 <= i < old(s)@.len() ==> (#[trigger] final(s)@[i]).0 == if i < old(r)@.len() { rest_of(old(s)@[i].0, radix_log) } else { old(s)@[i].0 },
        forall|i: int| 0 <= i < old(r)@.len() ==> (#[trigger] final(r)@[i]).0 == if i < old(s)@.len() { digit_of(old(s)@[i].0, radix_log) } else { old(r)@[i].0 }
//@end
} // verus!
