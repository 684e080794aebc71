verus! {
//@fn sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs :: sub_lwe_ciphertexts
    requires old(c).wf(params.dim.0 as int), a.wf(params.dim.0 as int), b.wf(params.dim.0 as int)
    ensures final(c).wf(params.dim.0 as int), forall|i: int| 0 <= i <= params.dim.0 ==> (#[trigger] final(c).data@[i]).0 == wsub(a.data@[i].0, b.data@[i].0)
//@at loop 0
    invariant __n0 == params.dim.0, __s0_0@.len() == __n0, __s0_1@.len() == __n0, __s0_2@.len() == __n0, __i0 <= __n0,
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] __s0_0@[j]).0 == wsub(__s0_1@[j].0, __s0_2@[j].0)
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs :: scalar_mul_ciphertext_mad
    requires old(c).wf(params.dim.0 as int), a.wf(params.dim.0 as int)
    ensures final(c).wf(params.dim.0 as int), forall|i: int| 0 <= i <= params.dim.0 ==> (#[trigger] final(c).data@[i]).0 == wadd(old(c).data@[i].0, wmul(a.data@[i].0, *scalar))
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __n0 == params.dim.0, __s0_0@.len() == __n0, __s0_1@.len() == __n0, c0.len() == __n0, __i0 <= __n0,
        forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0_0@[j]).0 == if j < __i0 { wadd(c0[j].0, wmul(__s0_1@[j].0, *scalar)) } else { c0[j].0 }
    decreases __n0 - __i0
//@end
} // verus!
