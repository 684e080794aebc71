//@include ../prelude/lwe.rs
//@include ../prelude/lweops.rs
verus! {
//@fn sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs :: add_lwe_inplace
    requires old(c).wf(params.dim.0 as int), a.wf(params.dim.0 as int)
    ensures final(c).wf(params.dim.0 as int), forall|i: int| 0 <= i <= params.dim.0 ==> (#[trigger] final(c).data@[i]).0 == wadd(old(c).data@[i].0, a.data@[i].0)
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __n0 == params.dim.0, __s0_0@.len() == __n0, __s0_1@.len() == __n0, c0.len() == __n0, __i0 <= __n0,
        forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0_0@[j]).0 == if j < __i0 { wadd(c0[j].0, __s0_1@[j].0) } else { c0[j].0 }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/ops/homomorphisms/lwe.rs :: lwe_rotate
    requires old(output).wf(lwe.dim.0 as int), input.wf(lwe.dim.0 as int)
    ensures final(output).wf(lwe.dim.0 as int), forall|i: int| 0 <= i < lwe.dim.0 ==> (#[trigger] final(output).data@[i]) == input.data@[i], final(output).data@[lwe.dim.0 as int].0 == wadd(input.data@[lwe.dim.0 as int].0, amount.0)
//@end
pub struct LweCiphertext<S> { pub data: Vec<Torus<S>> }
impl LweCiphertext<WORD> {
//@fn sunscreen_tfhe/src/macros.rs :: <AddAssign for LweCiphertext>::add_assign
//@macro impl_binary_op(Add, LweCiphertext)
        requires old(self).data@.len() == rhs.data@.len()
        ensures final(self).data@.len() == old(self).data@.len(), forall|i: int| 0 <= i < old(self).data@.len() ==> (#[trigger] final(self).data@[i]).0 == wadd(old(self).data@[i].0, rhs.data@[i].0)
//@at loop 0
    invariant __n0 == old(self).data@.len(), __s0_0@.len() == __n0, __s0_1@ == rhs.data@, rhs.data@.len() == __n0, __i0 <= __n0,
        forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0_0@[j]).0 == if j < __i0 { wadd(old(self).data@[j].0, __s0_1@[j].0) } else { old(self).data@[j].0 }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/macros.rs :: <SubAssign for LweCiphertext>::sub_assign
//@macro impl_binary_op(Sub, LweCiphertext)
        requires old(self).data@.len() == rhs.data@.len()
        ensures final(self).data@.len() == old(self).data@.len(), forall|i: int| 0 <= i < old(self).data@.len() ==> (#[trigger] final(self).data@[i]).0 == wsub(old(self).data@[i].0, rhs.data@[i].0)
//@at loop 0
    invariant __n0 == old(self).data@.len(), __s0_0@.len() == __n0, __s0_1@ == rhs.data@, rhs.data@.len() == __n0, __i0 <= __n0,
        forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0_0@[j]).0 == if j < __i0 { wsub(old(self).data@[j].0, __s0_1@[j].0) } else { old(self).data@[j].0 }
    decreases __n0 - __i0
//@end
}
} // verus!
//@include ../prelude/lwephase.rs
fn main() {}
