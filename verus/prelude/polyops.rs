verus! {
// ---- elementwise polynomial operations on the torus ---------------------------------------------
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_add
//@sig fn polynomial_add(c: &mut TP, a: &TP, b: &TP)
//@sub "S::vector_add" => "t_vector_add"
    requires old(c).data@.len() == a.data@.len(), a.data@.len() == b.data@.len()
    ensures final(c).data@.len() == old(c).data@.len(), forall|i: int| 0 <= i < old(c).data@.len() ==> (#[trigger] final(c).data@[i]).0 == wadd(a.data@[i].0, b.data@[i].0)
//@end
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_sub
//@sig fn polynomial_sub(c: &mut TP, a: &TP, b: &TP)
//@sub "S::vector_sub" => "t_vector_sub"
    requires old(c).data@.len() == a.data@.len(), a.data@.len() == b.data@.len()
    ensures final(c).data@.len() == old(c).data@.len(), forall|i: int| 0 <= i < old(c).data@.len() ==> (#[trigger] final(c).data@[i]).0 == wsub(a.data@[i].0, b.data@[i].0)
//@end
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_add_assign
//@sig fn polynomial_add_assign(lhs: &mut TP, rhs: &TP)
    requires old(lhs).data@.len() == rhs.data@.len()
    ensures final(lhs).data@.len() == old(lhs).data@.len(), forall|i: int| 0 <= i < old(lhs).data@.len() ==> (#[trigger] final(lhs).data@[i]).0 == wadd(old(lhs).data@[i].0, rhs.data@[i].0)
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __n0 == c0.len(), c0 == old(lhs).data@, c0.len() == rhs.data@.len(), __s0_0@.len() == __n0, __s0_1@ == rhs.data@, __i0 <= __n0,
        forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s0_0@[i]).0 == if i < __i0 { wadd(c0[i].0, rhs.data@[i].0) } else { c0[i].0 }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_sub_assign
//@sig fn polynomial_sub_assign(lhs: &mut TP, rhs: &TP)
    requires old(lhs).data@.len() == rhs.data@.len()
    ensures final(lhs).data@.len() == old(lhs).data@.len(), forall|i: int| 0 <= i < old(lhs).data@.len() ==> (#[trigger] final(lhs).data@[i]).0 == wsub(old(lhs).data@[i].0, rhs.data@[i].0)
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __n0 == c0.len(), c0 == old(lhs).data@, c0.len() == rhs.data@.len(), __s0_0@.len() == __n0, __s0_1@ == rhs.data@, __i0 <= __n0,
        forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s0_0@[i]).0 == if i < __i0 { wsub(c0[i].0, rhs.data@[i].0) } else { c0[i].0 }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_negate
//@sig fn polynomial_negate(c: &mut TP)
    ensures final(c).data@.len() == old(c).data@.len(), forall|i: int| 0 <= i < old(c).data@.len() ==> (#[trigger] final(c).data@[i]).0 == wneg(old(c).data@[i].0)
//@at init 0
    let ghost c0 = __s0_0@;
//@at loop 0
    invariant __n0 == c0.len(), c0 == old(c).data@, __s0_0@.len() == __n0, __i0 <= __n0,
        forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s0_0@[i]).0 == if i < __i0 { wneg(c0[i].0) } else { c0[i].0 }
    decreases __n0 - __i0
//@end
//@fn sunscreen_tfhe/src/math/polynomial.rs :: polynomial_small_scalar_mad
//@sig fn polynomial_small_scalar_mad(c: &mut TP, a: &TP, s: Torus<WORD>)
//@sub "T::vector_scalar_mad" => "t_vector_scalar_mad"
    requires old(c).data@.len() == a.data@.len()
    ensures final(c).data@.len() == old(c).data@.len(), forall|i: int| 0 <= i < old(c).data@.len() ==> (#[trigger] final(c).data@[i]).0 == wadd(old(c).data@[i].0, wmul(a.data@[i].0, s.0))
//@end
//@fn sunscreen_tfhe/src/ops/polynomial/mod.rs :: polynomial_shr_round
//@sig fn polynomial_shr_round(y: &mut TP, x: &TP, n: u32)
//@sub "S::vector_shr_round" => "t_vector_shr_round"
    requires 1 <= n < WBITS, old(y).data@.len() == x.data@.len()
    ensures final(y).data@.len() == old(y).data@.len(), forall|i: int| 0 <= i < old(y).data@.len() ==> (#[trigger] final(y).data@[i]).0 == shr_rnd(x.data@[i].0, n)
//@end
} // verus!
