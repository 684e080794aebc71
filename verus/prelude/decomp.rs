//@all "S::from_u64" => "from_u64_s"
//@all "S::BITS" => "WORD::BITS"
verus! {
//@fn sunscreen_tfhe/src/math/radix.rs :: round
//@byref
    requires radix.ok()
    ensures ret == rnd(x.0 as int, (W() - radix.radix_log.0 * radix.count.0) as nat)
//@at start
    proof { let s = W() - radix.radix_log.0 * radix.count.0; assert(radix.radix_log.0 * radix.count.0 >= 1) by (nonlinear_arith) requires radix.radix_log.0 >= 1, radix.count.0 >= 1; if s > 0 { rnd_bits(x.0, s as usize); } else { pw(); vstd::arithmetic::div_mod::lemma_small_mod(x.0 as nat, M() as nat); } }
//@end
impl<T> PolynomialRef<T> {
//@fn sunscreen_tfhe/src/entities/polynomial.rs :: PolynomialRef::map_into
//@sig fn map_into<F: Fn(&T) -> U, U: Clone>(&self, dst: &mut PolynomialRef<U>, f: F)
        requires old(dst).data@.len() == self.data@.len(), forall|x: &T| #[trigger] f.requires((x,))
        ensures final(dst).data@.len() == old(dst).data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> f.ensures((&self.data@[i],), #[trigger] final(dst).data@[i])
//@at loop 0
    invariant __n0 == self.data@.len(), __s0_0@.len() == __n0, __s0_1@ == self.data@, __i0 <= __n0, forall|x: &T| #[trigger] f.requires((x,)), forall|i: int| 0 <= i < __i0 ==> f.ensures((&self.data@[i],), #[trigger] __s0_0@[i])
    decreases __n0 - __i0
//@end
}
pub struct PolynomialRadixIterator<'a, S> { pub scratch: &'a mut PolynomialRef<S>, pub level: usize, pub radix: RadixDecomposition }
impl<'a> PolynomialRadixIterator<'a, WORD> {
//@fn sunscreen_tfhe/src/math/radix.rs :: PolynomialRadixIterator::new
//@sub "radix.to_owned()" => "*radix" optional
//@sub "|x| round(*x, radix)" => "|x: &Torus<WORD>| -> (r: WORD) requires radix.ok() ensures r == rnd(x.0 as int, (W() - radix.radix_log.0 * radix.count.0) as nat) { round(*x, radix) }"
        requires radix.ok(), radix.radix_log.0 * radix.count.0 < W(), old(scratch).data@.len() == poly.data@.len()
        ensures final(ret.scratch).data@ == final(scratch).data@, ret.level == 0, ret.radix == *radix, ret.scratch.data@.len() == poly.data@.len(), forall|i: int| 0 <= i < poly.data@.len() ==> (#[trigger] ret.scratch.data@[i]) == rnd(poly.data@[i].0 as int, (W() - radix.radix_log.0 * radix.count.0) as nat)
//@at start
    proof { assert(radix.radix_log.0 * radix.count.0 >= 1) by (nonlinear_arith) requires radix.radix_log.0 >= 1, radix.count.0 >= 1; }
//@end
//@fn sunscreen_tfhe/src/math/radix.rs :: PolynomialRadixIterator::write_next
//@sub "S::vector_next_decomp" => "s_vector_next_decomp"
        requires old(self).radix.ok(), old(self).level <= old(self).radix.count.0, old(dst).data@.len() == old(self).scratch.data@.len()
        ensures final(final(self).scratch).data@ == final(old(self).scratch).data@, final(self).radix == old(self).radix, final(dst).data@.len() == old(dst).data@.len(), final(self).scratch.data@.len() == old(self).scratch.data@.len(),
            ret is None <==> old(self).level == old(self).radix.count.0,
            ret is None ==> final(self).level == old(self).level && final(dst).data@ == old(dst).data@,
            ret is Some ==> final(self).level == old(self).level + 1 && forall|i: int| 0 <= i < old(dst).data@.len() ==> #[trigger] final(dst).data@[i] == digit_of(old(self).scratch.data@[i], old(self).radix.radix_log.0),
            ret is Some ==> forall|i: int| 0 <= i < old(dst).data@.len() ==> #[trigger] final(self).scratch.data@[i] == rest_of(old(self).scratch.data@[i], old(self).radix.radix_log.0)
//@end
}
} // verus!
