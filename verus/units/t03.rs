//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
//@include ../prelude/poly.rs
//@include ../prelude/decomp.rs
fn main() {}
verus! {
pub struct ScalarRadixIterator<S> { pub cur: S, pub level: usize, pub radix: RadixDecomposition }
//@fn sunscreen_tfhe/src/math/radix.rs :: get_next_digit
//@byref
    requires 1 <= radix_log < WBITS
    ensures *final(cur) == rest_of(*old(cur), radix_log), ret == digit_of(*old(cur), radix_log)
//@at start
    proof { mask_val(radix_log); carry_fits(*cur, radix_log); }
//@end
/// the carry never overflows the word
proof fn carry_fits(c: WORD, l: usize) requires 1 <= l < WBITS ensures ({ let d0 = c & ((pow2(l as nat) - 1) as WORD); (c >> l) + (d0 >> ((l - 1) as usize)) <= WORD::MAX })
{
    let m = (pow2(l as nat) - 1) as WORD; mask_val(l); let d0 = c & m; let l1 = (l - 1) as usize; let one = 1 as WORD;
    one_shl(l as WORD); assert(one << l == one << (l as WORD)) by (bit_vector) requires l < WBITS; 
    assert((c >> l) <= WORD::MAX / 2) by (bit_vector) requires 1 <= l < WBITS;
    assert((d0 >> l1) <= 1) by (bit_vector) requires d0 == c & m, m == sub(one << l, 1), l1 == l - 1, one == 1, 1 <= l < WBITS;
}
impl ScalarRadixIterator<WORD> {
//@fn sunscreen_tfhe/src/math/radix.rs :: ScalarRadixIterator::new
    requires radix.ok()
    ensures ret.level == 0, ret.radix == *radix, ret.cur == rnd(val.0 as int, (W() - radix.radix_log.0 * radix.count.0) as nat)
//@end
//@fn sunscreen_tfhe/src/math/radix.rs :: <Iterator for ScalarRadixIterator>::next
//@sig pub fn next(&mut self) -> (ret: Option<WORD>)
    requires old(self).radix.ok(), old(self).level <= old(self).radix.count.0
    ensures final(self).radix == old(self).radix,
        ret is None <==> old(self).level == old(self).radix.count.0,
        ret is None ==> *final(self) == *old(self),
        ret is Some ==> final(self).level == old(self).level + 1 && ret->Some_0 == digit_of(old(self).cur, old(self).radix.radix_log.0) && final(self).cur == rest_of(old(self).cur, old(self).radix.radix_log.0)
//@end
}
/// T03: decomposing a polynomial level by level gives, at every level and for every coefficient, the digit the scalar
/// decomposition of that coefficient gives at that level, and both end after the same number of levels.
pub fn lockstep(poly: &TP, scratch: &mut PolynomialRef<WORD>, dst: &mut PolynomialRef<WORD>, radix: &RadixDecomposition, k: usize)
    requires radix.ok(), radix.radix_log.0 * radix.count.0 < W(), old(scratch).data@.len() == poly.data@.len(), old(dst).data@.len() == poly.data@.len(), k < poly.data@.len()
{
    let mut p = PolynomialRadixIterator::new(poly, scratch, radix);
    let mut s = ScalarRadixIterator::new(poly.data[k], radix);
    let mut n: usize = 0;
    loop
        invariant_except_break radix.ok(), p.radix == *radix, s.radix == *radix, p.level == n, s.level == n, n <= radix.count.0, dst.data@.len() == poly.data@.len(), p.scratch.data@.len() == poly.data@.len(), k < poly.data@.len(), p.scratch.data@[k as int] == s.cur,
        ensures n == radix.count.0
        decreases radix.count.0 - n
    {
        let a = p.write_next(dst); let b = s.next();
        match b {
            None => { assert(a is None); break; }
            Some(d) => { assert(a is Some); assert(dst.data@[k as int] == d); assert(p.scratch.data@[k as int] == s.cur); n = n + 1; }
        }
    }
}
} // verus!
