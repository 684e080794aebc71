//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/radix.rs
//@include ../prelude/rnd.rs
//@include ../prelude/digits.rs
//@all "S::from_u64" => "from_u64_s"
//@all "S::BITS" => "WORD::BITS"
verus! {
pub struct ScalarRadixIterator<S> { pub cur: S, pub level: usize, pub radix: RadixDecomposition }
//@fn sunscreen_tfhe/src/math/radix.rs :: round
//@byref
    requires radix.ok()
    ensures ret == rnd(x.0 as int, (W() - radix.radix_log.0 * radix.count.0) as nat)
//@at start
    proof { let s = W() - radix.radix_log.0 * radix.count.0; assert(radix.radix_log.0 * radix.count.0 >= 1) by (nonlinear_arith) requires radix.radix_log.0 >= 1, radix.count.0 >= 1; if s > 0 { rnd_bits(x.0, s as usize); } }
//@end
//@fn sunscreen_tfhe/src/math/radix.rs :: get_next_digit
//@byref
    requires 1 <= radix_log < WBITS
    ensures *old(cur) == *final(cur) * pow2(radix_log as nat) + sd(ret), -(pow2((radix_log - 1) as nat) as int) <= sd(ret) < pow2((radix_log - 1) as nat), *final(cur) <= *old(cur) / (pow2(radix_log as nat) as WORD) + 1
//@at start
    proof { digit_bits(*cur, radix_log); assert(0x1u64 << radix_log == 0x1u64 << (radix_log as u64)) by (bit_vector) requires radix_log < WBITS; pw_lt(radix_log as nat); lemma_u64_shl_is_mul(1, radix_log as u64); }
//@end
impl ScalarRadixIterator<WORD> {
//@fn sunscreen_tfhe/src/math/radix.rs :: ScalarRadixIterator::new
    requires radix.ok()
    ensures ret.level == 0, ret.radix == *radix, ret.cur == rnd(val.0 as int, (W() - radix.radix_log.0 * radix.count.0) as nat)
//@end
//@fn sunscreen_tfhe/src/math/radix.rs :: <Iterator for ScalarRadixIterator>::next
//@sig pub fn next(&mut self) -> (ret: Option<WORD>)
    requires old(self).radix.ok(), old(self).level <= old(self).radix.count.0
    ensures final(self).radix == old(self).radix,
        ret is None <==> old(self).level == old(self).radix.count.0,
        ret is None ==> *final(self) == *old(self),
        ret is Some ==> { let d = ret->Some_0; let l = old(self).radix.radix_log.0;
            &&& final(self).level == old(self).level + 1 &&& old(self).cur == final(self).cur * pow2(l as nat) + sd(d)
            &&& -(pow2((l - 1) as nat) as int) <= sd(d) < pow2((l - 1) as nat) &&& final(self).cur <= old(self).cur / (pow2(l as nat) as WORD) + 1 }
//@end
}
/// sum_{i<n} d_i B^i, the least significant digit first
pub open spec fn wsum(d: Seq<WORD>, l: nat, n: int) -> int decreases n { if n <= 0 { 0 } else { wsum(d, l, n - 1) + sd(d[n - 1]) * pow2(l * ((n - 1) as nat)) } }
pub proof fn wsum_ext(a: Seq<WORD>, b: Seq<WORD>, l: nat, n: int) requires forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures wsum(a, l, n) == wsum(b, l, n) decreases n { if n > 0 { wsum_ext(a, b, l, n - 1); } }
/// T02 for the whole decomposition: exactly `count` digits, each within half the radix, and their weighted sum differs from the
/// element, modulo the word, by at most half of the smallest gadget factor (exactly zero when the decomposition covers every bit).
pub fn decompose(x: Torus<WORD>, radix: &RadixDecomposition) -> (v: Vec<WORD>)
    requires radix.ok()
    ensures v@.len() == radix.count.0,
        forall|i: int| 0 <= i < v@.len() ==> -(pow2((radix.radix_log.0 - 1) as nat) as int) <= #[trigger] sd(v@[i]) < pow2((radix.radix_log.0 - 1) as nat),
        ({ let sh = (W() - radix.radix_log.0 * radix.count.0) as nat; exists|carry: int| { let e = wsum(v@, radix.radix_log.0 as nat, radix.count.0 as int) * pow2(sh) - x.0 + #[trigger] (carry * M()); 2 * e <= pow2(sh) && -2 * e <= pow2(sh) && (sh == 0 ==> e == 0) } })
{
    let mut it = ScalarRadixIterator::new(x, radix);
    let mut v: Vec<WORD> = Vec::new();
    let ghost l = radix.radix_log.0 as nat; let ghost k = radix.count.0 as nat; let ghost sh = (W() - l * k) as nat; let ghost s0 = it.cur as int;
    proof { pw(); assert(l * k >= 1) by (nonlinear_arith) requires l >= 1, k >= 1; assert(s0 * pow2(0) == s0); if sh > 0 { rnd_bits(x.0, sh as usize); } else { } assert(W() - sh == l * k); assert(l * (k - 0) as nat == l * k); assert(s0 <= pow2(l * k)); assert(l * 0 == 0); }
    let mut n: usize = 0;
    loop
        invariant_except_break radix.ok(), l == radix.radix_log.0, k == radix.count.0, it.radix == *radix, it.level == n, n <= k, v@.len() == n, s0 == it.cur * pow2(l * n as nat) + wsum(v@, l, n as int), it.cur <= pow2(l * (k - n) as nat),
            forall|i: int| 0 <= i < v@.len() ==> -(pow2((l - 1) as nat) as int) <= #[trigger] sd(v@[i]) < pow2((l - 1) as nat),
        ensures n == k, v@.len() == k, s0 == it.cur * pow2(l * k) + wsum(v@, l, k as int), forall|i: int| 0 <= i < v@.len() ==> -(pow2((l - 1) as nat) as int) <= #[trigger] sd(v@[i]) < pow2((l - 1) as nat),
        decreases k - n
    {
        let ghost c = it.cur; let ghost v0 = v@;
        match it.next() {
            None => break,
            Some(d) => {
                v.push(d);
                proof {
                    wsum_ext(v0, v@, l, n as int); lemma_pow2_adds(l, l * n as nat); assert(l * (n + 1) as nat == l + l * n as nat) by (nonlinear_arith) requires l >= 0, n >= 0;
                    let (b, p) = (pow2(l) as int, pow2(l * n as nat) as int); let nx = it.cur as int; let e = sd(d);
                    assert((nx * b + e) * p == nx * (b * p) + e * p) by (nonlinear_arith);
                    let rest = (l * (k - n - 1) as nat); assert(l * (k - n) as nat == l + rest) by (nonlinear_arith) requires n < k, rest == l * (k - n - 1), l >= 0;
                    small_cur(c, it.cur, l, rest as nat); 
                }
                n = n + 1;
            }
        }
    }
    proof {
        round_err(x.0 as int, sh); lemma_pow2_adds(l * k, sh); assert(l * k + sh == WBITS);
        let (p, q) = (pow2(l * k) as int, pow2(sh) as int); let c = it.cur as int; let w = wsum(v@, l, k as int);
        assert((c * p + w) * q == c * (p * q) + w * q) by (nonlinear_arith);
        assert(w * q - x.0 + c * M() == s0 * q - x.0);
    }
    v
}
//@fn sunscreen_tfhe/src/math/radix.rs :: scale_by_decomposition_factor
//@byref
//@sub "<S as sunscreen_math::One>::one()" => "(1 as WORD)"
    requires radix.radix_log.0 >= 1, 1 <= radix.radix_log.0 * (j + 1) <= W()
    ensures ret == md(val * pow2((W() - radix.radix_log.0 * (j + 1)) as nat))
//@at start
    proof { let s = (W() - radix.radix_log.0 * (j + 1)) as usize; assert((1 as WORD) << s == (1 as WORD) << (s as WORD)) by (bit_vector) requires s < WBITS; one_shl(s as WORD); pw_lt(s as nat); assert(j + 1 <= W()) by (nonlinear_arith) requires radix.radix_log.0 >= 1, radix.radix_log.0 * (j + 1) <= W(); }
//@end
} // verus!
fn main() {}
