//@include ../prelude/base.rs
//@include ../prelude/guest.rs
//@include ../prelude/ctbits.rs
//@include ../prelude/guestargs.rs
verus! {
// ---- encrypted integers and arrays as arguments -----------------------------------------------------
/// powers of two are known by name only: what to_bytes rejects does not matter here
pub uninterp spec fn pow2u(x: int) -> bool;
pub assume_specification[ usize::is_power_of_two ](x: usize) -> (r: bool) ensures r == pow2u(x as int);
/// byte i of encrypted bits, and bytes i .. n of them
pub open spec fn cbyte(c: CtBits, i: int) -> Byte { Byte::Ciphertext(CtBits { b: Ghost(c.bits().subrange(8 * i, 8 * i + 8)) }) }
pub open spec fn cbytes(c: CtBits, n: int) -> Seq<Byte> { Seq::new(n as nat, |i: int| cbyte(c, i)) }
/// the bits that bytes hold, in order
pub open spec fn cat(b: Seq<Byte>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { cat(b, n - 1) + b[n - 1]->Ciphertext_0.bits() } }
pub open spec fn all_cipher(b: Seq<Byte>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] b[i] is Ciphertext }
/// the bits of a value come back from its bytes, in order
pub proof fn cat_back(c: CtBits, n: int) requires 0 <= n, 8 * n <= c.bits().len() ensures cat(cbytes(c, n), n) == c.bits().subrange(0, 8 * n) { cat_upto(c, n, n); }
proof fn cat_upto(c: CtBits, n: int, k: int) requires 0 <= k <= n, 8 * n <= c.bits().len() ensures cat(cbytes(c, n), k) =~= c.bits().subrange(0, 8 * k) decreases k { if k > 0 { cat_upto(c, n, k - 1); assert(cbytes(c, n)[k - 1] == cbyte(c, k - 1)); assert(c.bits().subrange(0, 8 * k) =~= c.bits().subrange(0, 8 * (k - 1)) + c.bits().subrange(8 * (k - 1), 8 * k)); } else { assert(c.bits().subrange(0, 0) =~= Seq::<int>::empty()); } }
pub struct UInt<const N: usize> { pub bits: CtBits }
impl<const N: usize> UInt<N> { pub fn from_bits_shallow(bits: CtBits) -> (r: Self) ensures r.bits == bits { UInt { bits } } }
impl<const N: usize> ToArg for UInt<N> {
    open spec fn al() -> int { N as int / 8 } open spec fn sz() -> int { N as int / 8 }
    open spec fn okt() -> bool { N % 8 == 0 && pow2u(N as int) } open spec fn ok(&self) -> bool { self.bits.bits().len() == N }
    open spec fn bytes(&self) -> Seq<Byte> { cbytes(self.bits, N as int / 8) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { if b.len() != N as int / 8 { r == Err::<Self, Error>(Error::TypeSizeMismatch) } else if !all_cipher(b, b.len() as int) { r == Err::<Self, Error>(Error::EncryptionMismatch) } else { r is Ok && r->Ok_0.bits.bits() == cat(b, b.len() as int) } }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for UInt<N,L1GlweCiphertext>>::alignment
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for UInt<N,L1GlweCiphertext>>::size
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for UInt<N,L1GlweCiphertext>>::to_bytes
//@at start
    let ghost g = self.bits; let ghost k = g.bits().len() as int / 8;
    proof {  assert((g.bits().len() + 7) / 8 == k); }
//@at loop 0
    invariant __n0 == k, *__e0_0 == g, g == self.bits, __i0 <= k, g.bits().len() == 8 * k, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == cbyte(g, i)
    decreases k - __i0
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for UInt<N,L1GlweCiphertext>>::try_from_bytes
//@slice data taken
//@slice __w0 taken
//@sub "let mut __v1 = Vec::new();" => "let mut __v1 = CtBits::new();"
//@at start
    let ghost d = data@;
    proof { assert(d.take(d.len() as int) =~= d); }
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == d.len(), __i0 <= __n0, __v0@.len() == __i0, all_cipher(d, __i0 as int), forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == d[i]->Ciphertext_0, d.len() == N as int / 8
    decreases __n0 - __i0
//@at start 0
    proof { if d[__j0 as int] is Plaintext { assert(!all_cipher(d, d.len() as int)); } }
//@at loop 1
    invariant __s1_0@.len() == d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] __s1_0@[i] == d[i]->Ciphertext_0, __n1 == d.len(), __i1 <= __n1, __v1.bits() == cat(d, __i1 as int)
    decreases __n1 - __i1
//@end
}
/// an encrypted integer comes back with the same bits, in order
pub proof fn uint_back<const N: usize>(x: UInt<N>, r: Result<UInt<N>>) requires N % 8 == 0, x.ok(), UInt::<N>::back(x.bytes(), r) ensures r is Ok, r->Ok_0.bits == x.bits { cat_back(x.bits, N as int / 8); assert(all_cipher(x.bytes(), x.bytes().len() as int)); assert(x.bits.bits().subrange(0, N as int) =~= x.bits.bits()); }
pub struct Int<const N: usize> { pub bits: CtBits }
impl<const N: usize> Int<N> { pub fn from_bits_shallow(bits: CtBits) -> (r: Self) ensures r.bits == bits { Int { bits } } }
impl<const N: usize> ToArg for Int<N> {
    open spec fn al() -> int { N as int / 8 } open spec fn sz() -> int { N as int / 8 }
    open spec fn okt() -> bool { N % 8 == 0 && pow2u(N as int) } open spec fn ok(&self) -> bool { self.bits.bits().len() == N }
    open spec fn bytes(&self) -> Seq<Byte> { cbytes(self.bits, N as int / 8) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { if b.len() != N as int / 8 { r == Err::<Self, Error>(Error::TypeSizeMismatch) } else if !all_cipher(b, b.len() as int) { r == Err::<Self, Error>(Error::EncryptionMismatch) } else { r is Ok && r->Ok_0.bits.bits() == cat(b, b.len() as int) } }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for Int<N,L1GlweCiphertext>>::alignment
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for Int<N,L1GlweCiphertext>>::size
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for Int<N,L1GlweCiphertext>>::to_bytes
//@at start
    let ghost g = self.bits; let ghost k = g.bits().len() as int / 8;
    proof {  assert((g.bits().len() + 7) / 8 == k); }
//@at loop 0
    invariant __n0 == k, *__e0_0 == g, g == self.bits, __i0 <= k, g.bits().len() == 8 * k, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == cbyte(g, i)
    decreases k - __i0
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for Int<N,L1GlweCiphertext>>::try_from_bytes
//@slice data taken
//@slice __w0 taken
//@sub "let mut __v1 = Vec::new();" => "let mut __v1 = CtBits::new();"
//@at start
    let ghost d = data@;
    proof { assert(d.take(d.len() as int) =~= d); }
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == d.len(), __i0 <= __n0, __v0@.len() == __i0, all_cipher(d, __i0 as int), forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == d[i]->Ciphertext_0, d.len() == N as int / 8
    decreases __n0 - __i0
//@at start 0
    proof { if d[__j0 as int] is Plaintext { assert(!all_cipher(d, d.len() as int)); } }
//@at loop 1
    invariant __s1_0@.len() == d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] __s1_0@[i] == d[i]->Ciphertext_0, __n1 == d.len(), __i1 <= __n1, __v1.bits() == cat(d, __i1 as int)
    decreases __n1 - __i1
//@end
}
/// an encrypted integer comes back with the same bits, in order
pub proof fn int_back<const N: usize>(x: Int<N>, r: Result<Int<N>>) requires N % 8 == 0, x.ok(), Int::<N>::back(x.bytes(), r) ensures r is Ok, r->Ok_0.bits == x.bits { cat_back(x.bits, N as int / 8); assert(all_cipher(x.bytes(), x.bytes().len() as int)); assert(x.bits.bits().subrange(0, N as int) =~= x.bits.bits()); }
pub struct DynamicUInt { pub bits: CtBits }
impl DynamicUInt { pub fn from_bits_shallow(bits: CtBits) -> (r: Self) ensures r.bits == bits { DynamicUInt { bits } } }
impl DynamicToArg for DynamicUInt {
    open spec fn al(&self) -> int { self.bits.bits().len() as int / 8 } open spec fn sz(&self) -> int { self.bits.bits().len() as int / 8 }
    open spec fn ok(&self) -> bool { self.bits.bits().len() % 8 == 0 && pow2u(self.bits.bits().len() as int) }
    open spec fn bytes(&self) -> Seq<Byte> { cbytes(self.bits, self.bits.bits().len() as int / 8) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { if !all_cipher(b, b.len() as int) { r == Err::<Self, Error>(Error::EncryptionMismatch) } else { r is Ok && r->Ok_0.bits.bits() == cat(b, b.len() as int) } }
//@fn parasol_cpu/src/proc/args.rs :: <DynamicToArg for DynamicUInt<L1GlweCiphertext>>::alignment
//@end
//@fn parasol_cpu/src/proc/args.rs :: <DynamicToArg for DynamicUInt<L1GlweCiphertext>>::size
//@end
//@fn parasol_cpu/src/proc/args.rs :: <DynamicToArg for DynamicUInt<L1GlweCiphertext>>::to_bytes
//@at start
    let ghost g = self.bits; let ghost k = g.bits().len() as int / 8;
    proof {  assert((g.bits().len() + 7) / 8 == k); }
//@at loop 0
    invariant __n0 == k, *__e0_0 == g, g == self.bits, __i0 <= k, g.bits().len() == 8 * k, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == cbyte(g, i)
    decreases k - __i0
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <DynamicToArg for DynamicUInt<L1GlweCiphertext>>::try_from_bytes
//@slice data taken
//@slice __w0 taken
//@sub "let mut __v1 = Vec::new();" => "let mut __v1 = CtBits::new();"
//@at start
    let ghost d = data@;
    proof { assert(d.take(d.len() as int) =~= d); }
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == d.len(), __i0 <= __n0, __v0@.len() == __i0, all_cipher(d, __i0 as int), forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == d[i]->Ciphertext_0
    decreases __n0 - __i0
//@at start 0
    proof { if d[__j0 as int] is Plaintext { assert(!all_cipher(d, d.len() as int)); } }
//@at loop 1
    invariant __s1_0@.len() == d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] __s1_0@[i] == d[i]->Ciphertext_0, __n1 == d.len(), __i1 <= __n1, __v1.bits() == cat(d, __i1 as int)
    decreases __n1 - __i1
//@end
}
pub struct DynamicInt { pub bits: CtBits }
impl DynamicInt { pub fn from_bits_shallow(bits: CtBits) -> (r: Self) ensures r.bits == bits { DynamicInt { bits } } }
impl DynamicToArg for DynamicInt {
    open spec fn al(&self) -> int { self.bits.bits().len() as int / 8 } open spec fn sz(&self) -> int { self.bits.bits().len() as int / 8 }
    open spec fn ok(&self) -> bool { self.bits.bits().len() % 8 == 0 && pow2u(self.bits.bits().len() as int) }
    open spec fn bytes(&self) -> Seq<Byte> { cbytes(self.bits, self.bits.bits().len() as int / 8) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { if !all_cipher(b, b.len() as int) { r == Err::<Self, Error>(Error::EncryptionMismatch) } else { r is Ok && r->Ok_0.bits.bits() == cat(b, b.len() as int) } }
//@fn parasol_cpu/src/proc/args.rs :: <DynamicToArg for DynamicInt<L1GlweCiphertext>>::alignment
//@end
//@fn parasol_cpu/src/proc/args.rs :: <DynamicToArg for DynamicInt<L1GlweCiphertext>>::size
//@end
//@fn parasol_cpu/src/proc/args.rs :: <DynamicToArg for DynamicInt<L1GlweCiphertext>>::to_bytes
//@at start
    let ghost g = self.bits; let ghost k = g.bits().len() as int / 8;
    proof {  assert((g.bits().len() + 7) / 8 == k); }
//@at loop 0
    invariant __n0 == k, *__e0_0 == g, g == self.bits, __i0 <= k, g.bits().len() == 8 * k, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == cbyte(g, i)
    decreases k - __i0
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <DynamicToArg for DynamicInt<L1GlweCiphertext>>::try_from_bytes
//@slice data taken
//@slice __w0 taken
//@sub "let mut __v1 = Vec::new();" => "let mut __v1 = CtBits::new();"
//@at start
    let ghost d = data@;
    proof { assert(d.take(d.len() as int) =~= d); }
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == d.len(), __i0 <= __n0, __v0@.len() == __i0, all_cipher(d, __i0 as int), forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == d[i]->Ciphertext_0
    decreases __n0 - __i0
//@at start 0
    proof { if d[__j0 as int] is Plaintext { assert(!all_cipher(d, d.len() as int)); } }
//@at loop 1
    invariant __s1_0@.len() == d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] __s1_0@[i] == d[i]->Ciphertext_0, __n1 == d.len(), __i1 <= __n1, __v1.bits() == cat(d, __i1 as int)
    decreases __n1 - __i1
//@end
}
// ---- arrays ----------------------------------------------------------------------------------------
pub open spec fn up(x: int, a: int) -> int { x + (a - x % a) % a }
pub assume_specification[ usize::next_multiple_of ](x: usize, a: usize) -> (r: usize) requires a > 0, up(x as int, a as int) <= usize::MAX ensures r == up(x as int, a as int);
pub proof fn up_ge(x: int, a: int) requires a > 0 ensures up(x, a) >= x { assert((a - x % a) % a >= 0) by (nonlinear_arith) requires a > 0; }
pub proof fn up_0(a: int) requires a > 0 ensures up(0, a) == 0 { vstd::arithmetic::div_mod::lemma_small_mod(0, a as nat); vstd::arithmetic::div_mod::lemma_mod_self_0(a); }
pub proof fn chunks_of(k: int, n: int) requires k > 0, n >= 0 ensures (k * n + k - 1) / k == n { assert((k * n + k - 1) / k == n) by (nonlinear_arith) requires k > 0, n >= 0; }
/// the distance between two elements
pub open spec fn stride<T: ToArg>() -> int { up(T::sz(), T::al()) }
/// an element padded to that distance by copies of its first byte
pub open spec fn padded(b: Seq<Byte>, n: int) -> Seq<Byte> { Seq::new(n as nat, |i: int| if i < b.len() { b[i] } else { b[0] }) }
pub open spec fn elems<T: ToArg>(s: Seq<T>, n: int) -> Seq<Byte> decreases n { if n <= 0 { Seq::empty() } else { elems(s, n - 1) + padded(s[n - 1].bytes(), stride::<T>()) } }
pub open spec fn part<T: ToArg>(b: Seq<Byte>, i: int) -> Seq<Byte> { b.subrange(i * stride::<T>(), i * stride::<T>() + T::sz()) }
/// an array read from bytes: every element from its part, or the first error
pub open spec fn arr_back<T: ToArg>(b: Seq<Byte>, r: Result<Seq<T>>, n: int) -> bool { match r {
    Ok(v) => v.len() == n && forall|i: int| 0 <= i < n ==> T::back(#[trigger] part::<T>(b, i), Ok(v[i])),
    Err(e) => exists|i: int| 0 <= i < n && T::back(#[trigger] part::<T>(b, i), Err(e)) } }
pub open spec fn seq_of<T, const N: usize>(r: Result<[T; N]>) -> Result<Seq<T>> { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }
pub proof fn elems_len<T: ToArg>(s: Seq<T>, n: int) requires 0 <= n, stride::<T>() >= 0 ensures elems(s, n).len() == n * stride::<T>() decreases n { if n <= 0 { assert(n * stride::<T>() == 0) by (nonlinear_arith) requires n == 0; } else { elems_len(s, n - 1); assert(n * stride::<T>() == (n - 1) * stride::<T>() + stride::<T>()) by (nonlinear_arith); } }
/// element i of an array comes back from the bytes of the array
pub proof fn elem_back<T: ToArg>(s: Seq<T>, n: int, i: int) requires 0 <= i < n, T::sz() >= 0, T::al() > 0, s[i].bytes().len() == T::sz() ensures part::<T>(elems(s, n), i) =~= s[i].bytes() decreases n {
    up_ge(T::sz(), T::al()); let k = stride::<T>(); elems_len(s, n - 1); elems_len(s, n); elems_len(s, i);
    assert(i * k + k <= n * k) by (nonlinear_arith) requires i < n, k >= 0; assert(i * k >= 0) by (nonlinear_arith) requires i >= 0, k >= 0;
    if i < n - 1 { elem_back(s, n - 1, i); assert(i * k + k <= (n - 1) * k) by (nonlinear_arith) requires i < n - 1, k >= 0; assert forall|j: int| 0 <= j < T::sz() implies part::<T>(elems(s, n), i)[j] == part::<T>(elems(s, n - 1), i)[j] by {} assert(part::<T>(elems(s, n), i) =~= part::<T>(elems(s, n - 1), i)); }
    else { assert forall|j: int| 0 <= j < T::sz() implies part::<T>(elems(s, n), i)[j] == s[i].bytes()[j] by { assert(elems(s, n)[i * k + j] == padded(s[i].bytes(), k)[j]); } }
}
/// a slice's chunks, the first n of its elements, and a Vec of N elements as an array
pub trait VecOps<T> { spec fn vw(&self) -> Seq<T>;
    fn into_array<const N: usize>(self) -> (r: [T; N]) requires self.vw().len() == N ensures r@ == self.vw(); }
impl<T> VecOps<T> for Vec<T> { open spec fn vw(&self) -> Seq<T> { self@ } #[verifier::external_body] fn into_array<const N: usize>(self) -> (r: [T; N]) { unimplemented!() } }
pub trait ByteVec { spec fn bv(&self) -> Seq<Byte>;
    fn n_chunks(&self, k: usize) -> (r: usize) requires k > 0 ensures r == (self.bv().len() + k - 1) / (k as int);
    fn chunk_at(&self, k: usize, i: usize) -> (r: Vec<Byte>) requires k > 0, 0 <= i < (self.bv().len() + k - 1) / (k as int) ensures r@ == self.bv().subrange(i * k, if i * k + k <= self.bv().len() { i * k + k } else { self.bv().len() as int });
    fn prefix(&self, n: usize) -> (r: Vec<Byte>) requires n <= self.bv().len() ensures r@ == self.bv().subrange(0, n as int); }
impl ByteVec for [Byte] { open spec fn bv(&self) -> Seq<Byte> { self@ }
    #[verifier::external_body] fn n_chunks(&self, k: usize) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn chunk_at(&self, k: usize, i: usize) -> (r: Vec<Byte>) { unimplemented!() } #[verifier::external_body] fn prefix(&self, n: usize) -> (r: Vec<Byte>) { unimplemented!() } }
impl<const N: usize, T: ToArg> ToArg for [T; N] {
    open spec fn al() -> int { T::al() } open spec fn sz() -> int { stride::<T>() * N }
    open spec fn okt() -> bool { T::okt() && T::al() > 0 && 0 <= T::sz() && stride::<T>() < usize::MAX && stride::<T>() * N < usize::MAX }
    open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).ok() && self@[i].bytes().len() == T::sz() }
    open spec fn bytes(&self) -> Seq<Byte> { if T::sz() == 0 { Seq::empty() } else { elems(self@, N as int) } }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { if b.len() != stride::<T>() * N { r == Err::<Self, Error>(Error::TypeSizeMismatch) } else { arr_back(b, seq_of(r), N as int) } }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for [T;N]>::alignment
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for [T;N]>::size
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for [T;N]>::to_bytes
//@cloned
//@slice bytes own
//@presub "vec![]" => "Vec::new()"
//@at start
    proof { up_ge(T::sz(), T::al()); if T::sz() == 0 { up_0(T::al()); assert(stride::<T>() * N == 0) by (nonlinear_arith) requires stride::<T>() == 0; } }
    let ghost k = stride::<T>();
//@at loop 0
    invariant __n0 == N, __i0 <= N, __s0_0@ == self@, T::okt(), k == stride::<T>(), T::al() > 0, 0 < T::sz() <= k, k < usize::MAX, self.ok(), __v0@ == elems(self@, __i0 as int)
    decreases N - __i0
//@at start 0
    let ghost x0 = *x; proof { assert(self@[__j0 as int].ok()); }
//@at loop 1
    invariant __s1_0@ == x0.bytes(), x0.bytes().len() == T::sz(), 0 < T::sz() <= k, __n1 == k, __i1 <= k, *__r1_1 == x0.bytes()[0], __v1@ =~= padded(x0.bytes(), k).subrange(0, __i1 as int)
    decreases k - __i1
//@at end 0
    proof { assert(padded(x0.bytes(), k).subrange(0, k) =~= padded(x0.bytes(), k)); }
//@at end-bind
    proof { elems_len(self@, N as int); assert(k * N == N * k) by (nonlinear_arith); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for [T;N]>::try_from_bytes
//@presub "vec![]" => "Vec::new()"
//@presub "as_vec.try_into().unwrap_or_else(|_| unreachable!())" => "as_vec.into_array()"
//@presub "Ok(as_vec.unwrap_or_else(|_| unreachable!()))" => "Ok(as_vec)"
//@presub ".try_into();" => ".into_array();"
//@presub "x[..T::size()].to_owned()" => "x.prefix(T::size())"
//@at start
    let ghost d = data@; let ghost k = stride::<T>();
    proof { up_ge(T::sz(), T::al()); if T::sz() == 0 { up_0(T::al()); assert(k * N == 0) by (nonlinear_arith) requires k == 0; } }
//@at loop 0
    invariant __n0 == N, __lo0_0 == 0, __i0 <= N, T::okt(), T::sz() == 0, k == 0, k == stride::<T>(), d.len() == 0, d == data@, Self::okt(), stride::<T>() * N == 0, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> T::back(#[trigger] part::<T>(d, i), Ok(__v0@[i]))
    decreases N - __i0
//@at start 0
    proof { let i = __j0 as int; assert(i * k == 0) by (nonlinear_arith) requires k == 0; assert(part::<T>(d, i) =~= Seq::<Byte>::empty()); }
//@at init 1
    proof { chunks_of(k, N as int); }
//@at loop 1
    invariant __n1 == N, __e1_0@ == d, __i1 <= N, T::okt(), 0 < T::sz() <= k, k == stride::<T>(), k < usize::MAX, T::al() > 0, d.len() == k * N, d == data@, Self::okt(), __v1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> T::back(#[trigger] part::<T>(d, i), Ok(__v1@[i]))
    decreases N - __i1
//@at first 1
    proof { let i = __j1 as int; chunks_of(k, N as int); assert(i * k + k <= k * N && i * k >= 0) by (nonlinear_arith) requires 0 <= i < N, k >= 0; assert(d.subrange(i * k, i * k + k).subrange(0, T::sz()) =~= part::<T>(d, i)); }
//@end
}
} // verus!
fn main() {}
