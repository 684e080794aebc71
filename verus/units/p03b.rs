//@include ../prelude/base.rs
//@include ../prelude/guest.rs
//@include ../prelude/guestargs.rs
verus! {
// ---- the primitive types as arguments -------------------------------------------------------------
pub open spec fn plain(b: Seq<Byte>, i: int) -> u8 { b[i]->Plaintext_0 }
pub open spec fn all_plain(b: Seq<Byte>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] b[i] is Plaintext }
/// <[T; N]>::into_iter().collect::<Vec<_>>()
pub trait VecOf { spec fn all(&self) -> Seq<Byte>; fn vec_of(self) -> (r: Vec<Byte>) ensures r@ == self.all(); }
impl<const N: usize> VecOf for [Byte; N] { open spec fn all(&self) -> Seq<Byte> { self@ } #[verifier::external_body] fn vec_of(self) -> (r: Vec<Byte>) { unimplemented!() } }
// u8
/// byte i of the little-endian representation
pub open spec fn byte_u8(x: u8, i: int) -> u8 { ((x as u8) >> ((8 * i) as usize)) as u8 }
/// u8::to_le_bytes, and the size and alignment the language gives u8
#[verifier::external_body] pub fn le_u8(x: u8) -> (r: [u8; 1]) ensures r@.len() == 1, forall|i: int| 0 <= i < 1 ==> #[trigger] r@[i] == byte_u8(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_u8() -> (r: usize) ensures r == 1 { core::mem::align_of::<u8>() }
#[verifier::external_body] pub fn size_u8() -> (r: usize) ensures r == 1 { core::mem::size_of::<u8>() }
/// the value whose first n bytes are given
pub open spec fn val_u8(b: Seq<Byte>, n: usize) -> u8 decreases n { if n == 0 { 0 } else { val_u8(b, (n - 1) as usize) | ((plain(b, n - 1) as u8) << ((8 * (n - 1)) as usize)) } }
impl ToArg for u8 {
    open spec fn al() -> int { 1 } open spec fn sz() -> int { 1 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(1, |i: int| Byte::Plaintext(byte_u8(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 1 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 1) { Err(Error::EncryptionMismatch) } else { Ok(val_u8(b, 1)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u8>::alignment
//@macro primitive_impl_to_arg(u8)
//@sub "std::mem::align_of::<u8>()" => "align_u8()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u8>::size
//@macro primitive_impl_to_arg(u8)
//@sub "std::mem::size_of::<u8>()" => "size_u8()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u8>::to_bytes
//@macro primitive_impl_to_arg(u8)
//@slice self.to_le_bytes() array 1
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_u8(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u8>::try_from_bytes
//@macro primitive_impl_to_arg(u8)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 1, d.len() == 1, __i0 <= 1, all_plain(d, __i0 as int), val == val_u8(d, __i0)
    decreases 1 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 1)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_u8(x: u8) ensures forall|r: Result<u8>| u8::back(x.bytes(), r) <==> r == Ok::<u8, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_u8, 2);
    let b0 = plain(b, 0); assert(b0 == ((x as u8) >> 0usize) as u8);
    assert(((0 as u8) | ((b0 as u8) << 0usize)) == x) by (bit_vector) requires b0 == ((x as u8) >> 0usize) as u8;
    assert(val_u8(b, 1) == ((0 as u8) | ((b0 as u8) << 0usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_u8(b: Seq<Byte>) requires b.len() == 1, all_plain(b, 1) ensures val_u8(b, 1).bytes() =~= b {
    let x = val_u8(b, 1); reveal_with_fuel(val_u8, 2);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    assert(x == ((0 as u8) | ((b0 as u8) << 0usize)));
    assert(((x as u8) >> 0usize) as u8 == b0) by (bit_vector) requires x == ((0 as u8) | ((b0 as u8) << 0usize));
    assert forall|i: int| 0 <= i < 1 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_u8(x, 0) == b0); } }
}
// u16
/// byte i of the little-endian representation
pub open spec fn byte_u16(x: u16, i: int) -> u8 { ((x as u16) >> ((8 * i) as usize)) as u8 }
/// u16::to_le_bytes, and the size and alignment the language gives u16
#[verifier::external_body] pub fn le_u16(x: u16) -> (r: [u8; 2]) ensures r@.len() == 2, forall|i: int| 0 <= i < 2 ==> #[trigger] r@[i] == byte_u16(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_u16() -> (r: usize) ensures r == 2 { core::mem::align_of::<u16>() }
#[verifier::external_body] pub fn size_u16() -> (r: usize) ensures r == 2 { core::mem::size_of::<u16>() }
/// the value whose first n bytes are given
pub open spec fn val_u16(b: Seq<Byte>, n: usize) -> u16 decreases n { if n == 0 { 0 } else { val_u16(b, (n - 1) as usize) | ((plain(b, n - 1) as u16) << ((8 * (n - 1)) as usize)) } }
impl ToArg for u16 {
    open spec fn al() -> int { 2 } open spec fn sz() -> int { 2 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(2, |i: int| Byte::Plaintext(byte_u16(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 2 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 2) { Err(Error::EncryptionMismatch) } else { Ok(val_u16(b, 2)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u16>::alignment
//@macro primitive_impl_to_arg(u16)
//@sub "std::mem::align_of::<u16>()" => "align_u16()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u16>::size
//@macro primitive_impl_to_arg(u16)
//@sub "std::mem::size_of::<u16>()" => "size_u16()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u16>::to_bytes
//@macro primitive_impl_to_arg(u16)
//@slice self.to_le_bytes() array 2
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_u16(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u16>::try_from_bytes
//@macro primitive_impl_to_arg(u16)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 2, d.len() == 2, __i0 <= 2, all_plain(d, __i0 as int), val == val_u16(d, __i0)
    decreases 2 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 2)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_u16(x: u16) ensures forall|r: Result<u16>| u16::back(x.bytes(), r) <==> r == Ok::<u16, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_u16, 3);
    let b0 = plain(b, 0); assert(b0 == ((x as u16) >> 0usize) as u8);
    let b1 = plain(b, 1); assert(b1 == ((x as u16) >> 8usize) as u8);
    assert((((0 as u16) | ((b0 as u16) << 0usize)) | ((b1 as u16) << 8usize)) == x) by (bit_vector) requires b0 == ((x as u16) >> 0usize) as u8, b1 == ((x as u16) >> 8usize) as u8;
    assert(val_u16(b, 2) == (((0 as u16) | ((b0 as u16) << 0usize)) | ((b1 as u16) << 8usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_u16(b: Seq<Byte>) requires b.len() == 2, all_plain(b, 2) ensures val_u16(b, 2).bytes() =~= b {
    let x = val_u16(b, 2); reveal_with_fuel(val_u16, 3);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    let b1 = plain(b, 1); assert(b[1] is Plaintext);
    assert(x == (((0 as u16) | ((b0 as u16) << 0usize)) | ((b1 as u16) << 8usize)));
    assert(((x as u16) >> 0usize) as u8 == b0) by (bit_vector) requires x == (((0 as u16) | ((b0 as u16) << 0usize)) | ((b1 as u16) << 8usize));
    assert(((x as u16) >> 8usize) as u8 == b1) by (bit_vector) requires x == (((0 as u16) | ((b0 as u16) << 0usize)) | ((b1 as u16) << 8usize));
    assert forall|i: int| 0 <= i < 2 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_u16(x, 0) == b0); } else if i == 1 { assert(byte_u16(x, 1) == b1); } }
}
// u32
/// byte i of the little-endian representation
pub open spec fn byte_u32(x: u32, i: int) -> u8 { ((x as u32) >> ((8 * i) as usize)) as u8 }
/// u32::to_le_bytes, and the size and alignment the language gives u32
#[verifier::external_body] pub fn le_u32(x: u32) -> (r: [u8; 4]) ensures r@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == byte_u32(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_u32() -> (r: usize) ensures r == 4 { core::mem::align_of::<u32>() }
#[verifier::external_body] pub fn size_u32() -> (r: usize) ensures r == 4 { core::mem::size_of::<u32>() }
/// the value whose first n bytes are given
pub open spec fn val_u32(b: Seq<Byte>, n: usize) -> u32 decreases n { if n == 0 { 0 } else { val_u32(b, (n - 1) as usize) | ((plain(b, n - 1) as u32) << ((8 * (n - 1)) as usize)) } }
impl ToArg for u32 {
    open spec fn al() -> int { 4 } open spec fn sz() -> int { 4 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(4, |i: int| Byte::Plaintext(byte_u32(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 4 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 4) { Err(Error::EncryptionMismatch) } else { Ok(val_u32(b, 4)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u32>::alignment
//@macro primitive_impl_to_arg(u32)
//@sub "std::mem::align_of::<u32>()" => "align_u32()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u32>::size
//@macro primitive_impl_to_arg(u32)
//@sub "std::mem::size_of::<u32>()" => "size_u32()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u32>::to_bytes
//@macro primitive_impl_to_arg(u32)
//@slice self.to_le_bytes() array 4
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_u32(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u32>::try_from_bytes
//@macro primitive_impl_to_arg(u32)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 4, d.len() == 4, __i0 <= 4, all_plain(d, __i0 as int), val == val_u32(d, __i0)
    decreases 4 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 4)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_u32(x: u32) ensures forall|r: Result<u32>| u32::back(x.bytes(), r) <==> r == Ok::<u32, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_u32, 5);
    let b0 = plain(b, 0); assert(b0 == ((x as u32) >> 0usize) as u8);
    let b1 = plain(b, 1); assert(b1 == ((x as u32) >> 8usize) as u8);
    let b2 = plain(b, 2); assert(b2 == ((x as u32) >> 16usize) as u8);
    let b3 = plain(b, 3); assert(b3 == ((x as u32) >> 24usize) as u8);
    assert((((((0 as u32) | ((b0 as u32) << 0usize)) | ((b1 as u32) << 8usize)) | ((b2 as u32) << 16usize)) | ((b3 as u32) << 24usize)) == x) by (bit_vector) requires b0 == ((x as u32) >> 0usize) as u8, b1 == ((x as u32) >> 8usize) as u8, b2 == ((x as u32) >> 16usize) as u8, b3 == ((x as u32) >> 24usize) as u8;
    assert(val_u32(b, 4) == (((((0 as u32) | ((b0 as u32) << 0usize)) | ((b1 as u32) << 8usize)) | ((b2 as u32) << 16usize)) | ((b3 as u32) << 24usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_u32(b: Seq<Byte>) requires b.len() == 4, all_plain(b, 4) ensures val_u32(b, 4).bytes() =~= b {
    let x = val_u32(b, 4); reveal_with_fuel(val_u32, 5);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    let b1 = plain(b, 1); assert(b[1] is Plaintext);
    let b2 = plain(b, 2); assert(b[2] is Plaintext);
    let b3 = plain(b, 3); assert(b[3] is Plaintext);
    assert(x == (((((0 as u32) | ((b0 as u32) << 0usize)) | ((b1 as u32) << 8usize)) | ((b2 as u32) << 16usize)) | ((b3 as u32) << 24usize)));
    assert(((x as u32) >> 0usize) as u8 == b0) by (bit_vector) requires x == (((((0 as u32) | ((b0 as u32) << 0usize)) | ((b1 as u32) << 8usize)) | ((b2 as u32) << 16usize)) | ((b3 as u32) << 24usize));
    assert(((x as u32) >> 8usize) as u8 == b1) by (bit_vector) requires x == (((((0 as u32) | ((b0 as u32) << 0usize)) | ((b1 as u32) << 8usize)) | ((b2 as u32) << 16usize)) | ((b3 as u32) << 24usize));
    assert(((x as u32) >> 16usize) as u8 == b2) by (bit_vector) requires x == (((((0 as u32) | ((b0 as u32) << 0usize)) | ((b1 as u32) << 8usize)) | ((b2 as u32) << 16usize)) | ((b3 as u32) << 24usize));
    assert(((x as u32) >> 24usize) as u8 == b3) by (bit_vector) requires x == (((((0 as u32) | ((b0 as u32) << 0usize)) | ((b1 as u32) << 8usize)) | ((b2 as u32) << 16usize)) | ((b3 as u32) << 24usize));
    assert forall|i: int| 0 <= i < 4 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_u32(x, 0) == b0); } else if i == 1 { assert(byte_u32(x, 1) == b1); } else if i == 2 { assert(byte_u32(x, 2) == b2); } else if i == 3 { assert(byte_u32(x, 3) == b3); } }
}
// u64
/// byte i of the little-endian representation
pub open spec fn byte_u64(x: u64, i: int) -> u8 { ((x as u64) >> ((8 * i) as usize)) as u8 }
/// u64::to_le_bytes, and the size and alignment the language gives u64
#[verifier::external_body] pub fn le_u64(x: u64) -> (r: [u8; 8]) ensures r@.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == byte_u64(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_u64() -> (r: usize) ensures r == 8 { core::mem::align_of::<u64>() }
#[verifier::external_body] pub fn size_u64() -> (r: usize) ensures r == 8 { core::mem::size_of::<u64>() }
/// the value whose first n bytes are given
pub open spec fn val_u64(b: Seq<Byte>, n: usize) -> u64 decreases n { if n == 0 { 0 } else { val_u64(b, (n - 1) as usize) | ((plain(b, n - 1) as u64) << ((8 * (n - 1)) as usize)) } }
impl ToArg for u64 {
    open spec fn al() -> int { 8 } open spec fn sz() -> int { 8 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(8, |i: int| Byte::Plaintext(byte_u64(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 8 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 8) { Err(Error::EncryptionMismatch) } else { Ok(val_u64(b, 8)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u64>::alignment
//@macro primitive_impl_to_arg(u64)
//@sub "std::mem::align_of::<u64>()" => "align_u64()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u64>::size
//@macro primitive_impl_to_arg(u64)
//@sub "std::mem::size_of::<u64>()" => "size_u64()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u64>::to_bytes
//@macro primitive_impl_to_arg(u64)
//@slice self.to_le_bytes() array 8
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_u64(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u64>::try_from_bytes
//@macro primitive_impl_to_arg(u64)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 8, d.len() == 8, __i0 <= 8, all_plain(d, __i0 as int), val == val_u64(d, __i0)
    decreases 8 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 8)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_u64(x: u64) ensures forall|r: Result<u64>| u64::back(x.bytes(), r) <==> r == Ok::<u64, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_u64, 9);
    let b0 = plain(b, 0); assert(b0 == ((x as u64) >> 0usize) as u8);
    let b1 = plain(b, 1); assert(b1 == ((x as u64) >> 8usize) as u8);
    let b2 = plain(b, 2); assert(b2 == ((x as u64) >> 16usize) as u8);
    let b3 = plain(b, 3); assert(b3 == ((x as u64) >> 24usize) as u8);
    let b4 = plain(b, 4); assert(b4 == ((x as u64) >> 32usize) as u8);
    let b5 = plain(b, 5); assert(b5 == ((x as u64) >> 40usize) as u8);
    let b6 = plain(b, 6); assert(b6 == ((x as u64) >> 48usize) as u8);
    let b7 = plain(b, 7); assert(b7 == ((x as u64) >> 56usize) as u8);
    assert((((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize)) == x) by (bit_vector) requires b0 == ((x as u64) >> 0usize) as u8, b1 == ((x as u64) >> 8usize) as u8, b2 == ((x as u64) >> 16usize) as u8, b3 == ((x as u64) >> 24usize) as u8, b4 == ((x as u64) >> 32usize) as u8, b5 == ((x as u64) >> 40usize) as u8, b6 == ((x as u64) >> 48usize) as u8, b7 == ((x as u64) >> 56usize) as u8;
    assert(val_u64(b, 8) == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_u64(b: Seq<Byte>) requires b.len() == 8, all_plain(b, 8) ensures val_u64(b, 8).bytes() =~= b {
    let x = val_u64(b, 8); reveal_with_fuel(val_u64, 9);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    let b1 = plain(b, 1); assert(b[1] is Plaintext);
    let b2 = plain(b, 2); assert(b[2] is Plaintext);
    let b3 = plain(b, 3); assert(b[3] is Plaintext);
    let b4 = plain(b, 4); assert(b[4] is Plaintext);
    let b5 = plain(b, 5); assert(b[5] is Plaintext);
    let b6 = plain(b, 6); assert(b[6] is Plaintext);
    let b7 = plain(b, 7); assert(b[7] is Plaintext);
    assert(x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize)));
    assert(((x as u64) >> 0usize) as u8 == b0) by (bit_vector) requires x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize));
    assert(((x as u64) >> 8usize) as u8 == b1) by (bit_vector) requires x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize));
    assert(((x as u64) >> 16usize) as u8 == b2) by (bit_vector) requires x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize));
    assert(((x as u64) >> 24usize) as u8 == b3) by (bit_vector) requires x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize));
    assert(((x as u64) >> 32usize) as u8 == b4) by (bit_vector) requires x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize));
    assert(((x as u64) >> 40usize) as u8 == b5) by (bit_vector) requires x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize));
    assert(((x as u64) >> 48usize) as u8 == b6) by (bit_vector) requires x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize));
    assert(((x as u64) >> 56usize) as u8 == b7) by (bit_vector) requires x == (((((((((0 as u64) | ((b0 as u64) << 0usize)) | ((b1 as u64) << 8usize)) | ((b2 as u64) << 16usize)) | ((b3 as u64) << 24usize)) | ((b4 as u64) << 32usize)) | ((b5 as u64) << 40usize)) | ((b6 as u64) << 48usize)) | ((b7 as u64) << 56usize));
    assert forall|i: int| 0 <= i < 8 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_u64(x, 0) == b0); } else if i == 1 { assert(byte_u64(x, 1) == b1); } else if i == 2 { assert(byte_u64(x, 2) == b2); } else if i == 3 { assert(byte_u64(x, 3) == b3); } else if i == 4 { assert(byte_u64(x, 4) == b4); } else if i == 5 { assert(byte_u64(x, 5) == b5); } else if i == 6 { assert(byte_u64(x, 6) == b6); } else if i == 7 { assert(byte_u64(x, 7) == b7); } }
}
// u128
/// byte i of the little-endian representation
pub open spec fn byte_u128(x: u128, i: int) -> u8 { ((x as u128) >> ((8 * i) as usize)) as u8 }
/// u128::to_le_bytes, and the size and alignment the language gives u128
#[verifier::external_body] pub fn le_u128(x: u128) -> (r: [u8; 16]) ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r@[i] == byte_u128(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_u128() -> (r: usize) ensures r == 16 { core::mem::align_of::<u128>() }
#[verifier::external_body] pub fn size_u128() -> (r: usize) ensures r == 16 { core::mem::size_of::<u128>() }
/// the value whose first n bytes are given
pub open spec fn val_u128(b: Seq<Byte>, n: usize) -> u128 decreases n { if n == 0 { 0 } else { val_u128(b, (n - 1) as usize) | ((plain(b, n - 1) as u128) << ((8 * (n - 1)) as usize)) } }
impl ToArg for u128 {
    open spec fn al() -> int { 16 } open spec fn sz() -> int { 16 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(16, |i: int| Byte::Plaintext(byte_u128(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 16 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 16) { Err(Error::EncryptionMismatch) } else { Ok(val_u128(b, 16)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u128>::alignment
//@macro primitive_impl_to_arg(u128)
//@sub "std::mem::align_of::<u128>()" => "align_u128()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u128>::size
//@macro primitive_impl_to_arg(u128)
//@sub "std::mem::size_of::<u128>()" => "size_u128()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u128>::to_bytes
//@macro primitive_impl_to_arg(u128)
//@slice self.to_le_bytes() array 16
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_u128(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for u128>::try_from_bytes
//@macro primitive_impl_to_arg(u128)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 16, d.len() == 16, __i0 <= 16, all_plain(d, __i0 as int), val == val_u128(d, __i0)
    decreases 16 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 16)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_u128(x: u128) ensures forall|r: Result<u128>| u128::back(x.bytes(), r) <==> r == Ok::<u128, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_u128, 17);
    let b0 = plain(b, 0); assert(b0 == ((x as u128) >> 0usize) as u8);
    let b1 = plain(b, 1); assert(b1 == ((x as u128) >> 8usize) as u8);
    let b2 = plain(b, 2); assert(b2 == ((x as u128) >> 16usize) as u8);
    let b3 = plain(b, 3); assert(b3 == ((x as u128) >> 24usize) as u8);
    let b4 = plain(b, 4); assert(b4 == ((x as u128) >> 32usize) as u8);
    let b5 = plain(b, 5); assert(b5 == ((x as u128) >> 40usize) as u8);
    let b6 = plain(b, 6); assert(b6 == ((x as u128) >> 48usize) as u8);
    let b7 = plain(b, 7); assert(b7 == ((x as u128) >> 56usize) as u8);
    let b8 = plain(b, 8); assert(b8 == ((x as u128) >> 64usize) as u8);
    let b9 = plain(b, 9); assert(b9 == ((x as u128) >> 72usize) as u8);
    let b10 = plain(b, 10); assert(b10 == ((x as u128) >> 80usize) as u8);
    let b11 = plain(b, 11); assert(b11 == ((x as u128) >> 88usize) as u8);
    let b12 = plain(b, 12); assert(b12 == ((x as u128) >> 96usize) as u8);
    let b13 = plain(b, 13); assert(b13 == ((x as u128) >> 104usize) as u8);
    let b14 = plain(b, 14); assert(b14 == ((x as u128) >> 112usize) as u8);
    let b15 = plain(b, 15); assert(b15 == ((x as u128) >> 120usize) as u8);
    assert((((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize)) == x) by (bit_vector) requires b0 == ((x as u128) >> 0usize) as u8, b1 == ((x as u128) >> 8usize) as u8, b2 == ((x as u128) >> 16usize) as u8, b3 == ((x as u128) >> 24usize) as u8, b4 == ((x as u128) >> 32usize) as u8, b5 == ((x as u128) >> 40usize) as u8, b6 == ((x as u128) >> 48usize) as u8, b7 == ((x as u128) >> 56usize) as u8, b8 == ((x as u128) >> 64usize) as u8, b9 == ((x as u128) >> 72usize) as u8, b10 == ((x as u128) >> 80usize) as u8, b11 == ((x as u128) >> 88usize) as u8, b12 == ((x as u128) >> 96usize) as u8, b13 == ((x as u128) >> 104usize) as u8, b14 == ((x as u128) >> 112usize) as u8, b15 == ((x as u128) >> 120usize) as u8;
    assert(val_u128(b, 16) == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_u128(b: Seq<Byte>) requires b.len() == 16, all_plain(b, 16) ensures val_u128(b, 16).bytes() =~= b {
    let x = val_u128(b, 16); reveal_with_fuel(val_u128, 17);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    let b1 = plain(b, 1); assert(b[1] is Plaintext);
    let b2 = plain(b, 2); assert(b[2] is Plaintext);
    let b3 = plain(b, 3); assert(b[3] is Plaintext);
    let b4 = plain(b, 4); assert(b[4] is Plaintext);
    let b5 = plain(b, 5); assert(b[5] is Plaintext);
    let b6 = plain(b, 6); assert(b[6] is Plaintext);
    let b7 = plain(b, 7); assert(b[7] is Plaintext);
    let b8 = plain(b, 8); assert(b[8] is Plaintext);
    let b9 = plain(b, 9); assert(b[9] is Plaintext);
    let b10 = plain(b, 10); assert(b[10] is Plaintext);
    let b11 = plain(b, 11); assert(b[11] is Plaintext);
    let b12 = plain(b, 12); assert(b[12] is Plaintext);
    let b13 = plain(b, 13); assert(b[13] is Plaintext);
    let b14 = plain(b, 14); assert(b[14] is Plaintext);
    let b15 = plain(b, 15); assert(b[15] is Plaintext);
    assert(x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize)));
    assert(((x as u128) >> 0usize) as u8 == b0) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 8usize) as u8 == b1) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 16usize) as u8 == b2) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 24usize) as u8 == b3) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 32usize) as u8 == b4) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 40usize) as u8 == b5) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 48usize) as u8 == b6) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 56usize) as u8 == b7) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 64usize) as u8 == b8) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 72usize) as u8 == b9) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 80usize) as u8 == b10) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 88usize) as u8 == b11) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 96usize) as u8 == b12) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 104usize) as u8 == b13) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 112usize) as u8 == b14) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert(((x as u128) >> 120usize) as u8 == b15) by (bit_vector) requires x == (((((((((((((((((0 as u128) | ((b0 as u128) << 0usize)) | ((b1 as u128) << 8usize)) | ((b2 as u128) << 16usize)) | ((b3 as u128) << 24usize)) | ((b4 as u128) << 32usize)) | ((b5 as u128) << 40usize)) | ((b6 as u128) << 48usize)) | ((b7 as u128) << 56usize)) | ((b8 as u128) << 64usize)) | ((b9 as u128) << 72usize)) | ((b10 as u128) << 80usize)) | ((b11 as u128) << 88usize)) | ((b12 as u128) << 96usize)) | ((b13 as u128) << 104usize)) | ((b14 as u128) << 112usize)) | ((b15 as u128) << 120usize));
    assert forall|i: int| 0 <= i < 16 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_u128(x, 0) == b0); } else if i == 1 { assert(byte_u128(x, 1) == b1); } else if i == 2 { assert(byte_u128(x, 2) == b2); } else if i == 3 { assert(byte_u128(x, 3) == b3); } else if i == 4 { assert(byte_u128(x, 4) == b4); } else if i == 5 { assert(byte_u128(x, 5) == b5); } else if i == 6 { assert(byte_u128(x, 6) == b6); } else if i == 7 { assert(byte_u128(x, 7) == b7); } else if i == 8 { assert(byte_u128(x, 8) == b8); } else if i == 9 { assert(byte_u128(x, 9) == b9); } else if i == 10 { assert(byte_u128(x, 10) == b10); } else if i == 11 { assert(byte_u128(x, 11) == b11); } else if i == 12 { assert(byte_u128(x, 12) == b12); } else if i == 13 { assert(byte_u128(x, 13) == b13); } else if i == 14 { assert(byte_u128(x, 14) == b14); } else if i == 15 { assert(byte_u128(x, 15) == b15); } }
}
// i8
/// byte i of the little-endian representation
pub open spec fn byte_i8(x: i8, i: int) -> u8 { ((x as u8) >> ((8 * i) as usize)) as u8 }
/// i8::to_le_bytes, and the size and alignment the language gives i8
#[verifier::external_body] pub fn le_i8(x: i8) -> (r: [u8; 1]) ensures r@.len() == 1, forall|i: int| 0 <= i < 1 ==> #[trigger] r@[i] == byte_i8(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_i8() -> (r: usize) ensures r == 1 { core::mem::align_of::<i8>() }
#[verifier::external_body] pub fn size_i8() -> (r: usize) ensures r == 1 { core::mem::size_of::<i8>() }
/// the value whose first n bytes are given
pub open spec fn val_i8(b: Seq<Byte>, n: usize) -> i8 decreases n { if n == 0 { 0 } else { val_i8(b, (n - 1) as usize) | ((plain(b, n - 1) as i8) << ((8 * (n - 1)) as usize)) } }
impl ToArg for i8 {
    open spec fn al() -> int { 1 } open spec fn sz() -> int { 1 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(1, |i: int| Byte::Plaintext(byte_i8(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 1 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 1) { Err(Error::EncryptionMismatch) } else { Ok(val_i8(b, 1)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i8>::alignment
//@macro primitive_impl_to_arg(i8)
//@sub "std::mem::align_of::<i8>()" => "align_i8()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i8>::size
//@macro primitive_impl_to_arg(i8)
//@sub "std::mem::size_of::<i8>()" => "size_i8()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i8>::to_bytes
//@macro primitive_impl_to_arg(i8)
//@slice self.to_le_bytes() array 1
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_i8(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i8>::try_from_bytes
//@macro primitive_impl_to_arg(i8)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 1, d.len() == 1, __i0 <= 1, all_plain(d, __i0 as int), val == val_i8(d, __i0)
    decreases 1 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 1)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_i8(x: i8) ensures forall|r: Result<i8>| i8::back(x.bytes(), r) <==> r == Ok::<i8, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_i8, 2);
    let b0 = plain(b, 0); assert(b0 == ((x as u8) >> 0usize) as u8);
    assert(((0 as i8) | ((b0 as i8) << 0usize)) == x) by (bit_vector) requires b0 == ((x as u8) >> 0usize) as u8;
    assert(val_i8(b, 1) == ((0 as i8) | ((b0 as i8) << 0usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_i8(b: Seq<Byte>) requires b.len() == 1, all_plain(b, 1) ensures val_i8(b, 1).bytes() =~= b {
    let x = val_i8(b, 1); reveal_with_fuel(val_i8, 2);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    assert(x == ((0 as i8) | ((b0 as i8) << 0usize)));
    assert(((x as u8) >> 0usize) as u8 == b0) by (bit_vector) requires x == ((0 as i8) | ((b0 as i8) << 0usize));
    assert forall|i: int| 0 <= i < 1 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_i8(x, 0) == b0); } }
}
// i16
/// byte i of the little-endian representation
pub open spec fn byte_i16(x: i16, i: int) -> u8 { ((x as u16) >> ((8 * i) as usize)) as u8 }
/// i16::to_le_bytes, and the size and alignment the language gives i16
#[verifier::external_body] pub fn le_i16(x: i16) -> (r: [u8; 2]) ensures r@.len() == 2, forall|i: int| 0 <= i < 2 ==> #[trigger] r@[i] == byte_i16(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_i16() -> (r: usize) ensures r == 2 { core::mem::align_of::<i16>() }
#[verifier::external_body] pub fn size_i16() -> (r: usize) ensures r == 2 { core::mem::size_of::<i16>() }
/// the value whose first n bytes are given
pub open spec fn val_i16(b: Seq<Byte>, n: usize) -> i16 decreases n { if n == 0 { 0 } else { val_i16(b, (n - 1) as usize) | ((plain(b, n - 1) as i16) << ((8 * (n - 1)) as usize)) } }
impl ToArg for i16 {
    open spec fn al() -> int { 2 } open spec fn sz() -> int { 2 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(2, |i: int| Byte::Plaintext(byte_i16(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 2 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 2) { Err(Error::EncryptionMismatch) } else { Ok(val_i16(b, 2)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i16>::alignment
//@macro primitive_impl_to_arg(i16)
//@sub "std::mem::align_of::<i16>()" => "align_i16()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i16>::size
//@macro primitive_impl_to_arg(i16)
//@sub "std::mem::size_of::<i16>()" => "size_i16()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i16>::to_bytes
//@macro primitive_impl_to_arg(i16)
//@slice self.to_le_bytes() array 2
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_i16(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i16>::try_from_bytes
//@macro primitive_impl_to_arg(i16)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 2, d.len() == 2, __i0 <= 2, all_plain(d, __i0 as int), val == val_i16(d, __i0)
    decreases 2 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 2)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_i16(x: i16) ensures forall|r: Result<i16>| i16::back(x.bytes(), r) <==> r == Ok::<i16, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_i16, 3);
    let b0 = plain(b, 0); assert(b0 == ((x as u16) >> 0usize) as u8);
    let b1 = plain(b, 1); assert(b1 == ((x as u16) >> 8usize) as u8);
    assert((((0 as i16) | ((b0 as i16) << 0usize)) | ((b1 as i16) << 8usize)) == x) by (bit_vector) requires b0 == ((x as u16) >> 0usize) as u8, b1 == ((x as u16) >> 8usize) as u8;
    assert(val_i16(b, 2) == (((0 as i16) | ((b0 as i16) << 0usize)) | ((b1 as i16) << 8usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_i16(b: Seq<Byte>) requires b.len() == 2, all_plain(b, 2) ensures val_i16(b, 2).bytes() =~= b {
    let x = val_i16(b, 2); reveal_with_fuel(val_i16, 3);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    let b1 = plain(b, 1); assert(b[1] is Plaintext);
    assert(x == (((0 as i16) | ((b0 as i16) << 0usize)) | ((b1 as i16) << 8usize)));
    assert(((x as u16) >> 0usize) as u8 == b0) by (bit_vector) requires x == (((0 as i16) | ((b0 as i16) << 0usize)) | ((b1 as i16) << 8usize));
    assert(((x as u16) >> 8usize) as u8 == b1) by (bit_vector) requires x == (((0 as i16) | ((b0 as i16) << 0usize)) | ((b1 as i16) << 8usize));
    assert forall|i: int| 0 <= i < 2 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_i16(x, 0) == b0); } else if i == 1 { assert(byte_i16(x, 1) == b1); } }
}
// i32
/// byte i of the little-endian representation
pub open spec fn byte_i32(x: i32, i: int) -> u8 { ((x as u32) >> ((8 * i) as usize)) as u8 }
/// i32::to_le_bytes, and the size and alignment the language gives i32
#[verifier::external_body] pub fn le_i32(x: i32) -> (r: [u8; 4]) ensures r@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == byte_i32(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_i32() -> (r: usize) ensures r == 4 { core::mem::align_of::<i32>() }
#[verifier::external_body] pub fn size_i32() -> (r: usize) ensures r == 4 { core::mem::size_of::<i32>() }
/// the value whose first n bytes are given
pub open spec fn val_i32(b: Seq<Byte>, n: usize) -> i32 decreases n { if n == 0 { 0 } else { val_i32(b, (n - 1) as usize) | ((plain(b, n - 1) as i32) << ((8 * (n - 1)) as usize)) } }
impl ToArg for i32 {
    open spec fn al() -> int { 4 } open spec fn sz() -> int { 4 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(4, |i: int| Byte::Plaintext(byte_i32(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 4 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 4) { Err(Error::EncryptionMismatch) } else { Ok(val_i32(b, 4)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i32>::alignment
//@macro primitive_impl_to_arg(i32)
//@sub "std::mem::align_of::<i32>()" => "align_i32()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i32>::size
//@macro primitive_impl_to_arg(i32)
//@sub "std::mem::size_of::<i32>()" => "size_i32()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i32>::to_bytes
//@macro primitive_impl_to_arg(i32)
//@slice self.to_le_bytes() array 4
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_i32(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i32>::try_from_bytes
//@macro primitive_impl_to_arg(i32)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 4, d.len() == 4, __i0 <= 4, all_plain(d, __i0 as int), val == val_i32(d, __i0)
    decreases 4 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 4)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_i32(x: i32) ensures forall|r: Result<i32>| i32::back(x.bytes(), r) <==> r == Ok::<i32, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_i32, 5);
    let b0 = plain(b, 0); assert(b0 == ((x as u32) >> 0usize) as u8);
    let b1 = plain(b, 1); assert(b1 == ((x as u32) >> 8usize) as u8);
    let b2 = plain(b, 2); assert(b2 == ((x as u32) >> 16usize) as u8);
    let b3 = plain(b, 3); assert(b3 == ((x as u32) >> 24usize) as u8);
    assert((((((0 as i32) | ((b0 as i32) << 0usize)) | ((b1 as i32) << 8usize)) | ((b2 as i32) << 16usize)) | ((b3 as i32) << 24usize)) == x) by (bit_vector) requires b0 == ((x as u32) >> 0usize) as u8, b1 == ((x as u32) >> 8usize) as u8, b2 == ((x as u32) >> 16usize) as u8, b3 == ((x as u32) >> 24usize) as u8;
    assert(val_i32(b, 4) == (((((0 as i32) | ((b0 as i32) << 0usize)) | ((b1 as i32) << 8usize)) | ((b2 as i32) << 16usize)) | ((b3 as i32) << 24usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_i32(b: Seq<Byte>) requires b.len() == 4, all_plain(b, 4) ensures val_i32(b, 4).bytes() =~= b {
    let x = val_i32(b, 4); reveal_with_fuel(val_i32, 5);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    let b1 = plain(b, 1); assert(b[1] is Plaintext);
    let b2 = plain(b, 2); assert(b[2] is Plaintext);
    let b3 = plain(b, 3); assert(b[3] is Plaintext);
    assert(x == (((((0 as i32) | ((b0 as i32) << 0usize)) | ((b1 as i32) << 8usize)) | ((b2 as i32) << 16usize)) | ((b3 as i32) << 24usize)));
    assert(((x as u32) >> 0usize) as u8 == b0) by (bit_vector) requires x == (((((0 as i32) | ((b0 as i32) << 0usize)) | ((b1 as i32) << 8usize)) | ((b2 as i32) << 16usize)) | ((b3 as i32) << 24usize));
    assert(((x as u32) >> 8usize) as u8 == b1) by (bit_vector) requires x == (((((0 as i32) | ((b0 as i32) << 0usize)) | ((b1 as i32) << 8usize)) | ((b2 as i32) << 16usize)) | ((b3 as i32) << 24usize));
    assert(((x as u32) >> 16usize) as u8 == b2) by (bit_vector) requires x == (((((0 as i32) | ((b0 as i32) << 0usize)) | ((b1 as i32) << 8usize)) | ((b2 as i32) << 16usize)) | ((b3 as i32) << 24usize));
    assert(((x as u32) >> 24usize) as u8 == b3) by (bit_vector) requires x == (((((0 as i32) | ((b0 as i32) << 0usize)) | ((b1 as i32) << 8usize)) | ((b2 as i32) << 16usize)) | ((b3 as i32) << 24usize));
    assert forall|i: int| 0 <= i < 4 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_i32(x, 0) == b0); } else if i == 1 { assert(byte_i32(x, 1) == b1); } else if i == 2 { assert(byte_i32(x, 2) == b2); } else if i == 3 { assert(byte_i32(x, 3) == b3); } }
}
// i64
/// byte i of the little-endian representation
pub open spec fn byte_i64(x: i64, i: int) -> u8 { ((x as u64) >> ((8 * i) as usize)) as u8 }
/// i64::to_le_bytes, and the size and alignment the language gives i64
#[verifier::external_body] pub fn le_i64(x: i64) -> (r: [u8; 8]) ensures r@.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == byte_i64(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_i64() -> (r: usize) ensures r == 8 { core::mem::align_of::<i64>() }
#[verifier::external_body] pub fn size_i64() -> (r: usize) ensures r == 8 { core::mem::size_of::<i64>() }
/// the value whose first n bytes are given
pub open spec fn val_i64(b: Seq<Byte>, n: usize) -> i64 decreases n { if n == 0 { 0 } else { val_i64(b, (n - 1) as usize) | ((plain(b, n - 1) as i64) << ((8 * (n - 1)) as usize)) } }
impl ToArg for i64 {
    open spec fn al() -> int { 8 } open spec fn sz() -> int { 8 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(8, |i: int| Byte::Plaintext(byte_i64(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 8 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 8) { Err(Error::EncryptionMismatch) } else { Ok(val_i64(b, 8)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i64>::alignment
//@macro primitive_impl_to_arg(i64)
//@sub "std::mem::align_of::<i64>()" => "align_i64()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i64>::size
//@macro primitive_impl_to_arg(i64)
//@sub "std::mem::size_of::<i64>()" => "size_i64()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i64>::to_bytes
//@macro primitive_impl_to_arg(i64)
//@slice self.to_le_bytes() array 8
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_i64(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i64>::try_from_bytes
//@macro primitive_impl_to_arg(i64)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 8, d.len() == 8, __i0 <= 8, all_plain(d, __i0 as int), val == val_i64(d, __i0)
    decreases 8 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 8)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_i64(x: i64) ensures forall|r: Result<i64>| i64::back(x.bytes(), r) <==> r == Ok::<i64, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_i64, 9);
    let b0 = plain(b, 0); assert(b0 == ((x as u64) >> 0usize) as u8);
    let b1 = plain(b, 1); assert(b1 == ((x as u64) >> 8usize) as u8);
    let b2 = plain(b, 2); assert(b2 == ((x as u64) >> 16usize) as u8);
    let b3 = plain(b, 3); assert(b3 == ((x as u64) >> 24usize) as u8);
    let b4 = plain(b, 4); assert(b4 == ((x as u64) >> 32usize) as u8);
    let b5 = plain(b, 5); assert(b5 == ((x as u64) >> 40usize) as u8);
    let b6 = plain(b, 6); assert(b6 == ((x as u64) >> 48usize) as u8);
    let b7 = plain(b, 7); assert(b7 == ((x as u64) >> 56usize) as u8);
    assert((((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize)) == x) by (bit_vector) requires b0 == ((x as u64) >> 0usize) as u8, b1 == ((x as u64) >> 8usize) as u8, b2 == ((x as u64) >> 16usize) as u8, b3 == ((x as u64) >> 24usize) as u8, b4 == ((x as u64) >> 32usize) as u8, b5 == ((x as u64) >> 40usize) as u8, b6 == ((x as u64) >> 48usize) as u8, b7 == ((x as u64) >> 56usize) as u8;
    assert(val_i64(b, 8) == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_i64(b: Seq<Byte>) requires b.len() == 8, all_plain(b, 8) ensures val_i64(b, 8).bytes() =~= b {
    let x = val_i64(b, 8); reveal_with_fuel(val_i64, 9);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    let b1 = plain(b, 1); assert(b[1] is Plaintext);
    let b2 = plain(b, 2); assert(b[2] is Plaintext);
    let b3 = plain(b, 3); assert(b[3] is Plaintext);
    let b4 = plain(b, 4); assert(b[4] is Plaintext);
    let b5 = plain(b, 5); assert(b[5] is Plaintext);
    let b6 = plain(b, 6); assert(b[6] is Plaintext);
    let b7 = plain(b, 7); assert(b[7] is Plaintext);
    assert(x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize)));
    assert(((x as u64) >> 0usize) as u8 == b0) by (bit_vector) requires x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize));
    assert(((x as u64) >> 8usize) as u8 == b1) by (bit_vector) requires x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize));
    assert(((x as u64) >> 16usize) as u8 == b2) by (bit_vector) requires x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize));
    assert(((x as u64) >> 24usize) as u8 == b3) by (bit_vector) requires x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize));
    assert(((x as u64) >> 32usize) as u8 == b4) by (bit_vector) requires x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize));
    assert(((x as u64) >> 40usize) as u8 == b5) by (bit_vector) requires x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize));
    assert(((x as u64) >> 48usize) as u8 == b6) by (bit_vector) requires x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize));
    assert(((x as u64) >> 56usize) as u8 == b7) by (bit_vector) requires x == (((((((((0 as i64) | ((b0 as i64) << 0usize)) | ((b1 as i64) << 8usize)) | ((b2 as i64) << 16usize)) | ((b3 as i64) << 24usize)) | ((b4 as i64) << 32usize)) | ((b5 as i64) << 40usize)) | ((b6 as i64) << 48usize)) | ((b7 as i64) << 56usize));
    assert forall|i: int| 0 <= i < 8 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_i64(x, 0) == b0); } else if i == 1 { assert(byte_i64(x, 1) == b1); } else if i == 2 { assert(byte_i64(x, 2) == b2); } else if i == 3 { assert(byte_i64(x, 3) == b3); } else if i == 4 { assert(byte_i64(x, 4) == b4); } else if i == 5 { assert(byte_i64(x, 5) == b5); } else if i == 6 { assert(byte_i64(x, 6) == b6); } else if i == 7 { assert(byte_i64(x, 7) == b7); } }
}
// i128
/// byte i of the little-endian representation
pub open spec fn byte_i128(x: i128, i: int) -> u8 { ((x as u128) >> ((8 * i) as usize)) as u8 }
/// i128::to_le_bytes, and the size and alignment the language gives i128
#[verifier::external_body] pub fn le_i128(x: i128) -> (r: [u8; 16]) ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r@[i] == byte_i128(x, i) { x.to_le_bytes() }
#[verifier::external_body] pub fn align_i128() -> (r: usize) ensures r == 16 { core::mem::align_of::<i128>() }
#[verifier::external_body] pub fn size_i128() -> (r: usize) ensures r == 16 { core::mem::size_of::<i128>() }
/// the value whose first n bytes are given
pub open spec fn val_i128(b: Seq<Byte>, n: usize) -> i128 decreases n { if n == 0 { 0 } else { val_i128(b, (n - 1) as usize) | ((plain(b, n - 1) as i128) << ((8 * (n - 1)) as usize)) } }
impl ToArg for i128 {
    open spec fn al() -> int { 16 } open spec fn sz() -> int { 16 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::new(16, |i: int| Byte::Plaintext(byte_i128(*self, i))) }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() != 16 { Err(Error::TypeSizeMismatch) } else if !all_plain(b, 16) { Err(Error::EncryptionMismatch) } else { Ok(val_i128(b, 16)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i128>::alignment
//@macro primitive_impl_to_arg(i128)
//@sub "std::mem::align_of::<i128>()" => "align_i128()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i128>::size
//@macro primitive_impl_to_arg(i128)
//@sub "std::mem::size_of::<i128>()" => "size_i128()"
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i128>::to_bytes
//@macro primitive_impl_to_arg(i128)
//@slice self.to_le_bytes() array 16
//@presub ".into_iter().collect::<Vec<_>>()" => ".vec_of()"
//@sub "self.to_le_bytes()" => "le_i128(*self)"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for i128>::try_from_bytes
//@macro primitive_impl_to_arg(i128)
//@slice data taken
//@at start
    let ghost d = data@;
//@at loop 0
    invariant d == data@, __s0_0@ == d, __n0 == 16, d.len() == 16, __i0 <= 16, all_plain(d, __i0 as int), val == val_i128(d, __i0)
    decreases 16 - __i0
//@at start 0
    proof { if d[__j0 as int] is Ciphertext { assert(!all_plain(d, 16)); } }
//@end
}
/// a value comes back from its bytes
pub proof fn back_i128(x: i128) ensures forall|r: Result<i128>| i128::back(x.bytes(), r) <==> r == Ok::<i128, Error>(x) {
    let b = x.bytes(); reveal_with_fuel(val_i128, 17);
    let b0 = plain(b, 0); assert(b0 == ((x as u128) >> 0usize) as u8);
    let b1 = plain(b, 1); assert(b1 == ((x as u128) >> 8usize) as u8);
    let b2 = plain(b, 2); assert(b2 == ((x as u128) >> 16usize) as u8);
    let b3 = plain(b, 3); assert(b3 == ((x as u128) >> 24usize) as u8);
    let b4 = plain(b, 4); assert(b4 == ((x as u128) >> 32usize) as u8);
    let b5 = plain(b, 5); assert(b5 == ((x as u128) >> 40usize) as u8);
    let b6 = plain(b, 6); assert(b6 == ((x as u128) >> 48usize) as u8);
    let b7 = plain(b, 7); assert(b7 == ((x as u128) >> 56usize) as u8);
    let b8 = plain(b, 8); assert(b8 == ((x as u128) >> 64usize) as u8);
    let b9 = plain(b, 9); assert(b9 == ((x as u128) >> 72usize) as u8);
    let b10 = plain(b, 10); assert(b10 == ((x as u128) >> 80usize) as u8);
    let b11 = plain(b, 11); assert(b11 == ((x as u128) >> 88usize) as u8);
    let b12 = plain(b, 12); assert(b12 == ((x as u128) >> 96usize) as u8);
    let b13 = plain(b, 13); assert(b13 == ((x as u128) >> 104usize) as u8);
    let b14 = plain(b, 14); assert(b14 == ((x as u128) >> 112usize) as u8);
    let b15 = plain(b, 15); assert(b15 == ((x as u128) >> 120usize) as u8);
    assert((((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize)) == x) by (bit_vector) requires b0 == ((x as u128) >> 0usize) as u8, b1 == ((x as u128) >> 8usize) as u8, b2 == ((x as u128) >> 16usize) as u8, b3 == ((x as u128) >> 24usize) as u8, b4 == ((x as u128) >> 32usize) as u8, b5 == ((x as u128) >> 40usize) as u8, b6 == ((x as u128) >> 48usize) as u8, b7 == ((x as u128) >> 56usize) as u8, b8 == ((x as u128) >> 64usize) as u8, b9 == ((x as u128) >> 72usize) as u8, b10 == ((x as u128) >> 80usize) as u8, b11 == ((x as u128) >> 88usize) as u8, b12 == ((x as u128) >> 96usize) as u8, b13 == ((x as u128) >> 104usize) as u8, b14 == ((x as u128) >> 112usize) as u8, b15 == ((x as u128) >> 120usize) as u8;
    assert(val_i128(b, 16) == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize)));
}
/// and bytes come back from the value they make: no two byte strings make the same value
pub proof fn forth_i128(b: Seq<Byte>) requires b.len() == 16, all_plain(b, 16) ensures val_i128(b, 16).bytes() =~= b {
    let x = val_i128(b, 16); reveal_with_fuel(val_i128, 17);
    let b0 = plain(b, 0); assert(b[0] is Plaintext);
    let b1 = plain(b, 1); assert(b[1] is Plaintext);
    let b2 = plain(b, 2); assert(b[2] is Plaintext);
    let b3 = plain(b, 3); assert(b[3] is Plaintext);
    let b4 = plain(b, 4); assert(b[4] is Plaintext);
    let b5 = plain(b, 5); assert(b[5] is Plaintext);
    let b6 = plain(b, 6); assert(b[6] is Plaintext);
    let b7 = plain(b, 7); assert(b[7] is Plaintext);
    let b8 = plain(b, 8); assert(b[8] is Plaintext);
    let b9 = plain(b, 9); assert(b[9] is Plaintext);
    let b10 = plain(b, 10); assert(b[10] is Plaintext);
    let b11 = plain(b, 11); assert(b[11] is Plaintext);
    let b12 = plain(b, 12); assert(b[12] is Plaintext);
    let b13 = plain(b, 13); assert(b[13] is Plaintext);
    let b14 = plain(b, 14); assert(b[14] is Plaintext);
    let b15 = plain(b, 15); assert(b[15] is Plaintext);
    assert(x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize)));
    assert(((x as u128) >> 0usize) as u8 == b0) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 8usize) as u8 == b1) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 16usize) as u8 == b2) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 24usize) as u8 == b3) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 32usize) as u8 == b4) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 40usize) as u8 == b5) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 48usize) as u8 == b6) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 56usize) as u8 == b7) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 64usize) as u8 == b8) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 72usize) as u8 == b9) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 80usize) as u8 == b10) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 88usize) as u8 == b11) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 96usize) as u8 == b12) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 104usize) as u8 == b13) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 112usize) as u8 == b14) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert(((x as u128) >> 120usize) as u8 == b15) by (bit_vector) requires x == (((((((((((((((((0 as i128) | ((b0 as i128) << 0usize)) | ((b1 as i128) << 8usize)) | ((b2 as i128) << 16usize)) | ((b3 as i128) << 24usize)) | ((b4 as i128) << 32usize)) | ((b5 as i128) << 40usize)) | ((b6 as i128) << 48usize)) | ((b7 as i128) << 56usize)) | ((b8 as i128) << 64usize)) | ((b9 as i128) << 72usize)) | ((b10 as i128) << 80usize)) | ((b11 as i128) << 88usize)) | ((b12 as i128) << 96usize)) | ((b13 as i128) << 104usize)) | ((b14 as i128) << 112usize)) | ((b15 as i128) << 120usize));
    assert forall|i: int| 0 <= i < 16 implies x.bytes()[i] == b[i] by { if i == 0 { assert(byte_i128(x, 0) == b0); } else if i == 1 { assert(byte_i128(x, 1) == b1); } else if i == 2 { assert(byte_i128(x, 2) == b2); } else if i == 3 { assert(byte_i128(x, 3) == b3); } else if i == 4 { assert(byte_i128(x, 4) == b4); } else if i == 5 { assert(byte_i128(x, 5) == b5); } else if i == 6 { assert(byte_i128(x, 6) == b6); } else if i == 7 { assert(byte_i128(x, 7) == b7); } else if i == 8 { assert(byte_i128(x, 8) == b8); } else if i == 9 { assert(byte_i128(x, 9) == b9); } else if i == 10 { assert(byte_i128(x, 10) == b10); } else if i == 11 { assert(byte_i128(x, 11) == b11); } else if i == 12 { assert(byte_i128(x, 12) == b12); } else if i == 13 { assert(byte_i128(x, 13) == b13); } else if i == 14 { assert(byte_i128(x, 14) == b14); } else if i == 15 { assert(byte_i128(x, 15) == b15); } }
}
impl ToArg for () {
    open spec fn al() -> int { 1 } open spec fn sz() -> int { 0 }
    open spec fn bytes(&self) -> Seq<Byte> { Seq::empty() }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { r == if b.len() == 0 { Ok(()) } else { Err(Error::TypeSizeMismatch) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for ()>::alignment
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for ()>::size
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for ()>::to_bytes
//@presub "vec![]" => "Vec::new()"
//@at end-bind
    proof { assert(__r@ =~= self.bytes()); }
//@end
//@fn parasol_cpu/src/proc/args.rs :: <ToArg for ()>::try_from_bytes
//@end
}
#[derive(Copy, Clone)] pub struct Ptr32(pub u32);
impl ToArg for Ptr32 {
    open spec fn al() -> int { 4 } open spec fn sz() -> int { 4 }
    open spec fn bytes(&self) -> Seq<Byte> { self.0.bytes() }
    open spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool { match r { Ok(v) => u32::back(b, Ok(v.0)), Err(e) => u32::back(b, Err(e)) } } open spec fn okt() -> bool { true } open spec fn ok(&self) -> bool { true }
//@fn parasol_cpu/src/memory/mod.rs :: <ToArg for Ptr32>::alignment
//@end
//@fn parasol_cpu/src/memory/mod.rs :: <ToArg for Ptr32>::size
//@end
//@fn parasol_cpu/src/memory/mod.rs :: <ToArg for Ptr32>::to_bytes
//@end
//@fn parasol_cpu/src/memory/mod.rs :: <ToArg for Ptr32>::try_from_bytes
//@end
}
} // verus!
fn main() {}
