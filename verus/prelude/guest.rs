verus! {
/// eight shared encrypted bits: the proofs only ever move them around
pub struct CtBits { pub b: Ghost<Seq<int>> }
pub enum Byte { Plaintext(u8), Ciphertext(CtBits) }
impl Byte {
    /// Vec<Arc<..>>::clone: the same shared bits
    #[verifier::external_body] pub fn clone(&self) -> (r: Byte) ensures r == *self { unimplemented!() }
    pub fn from(value: u8) -> (r: Byte) ensures r == Byte::Plaintext(value) { Byte::Plaintext(value) }
}
pub type Result<T, E = Error> = core::result::Result<T, E>;
#[derive(Debug)]
pub enum Error { AccessViolation(u32), UnalignedAccess(u32), PointerOverflow, ZeroAllocation, NoContiguousChunk(u32), UnexpectedEncryptedByte(u32), TypeSizeMismatch, TypeMismatch, MixedData, WordConversionTooManyBytes, NotAByte, BufferNotAPlaintext, BufferNotACiphertext, EncryptionMismatch, IllegalOperands { inst_id: usize, pc: u32 }, WidthMismatch { inst_id: usize, pc: u32 } }
/// std::sync::Mutex seen by one thread: a cell that hands out its contents (no lock is held across another lock of the same mutex; poisoning needs a panic, which the contracts exclude)
pub struct Mutex<T> { pub v: T }
impl<T> Mutex<T> {
    pub fn new(v: T) -> (r: Mutex<T>) ensures r.v == v { Mutex { v } }
    pub fn lock(&mut self) -> (r: Result<&mut T, ()>) ensures r is Ok, *(r->Ok_0) == old(self).v, *final(r->Ok_0) == final(self).v { Ok(&mut self.v) }
    pub fn peek(&self) -> (r: Result<&T, ()>) ensures r is Ok, *(r->Ok_0) == self.v { Ok(&self.v) }
}
} // verus!
