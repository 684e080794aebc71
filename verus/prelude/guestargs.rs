verus! {
/// a value as the calling convention lays it out (property P03): its alignment, its size, its bytes, and what reading bytes as it gives
pub trait ToArg: Sized {
    spec fn al() -> int; spec fn sz() -> int; spec fn bytes(&self) -> Seq<Byte>; spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool;
    /// the types and values the implementation accepts
    spec fn okt() -> bool; spec fn ok(&self) -> bool;
    fn alignment() -> (r: usize) requires Self::okt() ensures r == Self::al();
    fn size() -> (r: usize) requires Self::okt() ensures r == Self::sz();
    fn to_bytes(&self) -> (r: Vec<Byte>) requires Self::okt(), self.ok() ensures r@ == self.bytes(), r@.len() == Self::sz();
    fn try_from_bytes(data: Vec<Byte>) -> (r: Result<Self>) requires Self::okt() ensures Self::back(data@, r);
}
pub trait DynamicToArg: Sized {
    spec fn al(&self) -> int; spec fn sz(&self) -> int; spec fn bytes(&self) -> Seq<Byte>; spec fn back(b: Seq<Byte>, r: Result<Self>) -> bool;
    spec fn ok(&self) -> bool;
    fn alignment(&self) -> (r: usize) ensures r == self.al();
    fn size(&self) -> (r: usize) ensures r == self.sz();
    fn to_bytes(&self) -> (r: Vec<Byte>) requires self.ok() ensures r@ == self.bytes(), r@.len() == self.sz();
    fn try_from_bytes(data: Vec<Byte>) -> (r: Result<Self>) ensures Self::back(data@, r);
}
} // verus!
