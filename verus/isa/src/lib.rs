// The instruction tables of /repo, with stand-ins for the names the rest of the macro's output mentions: rustc expands this
// crate and nothing is compiled or run; the verified text is what the macro generates.
pub struct Register;
pub use error::{Error, Result};
pub mod error { pub struct Error; pub type Result<T> = std::result::Result<T, Error>; }
pub mod tomasulo {
    pub trait GetDeps<'a> { type DispatchedOp; type RenameSet; fn instruction_dep_idx(&self, rename_set: Self::RenameSet, idx: usize) -> Option<u8>; fn num_deps(&self) -> usize; }
    pub trait ToDispatchedOp<'a> { type DispatchedOp; type RobEntrySrcs; type FreeLists; fn to_dispatched_op(&self, srcs: Self::RobEntrySrcs, e: u8, i: usize, pc: u32) -> crate::error::Result<Self::DispatchedOp>; }
    pub mod registers { pub struct RegisterName<T>(T); pub struct RegisterFile<T, U>(T, U); pub struct RobEntryRef<T>(T); pub struct RobId<T>(T); }
    pub mod scoreboard { pub struct ScoreboardEntryRef<T>(T); }
}
#[macro_export] macro_rules! dep_idx { ($($t:tt)*) => { None } }
#[macro_export] macro_rules! rep_len { ($($t:tt)*) => { 0usize } }
#[path = "/repo/parasol_cpu/src/proc/assembly.rs"] pub mod assembly;
