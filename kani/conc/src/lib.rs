#![allow(clippy::all, dead_code)]
pub use nd::*;
pub mod c01;
pub mod c02;
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> { let mut v = Vec::new(); for l in [c01::LIST, c02::LIST] { v.extend_from_slice(l); } v }
/// run `f` and report whether it panicked
pub fn refused<R>(f: impl FnOnce() -> R) -> Option<R> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
