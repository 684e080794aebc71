#![allow(clippy::all, dead_code)]
pub use nd::*;
pub mod eval;
pub mod x01;
pub mod x02;
pub mod x03;
pub mod x04;
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> { let mut v = Vec::new(); for l in [x01::LIST, x02::LIST, x03::LIST, x04::LIST] { v.extend_from_slice(l); } v }
