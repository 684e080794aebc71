#![allow(clippy::all, dead_code)]
pub use nd::*;
pub mod machine;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod r01;
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> { let mut v = Vec::new(); for l in [p01::LIST, p02::LIST, p03::LIST, p04::LIST, r01::LIST] { v.extend_from_slice(l); } v }
