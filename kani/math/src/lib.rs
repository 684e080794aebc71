#![allow(clippy::all, dead_code)]
pub mod common;
pub mod m01;
pub mod m02;
pub mod m03;
pub mod m04;
pub mod m05;
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> { let mut v = Vec::new(); for l in [m01::LIST, m02::LIST, m03::LIST, m04::LIST, m05::LIST] { v.extend_from_slice(l); } v }
