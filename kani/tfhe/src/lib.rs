#![allow(clippy::all, unused_unsafe, dead_code)]
pub mod common;
pub mod t01;
pub mod t02;
pub mod t03;
pub mod t04;
pub mod t05;
pub mod t06;
pub mod t07;
pub mod t08;
pub mod t09;
pub mod t10;
pub mod t11;
pub mod t12;
pub mod t13;
pub mod t14;
pub mod t15;
pub mod t16;
pub mod t17;
pub mod t18;
pub mod t19;
pub mod t20;
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> { let mut v = Vec::new(); for l in [t01::LIST, t02::LIST, t03::LIST, t04::LIST, t04::u32s::LIST, t05::LIST, t06::LIST, t07::LIST, t08::LIST, t09::LIST, t10::LIST, t11::LIST, t12::LIST, t13::LIST, t14::LIST, t15::LIST, t16::LIST, t17::LIST, t18::LIST, t19::LIST, t20::LIST] { v.extend_from_slice(l); } v }
