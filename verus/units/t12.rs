//@include ../prelude/goldilocks.rs
fn main() {}
