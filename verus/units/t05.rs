//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/poly.rs
//@include ../prelude/mono.rs
fn main() {}
