//@include ../prelude/torus.rs
//@include ../prelude/ring.rs
//@include ../prelude/radix.rs
//@include ../prelude/simd.rs
//@include ../prelude/simd_torus.rs
fn main() {}
