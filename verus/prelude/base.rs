#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, non_snake_case)]
use vstd::prelude::*;
verus! {
// ---- word arithmetic -------------------------------------------------------------------------
pub open spec fn M() -> int { WMOD }
pub open spec fn wadd(a: WORD, b: WORD) -> WORD { ((a as int + b as int) % M()) as WORD }
pub open spec fn wsub(a: WORD, b: WORD) -> WORD { ((a as int - b as int) % M()) as WORD }
pub open spec fn wmul(a: WORD, b: WORD) -> WORD { ((a as int * b as int) % M()) as WORD }
pub open spec fn wneg(a: WORD) -> WORD { ((0 - a as int) % M()) as WORD }
/// `assert!` of the source: never reached with a false argument.
pub fn rt_assert(b: bool) requires b ensures b {}
#[verifier::external_body]
pub fn rt_panic() -> ! requires false { panic!() }
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn usub(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { 0 } else { (a - b) as usize }) { if a < b { 0 } else { a - b } }
pub fn range_len(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { (b - a) as usize } else { 0 }) { if a < b { b - a } else { 0 } }
pub assume_specification<T: Clone>[ <[T]>::clone_from_slice ](d: &mut [T], s: &[T])
    requires old(d)@.len() == s@.len()
    ensures final(d)@ == s@;
} // verus!
verus! {
/// the standard deviation of a noise distribution: a number the proofs never look at, except whether it is zero
#[derive(Copy, Clone)] pub struct Stddev(pub f64);
impl Stddev { pub uninterp spec fn zero(&self) -> bool; #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == self.zero() { self.0 == 0.0 } }
} // verus!
