verus! {
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
pub open spec fn val(f: spec_fn(int) -> bool, n: nat) -> nat decreases n { if n == 0 { 0 } else { val(f, (n - 1) as nat) + b2n(f(n - 1)) * p2((n - 1) as nat) } }
} // verus!
