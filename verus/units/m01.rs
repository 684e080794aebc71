//@include ../prelude/base.rs
//@include ../prelude/uint.rs
//@include ../prelude/barrett.rs
//@generic N C
//@all "& C::MODULUS" => "C_MODULUS()"
//@all "&C::MODULUS" => "C_MODULUS()"
//@all "&C::R" => "C_R()"
//@all "&C::S" => "C_S()"
//@all "&C::T" => "C_T()"
//@all "Uint < N >" => "Uint"
verus! {
pub struct BarrettBackend;
impl BarrettBackend {
//@fn sunscreen_math/src/ring/barrett.rs :: BarrettBackend::barrett_reduce >> reduce
//@sig fn reduce(val: &mut Uint)
    ensures final(val).v() == (if old(val).v() < md_() { old(val).v() } else { old(val).v() - md_() })
//@at start
    proof { b_pos(); md_range(); broadcast use Uint::v_range; if val.v() >= md_() { small(val.v() - md_(), B()); } }
//@end
//@fn sunscreen_math/src/ring/barrett.rs :: BarrettBackend::barrett_reduce
//@sub "reduce::<N, C>" => "Self::reduce"
    ensures ret.v() == (x.0.v() + B() * x.1.v()) % md_(), 0 <= ret.v() < md_()
//@at start
    let ghost (lo, hi, b, m) = (x.0.v(), x.1.v(), B(), md_());
    proof {
        b_pos(); md_range(); broadcast use Uint::v_range;
        low_est(lo, b, m); high_est(hi, b, m);
        let r = b / m; let t = b - r * m; let s = (b * b) / m - b * r;
        let q1 = (hi * s) / b; near(hi * t, q1, m); wrap_sub(hi * t, q1 * m, b);
        let q0 = (lo * r) / b; near(lo, q0, m); wrap_sub_r(lo, q0 * m, b);
        let (u, w) = (lo % m, hi * t % m);
        lemma_mod_bound(lo, m); lemma_mod_bound(hi * t, m); small(u + w, b);
        assert(hi * b == b * hi && hi * t == t * hi && hi * s == s * hi && lo * r == r * lo && q0 * m == m * q0 && q1 * m == m * q1) by (nonlinear_arith);
        lemma_add_mod_noop(lo, b * hi, m);
        if u + w >= m { lemma_fundamental_div_mod_converse(u + w, m, 1, u + w - m); } else { small(u + w, m); }
    }
//@end
//@fn sunscreen_math/src/ring/barrett.rs :: <ArithmeticBackend for BarrettBackend>::mul_mod
//@sig pub fn mul_mod(lhs: &Uint, rhs: &Uint) -> (ret: Uint)
    ensures ret.v() == (lhs.v() * rhs.v()) % md_(), 0 <= ret.v() < md_()
//@at start
    proof { b_pos(); broadcast use Uint::v_range; lemma_fundamental_div_mod(lhs.v() * rhs.v(), B()); }
//@end
//@fn sunscreen_math/src/ring/barrett.rs :: <ArithmeticBackend for BarrettBackend>::encode
//@sig pub fn encode(val: &Uint) -> (ret: Uint)
    ensures ret == *val
//@end
//@fn sunscreen_math/src/ring/barrett.rs :: <ArithmeticBackend for BarrettBackend>::decode
//@sig pub fn decode(val: &Uint) -> (ret: Uint)
    ensures ret == *val
//@end
}
} // verus!
fn main() {}
