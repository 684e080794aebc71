use crate::common::*;
use sunscreen_tfhe::math::RoundedDiv;
macro_rules! chk { ($f:ident, $t:ident, $w:ident, $any:ident) => { fn $f() {
    let (a, b) = ($any(), $any()); assume(b != 0); assume(!($t::MIN != 0 && a == $t::MIN && b == !(0 as $t)));
    let (x, y) = (a as $w, b as $w);
    let (ax, ay) = (if x < 0 { -x } else { x }, if y < 0 { -y } else { y });
    let q = (2 * ax + ay) / (2 * ay); let want = if (x < 0) != (y < 0) { -q } else { q };
    assert!(a.div_rounded(b) as $w == want, "nearest integer, ties away from zero");
} } }
chk!(u8_, u8, i32, any_u8); chk!(u16_, u16, i64, any_u16); chk!(u32_, u32, i128, any_u32); chk!(u64_, u64, i128, any_u64);
chk!(i8_, i8, i32, any_i8); chk!(i16_, i16, i64, any_i16); chk!(i32_, i32, i128, any_i32); chk!(i64_, i64, i128, any_i64);
harnesses! {
  fn t16_u8() { u8_() } 
  fn t16_i8() { i8_() }
  fn t16_u16() { u16_() }
  fn t16_i16() { i16_() }
  fn t16_wide() { if !sampling() { return } u32_(); u64_(); i32_(); i64_();
    let (a, b) = (any_u128() >> 2, any_u128() >> 2); assume(b != 0); assert!(a.div_rounded(b) == (2 * a + b) / (2 * b)); }
}
