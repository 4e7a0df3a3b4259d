//! One monomorphic entry per public operation of the crate: the roots from
//! which the compiler's MIR is collected.  Nothing in here is ever executed.
#![allow(clippy::all)]
use core::cmp::Ordering;
use core::num::FpCategory;
use f256::f256;

// arithmetic
pub fn add(x: f256, y: f256) -> f256 { x + y }
pub fn sub(x: f256, y: f256) -> f256 { x - y }
pub fn mul(x: f256, y: f256) -> f256 { x * y }
pub fn div(x: f256, y: f256) -> f256 { x / y }
pub fn rem(x: f256, y: f256) -> f256 { x % y }
pub fn sqrt(x: f256) -> f256 { x.sqrt() }
pub fn fma(x: f256, y: f256, z: f256) -> f256 { x.mul_add(y, z) }
pub fn sos(x: f256, y: f256) -> f256 { x.sum_of_squares(y) }
pub fn square(x: f256) -> f256 { x.square() }
pub fn square_add(x: f256, a: f256) -> f256 { x.square_add(a) }
pub fn recip(x: f256) -> f256 { x.recip() }
pub fn mul2(x: f256) -> f256 { x.mul2() }
pub fn div2(x: f256) -> f256 { x.div2() }
pub fn mul_pow2(x: f256, n: u32) -> f256 { x.mul_pow2(n) }
pub fn div_pow2(x: f256, n: u32) -> f256 { x.div_pow2(n) }
pub fn ulp(x: f256) -> f256 { x.ulp() }
pub fn to_degrees(x: f256) -> f256 { x.to_degrees() }
pub fn to_radians(x: f256) -> f256 { x.to_radians() }

// operand forms
pub fn add_vr(x: f256, y: f256) -> f256 { x + &y }
pub fn add_rv(x: f256, y: f256) -> f256 { &x + y }
pub fn add_rr(x: f256, y: f256) -> f256 { &x + &y }
pub fn add_a(mut x: f256, y: f256) -> f256 { x += y; x }
pub fn add_ar(mut x: f256, y: f256) -> f256 { x += &y; x }
pub fn sub_vr(x: f256, y: f256) -> f256 { x - &y }
pub fn sub_rv(x: f256, y: f256) -> f256 { &x - y }
pub fn sub_rr(x: f256, y: f256) -> f256 { &x - &y }
pub fn sub_a(mut x: f256, y: f256) -> f256 { x -= y; x }
pub fn sub_ar(mut x: f256, y: f256) -> f256 { x -= &y; x }
pub fn mul_vr(x: f256, y: f256) -> f256 { x * &y }
pub fn mul_rv(x: f256, y: f256) -> f256 { &x * y }
pub fn mul_rr(x: f256, y: f256) -> f256 { &x * &y }
pub fn mul_a(mut x: f256, y: f256) -> f256 { x *= y; x }
pub fn mul_ar(mut x: f256, y: f256) -> f256 { x *= &y; x }
pub fn div_vr(x: f256, y: f256) -> f256 { x / &y }
pub fn div_rv(x: f256, y: f256) -> f256 { &x / y }
pub fn div_rr(x: f256, y: f256) -> f256 { &x / &y }
pub fn div_a(mut x: f256, y: f256) -> f256 { x /= y; x }
pub fn div_ar(mut x: f256, y: f256) -> f256 { x /= &y; x }
pub fn rem_vr(x: f256, y: f256) -> f256 { x % &y }
pub fn rem_rv(x: f256, y: f256) -> f256 { &x % y }
pub fn rem_rr(x: f256, y: f256) -> f256 { &x % &y }
pub fn rem_a(mut x: f256, y: f256) -> f256 { x %= y; x }
pub fn rem_ar(mut x: f256, y: f256) -> f256 { x %= &y; x }

// sign and bits
pub fn neg(x: f256) -> f256 { -x }
pub fn neg_r(x: f256) -> f256 { -&x }
pub fn abs(x: f256) -> f256 { x.abs() }
pub fn to_bits(x: f256) -> (u128, u128) { x.to_bits() }
pub fn from_bits(b: (u128, u128)) -> f256 { f256::from_bits(b) }
pub fn rt_be(x: f256) -> f256 { f256::from_be_bytes(x.to_be_bytes()) }
pub fn rt_le(x: f256) -> f256 { f256::from_le_bytes(x.to_le_bytes()) }
pub fn rt_ne(x: f256) -> f256 { f256::from_ne_bytes(x.to_ne_bytes()) }
pub fn to_be(x: f256) -> [u8; 32] { x.to_be_bytes() }
pub fn to_le(x: f256) -> [u8; 32] { x.to_le_bytes() }
pub fn to_ne(x: f256) -> [u8; 32] { x.to_ne_bytes() }
pub fn from_be(b: [u8; 32]) -> f256 { f256::from_be_bytes(b) }
pub fn from_le(b: [u8; 32]) -> f256 { f256::from_le_bytes(b) }
pub fn from_ne(b: [u8; 32]) -> f256 { f256::from_ne_bytes(b) }
pub fn from_ses(s: u32, t: i32, c: (u128, u128)) -> f256 { f256::from_sign_exp_signif(s, t, c) }
pub fn as_ses(x: f256) -> (u32, i32, (u128, u128)) { x.as_sign_exp_signif() }
pub fn rt_ses(x: f256) -> f256 {
    let (s, t, c) = x.as_sign_exp_signif();
    f256::from_sign_exp_signif(s, t, c)
}

// classification
pub fn is_nan(x: f256) -> bool { x.is_nan() }
pub fn is_infinite(x: f256) -> bool { x.is_infinite() }
pub fn is_finite(x: f256) -> bool { x.is_finite() }
pub fn is_subnormal(x: f256) -> bool { x.is_subnormal() }
pub fn is_normal(x: f256) -> bool { x.is_normal() }
pub fn eq_zero(x: f256) -> bool { x.eq_zero() }
pub fn is_special(x: f256) -> bool { x.is_special() }
pub fn is_sign_positive(x: f256) -> bool { x.is_sign_positive() }
pub fn is_sign_negative(x: f256) -> bool { x.is_sign_negative() }
pub fn classify(x: f256) -> u8 {
    match x.classify() {
        FpCategory::Nan => 0,
        FpCategory::Infinite => 1,
        FpCategory::Zero => 2,
        FpCategory::Subnormal => 3,
        FpCategory::Normal => 4,
    }
}

// comparison
pub fn eq(x: f256, y: f256) -> bool { x == y }
pub fn ne(x: f256, y: f256) -> bool { x != y }
pub fn lt(x: f256, y: f256) -> bool { x < y }
pub fn le(x: f256, y: f256) -> bool { x <= y }
pub fn gt(x: f256, y: f256) -> bool { x > y }
pub fn ge(x: f256, y: f256) -> bool { x >= y }
fn ord(o: Ordering) -> u8 {
    match o {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    }
}
pub fn partial_cmp(x: f256, y: f256) -> u8 {
    match x.partial_cmp(&y) { None => 3, Some(o) => ord(o) }
}
pub fn total_cmp(x: f256, y: f256) -> u8 { ord(x.total_cmp(&y)) }
pub fn max(x: f256, y: f256) -> f256 { x.max(y) }
pub fn min(x: f256, y: f256) -> f256 { x.min(y) }
pub fn clamp(x: f256, a: f256, b: f256) -> f256 { x.clamp(a, b) }

// integral rounding
pub fn trunc(x: f256) -> f256 { x.trunc() }
pub fn fract(x: f256) -> f256 { x.fract() }
pub fn split(x: f256) -> (f256, f256) { x.split() }
pub fn ceil(x: f256) -> f256 { x.ceil() }
pub fn floor(x: f256) -> f256 { x.floor() }
pub fn round(x: f256) -> f256 { x.round() }
pub fn round_tie_even(x: f256) -> f256 { x.round_tie_even() }

// conversions
pub fn from_i8(i: i8) -> f256 { f256::from(i) }
pub fn from_i16(i: i16) -> f256 { f256::from(i) }
pub fn from_i32(i: i32) -> f256 { f256::from(i) }
pub fn from_i64(i: i64) -> f256 { f256::from(i) }
pub fn from_i128(i: i128) -> f256 { f256::from(i) }
pub fn from_u8(i: u8) -> f256 { f256::from(i) }
pub fn from_u16(i: u16) -> f256 { f256::from(i) }
pub fn from_u32(i: u32) -> f256 { f256::from(i) }
pub fn from_u64(i: u64) -> f256 { f256::from(i) }
pub fn from_u128(i: u128) -> f256 { f256::from(i) }
pub fn from_f32(b: u32) -> f256 { f256::from(f32::from_bits(b)) }
pub fn from_f64(b: u64) -> f256 { f256::from(f64::from_bits(b)) }

// elementary functions
pub fn sin(x: f256) -> f256 { x.sin() }
pub fn cos(x: f256) -> f256 { x.cos() }
pub fn tan(x: f256) -> f256 { x.tan() }
pub fn sin_cos(x: f256) -> (f256, f256) { x.sin_cos() }
pub fn asin(x: f256) -> f256 { x.asin() }
pub fn acos(x: f256) -> f256 { x.acos() }
pub fn atan(x: f256) -> f256 { x.atan() }
pub fn atan2(x: f256, y: f256) -> f256 { x.atan2(&y) }
pub fn ln(x: f256) -> f256 { x.ln() }
pub fn ln_1p(x: f256) -> f256 { x.ln_1p() }
pub fn log2(x: f256) -> f256 { x.log2() }
pub fn log10(x: f256) -> f256 { x.log10() }
pub fn log(x: f256, b: f256) -> f256 { x.log(b) }

// text
pub fn parse(s: &[u8]) -> Result<f256, <f256 as core::str::FromStr>::Err> {
    core::str::FromStr::from_str(unsafe { core::str::from_utf8_unchecked(s) })
}
pub fn try_from_str(s: &'static str) -> Result<f256, <f256 as core::str::FromStr>::Err> { f256::try_from(s) }
pub fn display(x: f256, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Display::fmt(&x, f) }
pub fn debug(x: f256, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(&x, f) }
pub fn lower_exp(x: f256, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::LowerExp::fmt(&x, f) }
pub fn upper_exp(x: f256, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::UpperExp::fmt(&x, f) }

// relational: two runs compared
pub fn pair_sin(x: f256) -> (f256, f256) { (x.sin(), (-x).sin()) }
pub fn pair_cos(x: f256) -> (f256, f256) { (x.cos(), (-x).cos()) }
pub fn pair_tan(x: f256) -> (f256, f256) { (x.tan(), (-x).tan()) }
pub fn pair_asin(x: f256) -> (f256, f256) { (x.asin(), (-x).asin()) }
pub fn pair_atan(x: f256) -> (f256, f256) { (x.atan(), (-x).atan()) }
pub fn pair_sc_sin(x: f256) -> (f256, f256) { (x.sin_cos().0, x.sin()) }
pub fn pair_sc_cos(x: f256) -> (f256, f256) { (x.sin_cos().1, x.cos()) }
pub fn pair_tan_sc(x: f256) -> (f256, f256) { let (s, c) = x.sin_cos(); (x.tan(), s / c) }
