//! instantiations of the public real algebraic number API (no logic)
use algebraics::algebraic_numbers::RealAlgebraicNumber as N;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use num_bigint::{BigInt, BigUint};
use num_rational::Ratio;
use num_traits::{One, Pow, Signed, Zero};
use std::cmp::Ordering;
use std::ops::*;

macro_rules! from {
    ($($n:ident $r:ident $t:ty;)*) => { $(
        pub fn $n(v: $t) -> N { N::from(v) }
        pub fn $r(v: Ratio<$t>) -> N { N::from(v) }
    )* };
}
from! { f_u8 r_u8 u8; f_u16 r_u16 u16; f_u32 r_u32 u32; f_u64 r_u64 u64; f_u128 r_u128 u128; f_usize r_usize usize; f_bu r_bu BigUint;
        f_i8 r_i8 i8; f_i16 r_i16 i16; f_i32 r_i32 i32; f_i64 r_i64 i64; f_i128 r_i128 i128; f_isize r_isize isize; f_bi r_bi BigInt; }

macro_rules! bin {
    ($($a:ident $b:ident $c:ident $d:ident $e:ident $f:ident $op:ident $opa:ident $tr:ident $tra:ident;)*) => { $(
        pub fn $a(a: N, b: N) -> N { $tr::$op(a, b) }
        pub fn $b(a: N, b: &N) -> N { $tr::$op(a, b) }
        pub fn $c(a: &N, b: N) -> N { $tr::$op(a, b) }
        pub fn $d(a: &N, b: &N) -> N { $tr::$op(a, b) }
        pub fn $e(a: &mut N, b: N) { $tra::$opa(a, b) }
        pub fn $f(a: &mut N, b: &N) { $tra::$opa(a, b) }
    )* };
}
bin! {
    add1 add2 add3 add4 add5 add6 add add_assign Add AddAssign;
    sub1 sub2 sub3 sub4 sub5 sub6 sub sub_assign Sub SubAssign;
    mul1 mul2 mul3 mul4 mul5 mul6 mul mul_assign Mul MulAssign;
    div1 div2 div3 div4 div5 div6 div div_assign Div DivAssign;
    rem1 rem2 rem3 rem4 rem5 rem6 rem rem_assign Rem RemAssign;
    ex1 ex2 ex3 ex4 ex5 ex6 exact_div exact_div_assign ExactDiv ExactDivAssign;
}
pub fn cx1(a: N, b: N) -> Option<N> { a.checked_exact_div(b) }
pub fn cx2(a: N, b: &N) -> Option<N> { a.checked_exact_div(b) }
pub fn cx3(a: &N, b: N) -> Option<N> { a.checked_exact_div(b) }
pub fn cx4(a: &N, b: &N) -> Option<N> { a.checked_exact_div(b) }
pub fn cx5(a: &mut N, b: N) -> Result<(), ()> { a.checked_exact_div_assign(b) }
pub fn cx6(a: &mut N, b: &N) -> Result<(), ()> { a.checked_exact_div_assign(b) }

pub fn neg1(a: N) -> N { -a }
pub fn neg2(a: &N) -> N { -a }
pub fn zero() -> N { N::zero() }
pub fn one() -> N { N::one() }
pub fn negative_one() -> N { N::negative_one() }
pub fn set_zero(a: &mut N) { a.set_zero() }
pub fn set_one(a: &mut N) { a.set_one() }
pub fn set_negative_one(a: &mut N) { a.set_negative_one() }
pub fn is_zero(a: &N) -> bool { a.is_zero() }
pub fn is_one(a: &N) -> bool { a.is_one() }
pub fn is_negative_one(a: &N) -> bool { a.is_negative_one() }
pub fn abs(a: &N) -> N { a.abs() }
pub fn abs_sub(a: &N, b: &N) -> N { a.abs_sub(b) }
pub fn signum(a: &N) -> N { a.signum() }
pub fn is_positive(a: &N) -> bool { a.is_positive() }
pub fn is_negative(a: &N) -> bool { a.is_negative() }
pub fn eq(a: &N, b: &N) -> bool { a == b }
pub fn cmp(a: &N, b: &N) -> Ordering { a.cmp(b) }
pub fn partial_cmp(a: &N, b: &N) -> Option<Ordering> { a.partial_cmp(b) }
pub fn cmp_with_zero(a: &N) -> Ordering { a.cmp_with_zero() }
pub fn degree(a: &N) -> usize { a.degree() }
pub fn is_rational(a: &N) -> bool { a.is_rational() }
pub fn is_integer(a: &N) -> bool { a.is_integer() }
pub fn to_rational(a: &N) -> Option<Ratio<BigInt>> { a.to_rational() }
pub fn to_integer(a: &N) -> Option<BigInt> { a.to_integer() }
pub fn into_integer_floor(a: N) -> BigInt { a.into_integer_floor() }
pub fn to_integer_floor(a: &N) -> BigInt { a.to_integer_floor() }
pub fn into_floor(a: N) -> N { a.into_floor() }
pub fn floor(a: &N) -> N { a.floor() }
pub fn into_integer_ceil(a: N) -> BigInt { a.into_integer_ceil() }
pub fn to_integer_ceil(a: &N) -> BigInt { a.to_integer_ceil() }
pub fn into_ceil(a: N) -> N { a.into_ceil() }
pub fn ceil(a: &N) -> N { a.ceil() }
pub fn into_integer_trunc(a: N) -> BigInt { a.into_integer_trunc() }
pub fn to_integer_trunc(a: &N) -> BigInt { a.to_integer_trunc() }
pub fn into_trunc(a: N) -> N { a.into_trunc() }
pub fn trunc(a: &N) -> N { a.trunc() }
pub fn into_fract(a: N) -> N { a.into_fract() }
pub fn fract(a: &N) -> N { a.fract() }
pub fn checked_recip(a: &N) -> Option<N> { a.checked_recip() }
pub fn recip(a: &N) -> N { a.recip() }
pub fn to_integer_log2(a: &N) -> Option<i64> { a.to_integer_log2() }
pub fn into_checked_floor_log2(a: N) -> Option<i64> { a.into_checked_floor_log2() }
pub fn checked_floor_log2(a: &N) -> Option<i64> { a.checked_floor_log2() }
pub fn into_checked_ceil_log2(a: N) -> Option<i64> { a.into_checked_ceil_log2() }
pub fn checked_ceil_log2(a: &N) -> Option<i64> { a.checked_ceil_log2() }

macro_rules! pow {
    ($($a:ident $b:ident $c:ident $d:ident $t:ty;)*) => { $(
        pub fn $a(a: N, e: $t) -> Option<N> { a.checked_into_pow(e) }
        pub fn $b(a: &N, e: $t) -> Option<N> { a.checked_pow(e) }
        pub fn $c(a: N, e: $t) -> N { Pow::pow(a, e) }
        pub fn $d(a: &N, e: $t) -> N { Pow::pow(a, e) }
    )* };
}
pow! { p_r1 p_r2 p_r3 p_r4 Ratio<BigInt>; p_rr1 p_rr2 p_rr3 p_rr4 &Ratio<BigInt>; p_b1 p_b2 p_b3 p_b4 BigInt; p_i1 p_i2 p_i3 p_i4 i32; p_u1 p_u2 p_u3 p_u4 u64; p_s1 p_s2 p_s3 p_s4 usize;
       p_bu1 p_bu2 p_bu3 p_bu4 BigUint; p_ri1 p_ri2 p_ri3 p_ri4 Ratio<i64>; p_t1 p_t2 p_t3 p_t4 (BigInt, BigInt); p_i81 p_i82 p_i83 p_i84 i8; p_i128a p_i128b p_i128c p_i128d i128; }
