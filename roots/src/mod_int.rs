// entry points only (see interval.rs)
use algebraics::mod_int::*;
use algebraics::traits::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub};

macro_rules! ring { ($m:ident, $v:ty, $md:ty) => { pub mod $m {
    use super::*;
    type T = ModularInteger<$v, $md>;
    pub fn n1(a: $v, m: $md) -> T { ModularInteger::new(a, m) }
    pub fn n2(a: ($v, $md)) -> T { T::from(a) }
    pub fn n3(a: T) -> ($v, $md) { a.into() }
    pub fn n4(a: &T) -> &$v { a.value() }
    pub fn n5(a: &T) -> &$md { a.modulus() }
    pub fn n6(a: &T, b: &T) -> bool { a.has_matching_moduli(b) }
    pub fn a1(a: T, b: T) -> T { a + b }
    pub fn a2(a: &T, b: T) -> T { a + b }
    pub fn a3(a: T, b: &T) -> T { a + b }
    pub fn a4(a: &T, b: &T) -> T { a + b }
    pub fn a5(a: &mut T, b: T) { *a += b }
    pub fn a6(a: &mut T, b: &T) { *a += b }
    pub fn a7(a: &T, b: &T) -> Option<T> { a.checked_add(b) }
    pub fn s1(a: T, b: T) -> T { a - b }
    pub fn s2(a: &T, b: T) -> T { a - b }
    pub fn s3(a: T, b: &T) -> T { a - b }
    pub fn s4(a: &T, b: &T) -> T { a - b }
    pub fn s5(a: &mut T, b: T) { *a -= b }
    pub fn s6(a: &mut T, b: &T) { *a -= b }
    pub fn s7(a: &T, b: &T) -> Option<T> { a.checked_sub(b) }
    pub fn m1(a: T, b: T) -> T { a * b }
    pub fn m2(a: &T, b: T) -> T { a * b }
    pub fn m3(a: T, b: &T) -> T { a * b }
    pub fn m4(a: &T, b: &T) -> T { a * b }
    pub fn m5(a: &mut T, b: T) { *a *= b }
    pub fn m6(a: &mut T, b: &T) { *a *= b }
    pub fn m7(a: &T, b: &T) -> Option<T> { a.checked_mul(b) }
    pub fn g1(a: T) -> T { -a }
    pub fn g2(a: &T) -> T { -a }
    pub fn g3(a: &mut T) { a.neg_assign() }
    pub fn f1(a: u8, m: $md) -> T { T::from_u8(a, m) }
    pub fn f2(a: u16, m: $md) -> T { T::from_u16(a, m) }
    pub fn f3(a: u32, m: $md) -> T { T::from_u32(a, m) }
    pub fn f4(a: u64, m: $md) -> T { T::from_u64(a, m) }
    pub fn f5(a: u128, m: $md) -> T { T::from_u128(a, m) }
    pub fn f6(a: usize, m: $md) -> T { T::from_usize(a, m) }
    pub fn f7(a: i8, m: $md) -> T { T::from_i8(a, m) }
    pub fn f8(a: i16, m: $md) -> T { T::from_i16(a, m) }
    pub fn f9(a: i32, m: $md) -> T { T::from_i32(a, m) }
    pub fn f10(a: i64, m: $md) -> T { T::from_i64(a, m) }
    pub fn f11(a: i128, m: $md) -> T { T::from_i128(a, m) }
    pub fn f12(a: isize, m: $md) -> T { T::from_isize(a, m) }
    pub fn f13(a: &BigInt, m: $md) -> T { T::from_bigint(a, m) }
    pub fn f14(a: &BigUint, m: $md) -> T { T::from_biguint(a, m) }
} } }
macro_rules! div { ($m:ident, $v:ty, $md:ty) => { pub mod $m {
    use super::*;
    type T = ModularInteger<$v, $md>;
    pub fn i1(a: &T) -> Option<T> { a.checked_inverse() }
    pub fn i2(a: &T) -> T { a.inverse() }
    pub fn d1(a: T, b: T) -> T { a / b }
    pub fn d2(a: &T, b: T) -> T { a / b }
    pub fn d3(a: T, b: &T) -> T { a / b }
    pub fn d4(a: &T, b: &T) -> T { a / b }
    pub fn d5(a: &mut T, b: T) { *a /= b }
    pub fn d6(a: &mut T, b: &T) { *a /= b }
    pub fn d7(a: &T, b: &T) -> Option<T> { a.checked_div(b) }
    pub fn e1(a: &T, b: &T) -> T { ExactDiv::exact_div(a, b) }
    pub fn e2(a: T, b: &T) -> T { ExactDiv::exact_div(a, b) }
    pub fn e3(a: &T, b: T) -> T { ExactDiv::exact_div(a, b) }
    pub fn e4(a: T, b: T) -> T { ExactDiv::exact_div(a, b) }
    pub fn c1(a: &T, b: &T) -> Option<T> { ExactDiv::checked_exact_div(a, b) }
    pub fn c2(a: T, b: &T) -> Option<T> { ExactDiv::checked_exact_div(a, b) }
    pub fn c3(a: &T, b: T) -> Option<T> { ExactDiv::checked_exact_div(a, b) }
    pub fn c4(a: T, b: T) -> Option<T> { ExactDiv::checked_exact_div(a, b) }
    pub fn a1(a: &mut T, b: &T) { a.exact_div_assign(b) }
    pub fn a2(a: &mut T, b: T) { a.exact_div_assign(b) }
    pub fn b1(a: &mut T, b: &T) -> Result<(), ()> { a.checked_exact_div_assign(b) }
    pub fn b2(a: &mut T, b: T) -> Result<(), ()> { a.checked_exact_div_assign(b) }
} } }
macro_rules! forms { ($m:ident, $v:ty, $md:ty) => { pub mod $m {
    use super::*;
    pub fn r1(a: &mut $v, m: $md) { a.modular_reduce_assign(m) }
    pub fn r2(a: $v, m: $md) -> $v { a.modular_reduce(m) }
    macro_rules! bin { ($n:ident, $x1:ident, $x2:ident, $x3:ident, $x4:ident, $x5:ident, $x6:ident) => { pub mod $n {
        use super::*;
        pub fn x1(a: &$v, b: &$v, m: $md) -> $v { a.$x1(b, m) }
        pub fn x2(a: $v, b: &$v, m: $md) -> $v { a.$x2(b, m) }
        pub fn x3(a: &$v, b: $v, m: $md) -> $v { a.$x3(b, m) }
        pub fn x4(a: $v, b: $v, m: $md) -> $v { a.$x4(b, m) }
        pub fn x5(a: &mut $v, b: &$v, m: $md) { a.$x5(b, m) }
        pub fn x6(a: &mut $v, b: $v, m: $md) { a.$x6(b, m) }
    } } }
    bin!(add, modular_add_ref_ref, modular_add_move_ref, modular_add_ref_move, modular_add_move_move, modular_add_ref_assign, modular_add_move_assign);
    bin!(sub, modular_sub_ref_ref, modular_sub_move_ref, modular_sub_ref_move, modular_sub_move_move, modular_sub_ref_assign, modular_sub_move_assign);
    bin!(mul, modular_mul_ref_ref, modular_mul_move_ref, modular_mul_ref_move, modular_mul_move_move, modular_mul_ref_assign, modular_mul_move_assign);
    pub fn g1(a: &$v, m: $md) -> $v { a.modular_neg_ref(m) }
    pub fn g2(a: $v, m: $md) -> $v { a.modular_neg_move(m) }
    pub fn g3(a: &mut $v, m: $md) { a.modular_neg_assign(m) }
    pub fn m1(m: &$md) -> $v { Modulus::<$v>::to_modulus(m).into_owned() }
    pub fn m2(m: $md) -> $v { Modulus::<$v>::into_modulus(m) }
} } }
macro_rules! all { ($($m:ident $d:ident $f:ident $v:ty, $md:ty;)*) => { $(ring!($m, $v, $md); forms!($f, $v, $md);)* } }
all!(u8r u8d u8f u8, u8; i8r i8d i8f i8, i8; u16r u16d u16f u16, u16; i16r i16d i16f i16, i16; u32r u32d u32f u32, u32; i32r i32d i32f i32, i32;
     u64r u64d u64f u64, u64; i64r i64d i64f i64, i64; u128r u128d u128f u128, u128; i128r i128d i128f i128, i128; usizer usized usizef usize, usize; isizer isized isizef isize, isize;
     br bd bf BigInt, BigInt; bur bud buf BigUint, BigUint;
     kpr kpd kpf i32, KnownPrime<i32>; kopr kopd kopf i32, KnownOddPrime<i32>; m7r m7d m7f i32, Mod7; bkpr bkpd bkpf BigInt, KnownPrime<BigInt>; u8m16r u8m16d u8m16f u8, Mod16;);
div!(i8d, i8, i8); div!(i16d, i16, i16); div!(i32d, i32, i32); div!(i64d, i64, i64); div!(i128d, i128, i128); div!(isized, isize, isize); div!(bd, BigInt, BigInt);
div!(kopd, i32, KnownOddPrime<i32>); div!(m7d, i32, Mod7); div!(bkpd, BigInt, KnownPrime<BigInt>);

pub mod pw {
    use super::*;
    macro_rules! p { ($($n:ident $v:ty, $e:ty;)*) => { $(pub fn $n(a: &$v, e: &$e, m: $v) -> $v { a.pow_modular_reduce(e, m) })* } }
    p!(a1 u8, usize; a2 i8, usize; a3 u16, usize; a4 i16, usize; a5 u32, usize; a6 i32, usize; a7 u64, usize; a8 i64, usize; a9 u128, usize; a10 i128, usize; a11 usize, usize; a12 isize, usize;
       b1 u8, BigInt; b2 i32, BigInt; b3 i64, BigUint; b4 i64, i64; b5 u8, u8; b6 i8, i8; b7 u32, u32; b8 i128, i128;
       c1 BigInt, BigInt; c2 BigInt, usize; c3 BigUint, usize; c4 BigUint, BigUint; c5 BigInt, u32;);
}

macro_rules! stat { ($($m:ident $n:ident)*) => { $(pub mod $n {
    use super::*;
    macro_rules! t { ($d:ident: $v:ty) => { pub mod $d { use super::*;
        pub fn a(m: $m) -> $v { Modulus::<$v>::into_modulus(m) }
        pub fn b(m: &$m) -> $v { Modulus::<$v>::to_modulus(m).into_owned() }
        pub fn c() -> $v { <$m as StaticModulus<$v>>::get_modulus() }
    } } }
    t!(u8_: u8); t!(i8_: i8); t!(u16_: u16); t!(i16_: i16); t!(u32_: u32); t!(i32_: i32); t!(u64_: u64); t!(i64_: i64); t!(u128_: u128); t!(i128_: i128); t!(us_: usize); t!(is_: isize); t!(b_: BigInt); t!(bu_: BigUint);
})* } }
stat!(Mod1 s1 Mod2 s2 Mod3 s3 Mod4 s4 Mod5 s5 Mod6 s6 Mod7 s7 Mod8 s8 Mod9 s9 Mod10 s10 Mod11 s11 Mod12 s12 Mod13 s13 Mod14 s14 Mod15 s15 Mod16 s16);
