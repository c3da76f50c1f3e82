// entry points only (see interval.rs)
use algebraics::traits::*;
use num_bigint::{BigInt, BigUint};
use num_rational::Ratio;

macro_rules! common { ($m:ident, $t:ty) => { pub mod $m {
    use super::*;
    pub fn fl(a: &$t) -> Option<usize> { FloorLog2::floor_log2(a) }
    pub fn cl(a: &$t) -> Option<usize> { CeilLog2::ceil_log2(a) }
    pub fn tz(a: &$t) -> Option<usize> { TrailingZeros::trailing_zeros(a) }
    pub fn g(a: &$t, b: &$t) -> $t { GCD::gcd(a, b) }
    pub fn l(a: &$t, b: &$t) -> $t { GCD::lcm(a, b) }
    pub fn gl(a: &$t, b: &$t) -> GCDAndLCM<$t> { GCD::gcd_lcm(a, b) }
    pub fn e1(a: &$t, b: &$t) -> $t { ExactDiv::exact_div(a, b) }
    pub fn e2(a: $t, b: &$t) -> $t { ExactDiv::exact_div(a, b) }
    pub fn e3(a: &$t, b: $t) -> $t { ExactDiv::exact_div(a, b) }
    pub fn e4(a: $t, b: $t) -> $t { ExactDiv::exact_div(a, b) }
    pub fn c1(a: &$t, b: &$t) -> Option<$t> { ExactDiv::checked_exact_div(a, b) }
    pub fn c2(a: $t, b: &$t) -> Option<$t> { ExactDiv::checked_exact_div(a, b) }
    pub fn c3(a: &$t, b: $t) -> Option<$t> { ExactDiv::checked_exact_div(a, b) }
    pub fn c4(a: $t, b: $t) -> Option<$t> { ExactDiv::checked_exact_div(a, b) }
    pub fn a1(a: &mut $t, b: &$t) { a.exact_div_assign(b) }
    pub fn a2(a: &mut $t, b: $t) { a.exact_div_assign(b) }
    pub fn b1(a: &mut $t, b: &$t) -> Result<(), ()> { a.checked_exact_div_assign(b) }
    pub fn b2(a: &mut $t, b: $t) -> Result<(), ()> { a.checked_exact_div_assign(b) }
} } }
common!(m_u8, u8); common!(m_u16, u16); common!(m_u32, u32); common!(m_u64, u64); common!(m_u128, u128); common!(m_usize, usize);
common!(m_i8, i8); common!(m_i16, i16); common!(m_i32, i32); common!(m_i64, i64); common!(m_i128, i128); common!(m_isize, isize);
common!(m_big, BigInt); common!(m_bigu, BigUint);

macro_rules! signed { ($m:ident, $t:ty) => { pub mod $m {
    use super::*;
    pub fn x(a: &$t, b: &$t) -> ExtendedGCDResult<$t> { ExtendedGCD::extended_gcd(a, b) }
    pub fn xl(a: &$t, b: &$t) -> ExtendedGCDAndLCM<$t> { ExtendedGCD::extended_gcd_lcm(a, b) }
} } }
signed!(s_i8, i8); signed!(s_i16, i16); signed!(s_i32, i32); signed!(s_i64, i64); signed!(s_i128, i128); signed!(s_isize, isize); signed!(s_big, BigInt);
signed!(s_q, Ratio<BigInt>);

pub mod q {
    use super::*;
    type Q = Ratio<BigInt>;
    pub fn g(a: &Q, b: &Q) -> Q { GCD::gcd(a, b) }
    pub fn l(a: &Q, b: &Q) -> Q { GCD::lcm(a, b) }
    pub fn gl(a: &Q, b: &Q) -> GCDAndLCM<Q> { GCD::gcd_lcm(a, b) }
    macro_rules! ed { ($m:ident, $r:ty) => { pub mod $m {
        use super::*;
        pub fn e1(a: &Q, b: &$r) -> Q { ExactDiv::exact_div(a, b) }
        pub fn e2(a: Q, b: &$r) -> Q { ExactDiv::exact_div(a, b) }
        pub fn e3(a: &Q, b: $r) -> Q { ExactDiv::exact_div(a, b) }
        pub fn e4(a: Q, b: $r) -> Q { ExactDiv::exact_div(a, b) }
        pub fn c1(a: &Q, b: &$r) -> Option<Q> { ExactDiv::checked_exact_div(a, b) }
        pub fn c2(a: Q, b: &$r) -> Option<Q> { ExactDiv::checked_exact_div(a, b) }
        pub fn c3(a: &Q, b: $r) -> Option<Q> { ExactDiv::checked_exact_div(a, b) }
        pub fn c4(a: Q, b: $r) -> Option<Q> { ExactDiv::checked_exact_div(a, b) }
        pub fn a1(a: &mut Q, b: &$r) { a.exact_div_assign(b) }
        pub fn a2(a: &mut Q, b: $r) { a.exact_div_assign(b) }
        pub fn b1(a: &mut Q, b: &$r) -> Result<(), ()> { a.checked_exact_div_assign(b) }
        pub fn b2(a: &mut Q, b: $r) -> Result<(), ()> { a.checked_exact_div_assign(b) }
    } } }
    ed!(byq, Q); ed!(byint, BigInt);
}
