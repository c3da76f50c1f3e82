// entry points only: each root calls the real API so that the driver monomorphises it;
// contracts attach to the callee items, never to these wrappers.
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::traits::{ExactDiv, ExactDivAssign, IntervalUnion, IntervalUnionAssign};
use num_bigint::{BigInt, BigUint};
use num_rational::Ratio;
use num_traits::Pow;
type Q = Ratio<BigInt>;

pub fn r1(a0: BigInt, a1: BigInt, a2: usize) -> D { D::new(a0, a1, a2) }
pub fn r2(a0: Q, a1: Q, a2: usize) -> D { D::from_ratio_range(a0, a1, a2) }
pub fn r3(a0: Q, a1: usize) -> D { D::from_ratio(a0, a1) }
pub fn r4(a0: BigInt, a1: usize) -> D { D::from_int(a0, a1) }
pub fn r5(a0: BigInt, a1: BigInt, a2: usize) -> D { D::from_int_range(a0, a1, a2) }
pub fn r6(a0: BigInt, a1: usize) -> D { D::from_dyadic_fraction(a0, a1) }
pub fn r7(a0: usize) -> D { D::zero(a0) }
pub fn r8(a0: usize) -> D { D::one(a0) }
pub fn r9(a0: usize) -> D { D::negative_one(a0) }
pub fn r10(a: &mut D) -> () { a.set_zero() }
pub fn r11(a: &mut D) -> () { a.set_one() }
pub fn r12(a: &mut D) -> () { a.set_negative_one() }
pub fn r13(a: &mut D) -> () { a.set_to_lower_bound() }
pub fn r14(a: &mut D) -> () { a.set_to_upper_bound() }
pub fn r15(a: &mut D) -> () { a.set_lower_bound_to_zero() }
pub fn r16(a: &mut D) -> () { a.set_upper_bound_to_zero() }
pub fn r17(a: &mut D) -> () { a.square_assign() }
pub fn r18(a: &mut D) -> () { a.sqrt_assign() }
pub fn r19(a: &mut D) -> () { a.abs_assign() }
pub fn r20(a: &mut D, v: BigInt) -> () { a.set_lower_bound_numer(v) }
pub fn r21(a: &mut D, v: BigInt) -> () { a.set_upper_bound_numer(v) }
pub fn r22(a: &mut D, v: usize) -> () { a.convert_log2_denom(v) }
pub fn r23(a: &mut D, v: usize) -> () { a.floor_assign(v) }
pub fn r24(a: &mut D, v: usize) -> () { a.ceil_assign(v) }
pub fn r25(a: D, v: usize) -> D { a.into_converted_log2_denom(v) }
pub fn r26(a: D, v: usize) -> D { a.into_floor(v) }
pub fn r27(a: D, v: usize) -> D { a.into_ceil(v) }
pub fn r28(a: &D, v: usize) -> D { a.to_converted_log2_denom(v) }
pub fn r29(a: &D, v: usize) -> D { a.floor(v) }
pub fn r30(a: &D, v: usize) -> D { a.ceil(v) }
pub fn r31(a: D) -> D { a.into_square() }
pub fn r32(a: D) -> D { a.into_sqrt() }
pub fn r33(a: D) -> D { a.into_abs() }
pub fn r34(a: D) -> D { a.into_exp() }
pub fn r35(a: &D) -> D { a.recip() }
pub fn r36(a: &D) -> D { a.square() }
pub fn r37(a: &D) -> D { a.sqrt() }
pub fn r38(a: &D) -> D { a.abs() }
pub fn r39(a: &D) -> D { a.log() }
pub fn r40(a: &D) -> D { a.exp() }
pub fn r41(a: &D) -> Option<D> { a.checked_recip() }
pub fn r42(a: D) -> (Q,Q) { a.into_ratio_range() }
pub fn r43(a: &D) -> (Q,Q) { a.to_ratio_range() }
pub fn r44(a: D) -> Q { a.into_lower_bound() }
pub fn r45(a: D) -> Q { a.into_upper_bound() }
pub fn r46(a: &D) -> Q { a.lower_bound() }
pub fn r47(a: &D) -> Q { a.upper_bound() }
pub fn r48(a: &D) -> usize { a.log2_denom() }
pub fn r49(a: &D) -> &BigInt { a.lower_bound_numer() }
pub fn r50(a: &D) -> &BigInt { a.upper_bound_numer() }
pub fn r51(a: D) -> (BigInt,BigInt,usize) { a.destructure() }
pub fn r52(a: &D) -> bool { a.contains_zero() }
pub fn r53(a: &D, b: &D) -> bool { a.is_same(b) }
pub fn r54(a: D) -> D { -a }
pub fn r55(a: &D) -> D { -a }
pub fn r56(a: &mut D, b: D) -> () { a.interval_union_assign(b) }
pub fn r57(a: &mut D, b: D) -> () { a.exact_div_assign(b) }
pub fn r58(a: &mut D, b: D) -> Result<(),()> { a.checked_exact_div_assign(b) }
pub fn r59(a: D, b: D) -> D { a.interval_union(b) }
pub fn r60(a: D, b: D) -> D { a.exact_div(b) }
pub fn r61(a: D, b: D) -> Option<D> { a.checked_exact_div(b) }
pub fn r62(a: &D, b: D) -> D { a.interval_union(b) }
pub fn r63(a: &D, b: D) -> D { a.exact_div(b) }
pub fn r64(a: &D, b: D) -> Option<D> { a.checked_exact_div(b) }
pub fn r65(a: &mut D, b: &D) -> () { a.interval_union_assign(b) }
pub fn r66(a: &mut D, b: &D) -> () { a.exact_div_assign(b) }
pub fn r67(a: &mut D, b: &D) -> Result<(),()> { a.checked_exact_div_assign(b) }
pub fn r68(a: D, b: &D) -> D { a.interval_union(b) }
pub fn r69(a: D, b: &D) -> D { a.exact_div(b) }
pub fn r70(a: D, b: &D) -> Option<D> { a.checked_exact_div(b) }
pub fn r71(a: &D, b: &D) -> D { a.interval_union(b) }
pub fn r72(a: &D, b: &D) -> D { a.exact_div(b) }
pub fn r73(a: &D, b: &D) -> Option<D> { a.checked_exact_div(b) }
pub fn r74(a: D, b: D) -> D { a.into_arithmetic_geometric_mean(b) }
pub fn r75(a: &D, b: &D) -> D { a.arithmetic_geometric_mean(b) }
pub fn r76(n: usize) -> D { D::sqrt_2(n) }
pub fn r77(n: usize) -> D { D::natural_log_of_2(n) }
pub fn r78(a: D, e: u8) -> D { Pow::pow(a,e) }
pub fn r79(a: &D, e: u8) -> D { Pow::pow(a,e) }
pub fn r80(a: D, e: i8) -> D { Pow::pow(a,e) }
pub fn r81(a: &D, e: i8) -> D { Pow::pow(a,e) }
pub fn r82(a: D, e: u32) -> D { Pow::pow(a,e) }
pub fn r83(a: &D, e: u32) -> D { Pow::pow(a,e) }
pub fn r84(a: D, e: i32) -> D { Pow::pow(a,e) }
pub fn r85(a: &D, e: i32) -> D { Pow::pow(a,e) }
pub fn r86(a: D, e: u64) -> D { Pow::pow(a,e) }
pub fn r87(a: &D, e: u64) -> D { Pow::pow(a,e) }
pub fn r88(a: D, e: i64) -> D { Pow::pow(a,e) }
pub fn r89(a: &D, e: i64) -> D { Pow::pow(a,e) }
pub fn r90(a: D, e: usize) -> D { Pow::pow(a,e) }
pub fn r91(a: &D, e: usize) -> D { Pow::pow(a,e) }
pub fn r92(a: D, e: BigInt) -> D { Pow::pow(a,e) }
pub fn r93(a: &D, e: BigInt) -> D { Pow::pow(a,e) }
pub fn r94(a: D, e: BigUint) -> D { Pow::pow(a,e) }
pub fn r95(a: &D, e: BigUint) -> D { Pow::pow(a,e) }
pub fn r96(a: &mut D, b: D) -> () { *a += b }
pub fn r97(a: D, b: D) -> D { a + b }
pub fn r98(a: &D, b: D) -> D { a + b }
pub fn r99(a: &mut D, b: &D) -> () { *a += b }
pub fn r100(a: D, b: &D) -> D { a + b }
pub fn r101(a: &D, b: &D) -> D { a + b }
pub fn r102(a: &mut D, b: u8) -> () { *a += b }
pub fn r103(a: D, b: u8) -> D { a + b }
pub fn r104(a: &D, b: u8) -> D { a + b }
pub fn r105(a: &mut D, b: &u8) -> () { *a += b }
pub fn r106(a: D, b: &u8) -> D { a + b }
pub fn r107(a: &D, b: &u8) -> D { a + b }
pub fn r108(a: &mut D, b: u16) -> () { *a += b }
pub fn r109(a: D, b: u16) -> D { a + b }
pub fn r110(a: &D, b: u16) -> D { a + b }
pub fn r111(a: &mut D, b: &u16) -> () { *a += b }
pub fn r112(a: D, b: &u16) -> D { a + b }
pub fn r113(a: &D, b: &u16) -> D { a + b }
pub fn r114(a: &mut D, b: u32) -> () { *a += b }
pub fn r115(a: D, b: u32) -> D { a + b }
pub fn r116(a: &D, b: u32) -> D { a + b }
pub fn r117(a: &mut D, b: &u32) -> () { *a += b }
pub fn r118(a: D, b: &u32) -> D { a + b }
pub fn r119(a: &D, b: &u32) -> D { a + b }
pub fn r120(a: &mut D, b: u64) -> () { *a += b }
pub fn r121(a: D, b: u64) -> D { a + b }
pub fn r122(a: &D, b: u64) -> D { a + b }
pub fn r123(a: &mut D, b: &u64) -> () { *a += b }
pub fn r124(a: D, b: &u64) -> D { a + b }
pub fn r125(a: &D, b: &u64) -> D { a + b }
pub fn r126(a: &mut D, b: u128) -> () { *a += b }
pub fn r127(a: D, b: u128) -> D { a + b }
pub fn r128(a: &D, b: u128) -> D { a + b }
pub fn r129(a: &mut D, b: &u128) -> () { *a += b }
pub fn r130(a: D, b: &u128) -> D { a + b }
pub fn r131(a: &D, b: &u128) -> D { a + b }
pub fn r132(a: &mut D, b: usize) -> () { *a += b }
pub fn r133(a: D, b: usize) -> D { a + b }
pub fn r134(a: &D, b: usize) -> D { a + b }
pub fn r135(a: &mut D, b: &usize) -> () { *a += b }
pub fn r136(a: D, b: &usize) -> D { a + b }
pub fn r137(a: &D, b: &usize) -> D { a + b }
pub fn r138(a: &mut D, b: i8) -> () { *a += b }
pub fn r139(a: D, b: i8) -> D { a + b }
pub fn r140(a: &D, b: i8) -> D { a + b }
pub fn r141(a: &mut D, b: &i8) -> () { *a += b }
pub fn r142(a: D, b: &i8) -> D { a + b }
pub fn r143(a: &D, b: &i8) -> D { a + b }
pub fn r144(a: &mut D, b: i16) -> () { *a += b }
pub fn r145(a: D, b: i16) -> D { a + b }
pub fn r146(a: &D, b: i16) -> D { a + b }
pub fn r147(a: &mut D, b: &i16) -> () { *a += b }
pub fn r148(a: D, b: &i16) -> D { a + b }
pub fn r149(a: &D, b: &i16) -> D { a + b }
pub fn r150(a: &mut D, b: i32) -> () { *a += b }
pub fn r151(a: D, b: i32) -> D { a + b }
pub fn r152(a: &D, b: i32) -> D { a + b }
pub fn r153(a: &mut D, b: &i32) -> () { *a += b }
pub fn r154(a: D, b: &i32) -> D { a + b }
pub fn r155(a: &D, b: &i32) -> D { a + b }
pub fn r156(a: &mut D, b: i64) -> () { *a += b }
pub fn r157(a: D, b: i64) -> D { a + b }
pub fn r158(a: &D, b: i64) -> D { a + b }
pub fn r159(a: &mut D, b: &i64) -> () { *a += b }
pub fn r160(a: D, b: &i64) -> D { a + b }
pub fn r161(a: &D, b: &i64) -> D { a + b }
pub fn r162(a: &mut D, b: i128) -> () { *a += b }
pub fn r163(a: D, b: i128) -> D { a + b }
pub fn r164(a: &D, b: i128) -> D { a + b }
pub fn r165(a: &mut D, b: &i128) -> () { *a += b }
pub fn r166(a: D, b: &i128) -> D { a + b }
pub fn r167(a: &D, b: &i128) -> D { a + b }
pub fn r168(a: &mut D, b: isize) -> () { *a += b }
pub fn r169(a: D, b: isize) -> D { a + b }
pub fn r170(a: &D, b: isize) -> D { a + b }
pub fn r171(a: &mut D, b: &isize) -> () { *a += b }
pub fn r172(a: D, b: &isize) -> D { a + b }
pub fn r173(a: &D, b: &isize) -> D { a + b }
pub fn r174(a: &mut D, b: BigUint) -> () { *a += b }
pub fn r175(a: D, b: BigUint) -> D { a + b }
pub fn r176(a: &D, b: BigUint) -> D { a + b }
pub fn r177(a: &mut D, b: &BigUint) -> () { *a += b }
pub fn r178(a: D, b: &BigUint) -> D { a + b }
pub fn r179(a: &D, b: &BigUint) -> D { a + b }
pub fn r180(a: &mut D, b: BigInt) -> () { *a += b }
pub fn r181(a: D, b: BigInt) -> D { a + b }
pub fn r182(a: &D, b: BigInt) -> D { a + b }
pub fn r183(a: &mut D, b: &BigInt) -> () { *a += b }
pub fn r184(a: D, b: &BigInt) -> D { a + b }
pub fn r185(a: &D, b: &BigInt) -> D { a + b }
pub fn r186(a: &mut D, b: Ratio<u8>) -> () { *a += b }
pub fn r187(a: D, b: Ratio<u8>) -> D { a + b }
pub fn r188(a: &D, b: Ratio<u8>) -> D { a + b }
pub fn r189(a: &mut D, b: &Ratio<u8>) -> () { *a += b }
pub fn r190(a: D, b: &Ratio<u8>) -> D { a + b }
pub fn r191(a: &D, b: &Ratio<u8>) -> D { a + b }
pub fn r192(a: &mut D, b: Ratio<u16>) -> () { *a += b }
pub fn r193(a: D, b: Ratio<u16>) -> D { a + b }
pub fn r194(a: &D, b: Ratio<u16>) -> D { a + b }
pub fn r195(a: &mut D, b: &Ratio<u16>) -> () { *a += b }
pub fn r196(a: D, b: &Ratio<u16>) -> D { a + b }
pub fn r197(a: &D, b: &Ratio<u16>) -> D { a + b }
pub fn r198(a: &mut D, b: Ratio<u32>) -> () { *a += b }
pub fn r199(a: D, b: Ratio<u32>) -> D { a + b }
pub fn r200(a: &D, b: Ratio<u32>) -> D { a + b }
pub fn r201(a: &mut D, b: &Ratio<u32>) -> () { *a += b }
pub fn r202(a: D, b: &Ratio<u32>) -> D { a + b }
pub fn r203(a: &D, b: &Ratio<u32>) -> D { a + b }
pub fn r204(a: &mut D, b: Ratio<u64>) -> () { *a += b }
pub fn r205(a: D, b: Ratio<u64>) -> D { a + b }
pub fn r206(a: &D, b: Ratio<u64>) -> D { a + b }
pub fn r207(a: &mut D, b: &Ratio<u64>) -> () { *a += b }
pub fn r208(a: D, b: &Ratio<u64>) -> D { a + b }
pub fn r209(a: &D, b: &Ratio<u64>) -> D { a + b }
pub fn r210(a: &mut D, b: Ratio<u128>) -> () { *a += b }
pub fn r211(a: D, b: Ratio<u128>) -> D { a + b }
pub fn r212(a: &D, b: Ratio<u128>) -> D { a + b }
pub fn r213(a: &mut D, b: &Ratio<u128>) -> () { *a += b }
pub fn r214(a: D, b: &Ratio<u128>) -> D { a + b }
pub fn r215(a: &D, b: &Ratio<u128>) -> D { a + b }
pub fn r216(a: &mut D, b: Ratio<usize>) -> () { *a += b }
pub fn r217(a: D, b: Ratio<usize>) -> D { a + b }
pub fn r218(a: &D, b: Ratio<usize>) -> D { a + b }
pub fn r219(a: &mut D, b: &Ratio<usize>) -> () { *a += b }
pub fn r220(a: D, b: &Ratio<usize>) -> D { a + b }
pub fn r221(a: &D, b: &Ratio<usize>) -> D { a + b }
pub fn r222(a: &mut D, b: Ratio<i8>) -> () { *a += b }
pub fn r223(a: D, b: Ratio<i8>) -> D { a + b }
pub fn r224(a: &D, b: Ratio<i8>) -> D { a + b }
pub fn r225(a: &mut D, b: &Ratio<i8>) -> () { *a += b }
pub fn r226(a: D, b: &Ratio<i8>) -> D { a + b }
pub fn r227(a: &D, b: &Ratio<i8>) -> D { a + b }
pub fn r228(a: &mut D, b: Ratio<i16>) -> () { *a += b }
pub fn r229(a: D, b: Ratio<i16>) -> D { a + b }
pub fn r230(a: &D, b: Ratio<i16>) -> D { a + b }
pub fn r231(a: &mut D, b: &Ratio<i16>) -> () { *a += b }
pub fn r232(a: D, b: &Ratio<i16>) -> D { a + b }
pub fn r233(a: &D, b: &Ratio<i16>) -> D { a + b }
pub fn r234(a: &mut D, b: Ratio<i32>) -> () { *a += b }
pub fn r235(a: D, b: Ratio<i32>) -> D { a + b }
pub fn r236(a: &D, b: Ratio<i32>) -> D { a + b }
pub fn r237(a: &mut D, b: &Ratio<i32>) -> () { *a += b }
pub fn r238(a: D, b: &Ratio<i32>) -> D { a + b }
pub fn r239(a: &D, b: &Ratio<i32>) -> D { a + b }
pub fn r240(a: &mut D, b: Ratio<i64>) -> () { *a += b }
pub fn r241(a: D, b: Ratio<i64>) -> D { a + b }
pub fn r242(a: &D, b: Ratio<i64>) -> D { a + b }
pub fn r243(a: &mut D, b: &Ratio<i64>) -> () { *a += b }
pub fn r244(a: D, b: &Ratio<i64>) -> D { a + b }
pub fn r245(a: &D, b: &Ratio<i64>) -> D { a + b }
pub fn r246(a: &mut D, b: Ratio<i128>) -> () { *a += b }
pub fn r247(a: D, b: Ratio<i128>) -> D { a + b }
pub fn r248(a: &D, b: Ratio<i128>) -> D { a + b }
pub fn r249(a: &mut D, b: &Ratio<i128>) -> () { *a += b }
pub fn r250(a: D, b: &Ratio<i128>) -> D { a + b }
pub fn r251(a: &D, b: &Ratio<i128>) -> D { a + b }
pub fn r252(a: &mut D, b: Ratio<isize>) -> () { *a += b }
pub fn r253(a: D, b: Ratio<isize>) -> D { a + b }
pub fn r254(a: &D, b: Ratio<isize>) -> D { a + b }
pub fn r255(a: &mut D, b: &Ratio<isize>) -> () { *a += b }
pub fn r256(a: D, b: &Ratio<isize>) -> D { a + b }
pub fn r257(a: &D, b: &Ratio<isize>) -> D { a + b }
pub fn r258(a: &mut D, b: Ratio<BigUint>) -> () { *a += b }
pub fn r259(a: D, b: Ratio<BigUint>) -> D { a + b }
pub fn r260(a: &D, b: Ratio<BigUint>) -> D { a + b }
pub fn r261(a: &mut D, b: &Ratio<BigUint>) -> () { *a += b }
pub fn r262(a: D, b: &Ratio<BigUint>) -> D { a + b }
pub fn r263(a: &D, b: &Ratio<BigUint>) -> D { a + b }
pub fn r264(a: &mut D, b: Ratio<BigInt>) -> () { *a += b }
pub fn r265(a: D, b: Ratio<BigInt>) -> D { a + b }
pub fn r266(a: &D, b: Ratio<BigInt>) -> D { a + b }
pub fn r267(a: &mut D, b: &Ratio<BigInt>) -> () { *a += b }
pub fn r268(a: D, b: &Ratio<BigInt>) -> D { a + b }
pub fn r269(a: &D, b: &Ratio<BigInt>) -> D { a + b }
pub fn r270(a: &mut D, b: D) -> () { *a -= b }
pub fn r271(a: D, b: D) -> D { a - b }
pub fn r272(a: &D, b: D) -> D { a - b }
pub fn r273(a: &mut D, b: &D) -> () { *a -= b }
pub fn r274(a: D, b: &D) -> D { a - b }
pub fn r275(a: &D, b: &D) -> D { a - b }
pub fn r276(a: &mut D, b: u8) -> () { *a -= b }
pub fn r277(a: D, b: u8) -> D { a - b }
pub fn r278(a: &D, b: u8) -> D { a - b }
pub fn r279(a: &mut D, b: &u8) -> () { *a -= b }
pub fn r280(a: D, b: &u8) -> D { a - b }
pub fn r281(a: &D, b: &u8) -> D { a - b }
pub fn r282(a: &mut D, b: u16) -> () { *a -= b }
pub fn r283(a: D, b: u16) -> D { a - b }
pub fn r284(a: &D, b: u16) -> D { a - b }
pub fn r285(a: &mut D, b: &u16) -> () { *a -= b }
pub fn r286(a: D, b: &u16) -> D { a - b }
pub fn r287(a: &D, b: &u16) -> D { a - b }
pub fn r288(a: &mut D, b: u32) -> () { *a -= b }
pub fn r289(a: D, b: u32) -> D { a - b }
pub fn r290(a: &D, b: u32) -> D { a - b }
pub fn r291(a: &mut D, b: &u32) -> () { *a -= b }
pub fn r292(a: D, b: &u32) -> D { a - b }
pub fn r293(a: &D, b: &u32) -> D { a - b }
pub fn r294(a: &mut D, b: u64) -> () { *a -= b }
pub fn r295(a: D, b: u64) -> D { a - b }
pub fn r296(a: &D, b: u64) -> D { a - b }
pub fn r297(a: &mut D, b: &u64) -> () { *a -= b }
pub fn r298(a: D, b: &u64) -> D { a - b }
pub fn r299(a: &D, b: &u64) -> D { a - b }
pub fn r300(a: &mut D, b: u128) -> () { *a -= b }
pub fn r301(a: D, b: u128) -> D { a - b }
pub fn r302(a: &D, b: u128) -> D { a - b }
pub fn r303(a: &mut D, b: &u128) -> () { *a -= b }
pub fn r304(a: D, b: &u128) -> D { a - b }
pub fn r305(a: &D, b: &u128) -> D { a - b }
pub fn r306(a: &mut D, b: usize) -> () { *a -= b }
pub fn r307(a: D, b: usize) -> D { a - b }
pub fn r308(a: &D, b: usize) -> D { a - b }
pub fn r309(a: &mut D, b: &usize) -> () { *a -= b }
pub fn r310(a: D, b: &usize) -> D { a - b }
pub fn r311(a: &D, b: &usize) -> D { a - b }
pub fn r312(a: &mut D, b: i8) -> () { *a -= b }
pub fn r313(a: D, b: i8) -> D { a - b }
pub fn r314(a: &D, b: i8) -> D { a - b }
pub fn r315(a: &mut D, b: &i8) -> () { *a -= b }
pub fn r316(a: D, b: &i8) -> D { a - b }
pub fn r317(a: &D, b: &i8) -> D { a - b }
pub fn r318(a: &mut D, b: i16) -> () { *a -= b }
pub fn r319(a: D, b: i16) -> D { a - b }
pub fn r320(a: &D, b: i16) -> D { a - b }
pub fn r321(a: &mut D, b: &i16) -> () { *a -= b }
pub fn r322(a: D, b: &i16) -> D { a - b }
pub fn r323(a: &D, b: &i16) -> D { a - b }
pub fn r324(a: &mut D, b: i32) -> () { *a -= b }
pub fn r325(a: D, b: i32) -> D { a - b }
pub fn r326(a: &D, b: i32) -> D { a - b }
pub fn r327(a: &mut D, b: &i32) -> () { *a -= b }
pub fn r328(a: D, b: &i32) -> D { a - b }
pub fn r329(a: &D, b: &i32) -> D { a - b }
pub fn r330(a: &mut D, b: i64) -> () { *a -= b }
pub fn r331(a: D, b: i64) -> D { a - b }
pub fn r332(a: &D, b: i64) -> D { a - b }
pub fn r333(a: &mut D, b: &i64) -> () { *a -= b }
pub fn r334(a: D, b: &i64) -> D { a - b }
pub fn r335(a: &D, b: &i64) -> D { a - b }
pub fn r336(a: &mut D, b: i128) -> () { *a -= b }
pub fn r337(a: D, b: i128) -> D { a - b }
pub fn r338(a: &D, b: i128) -> D { a - b }
pub fn r339(a: &mut D, b: &i128) -> () { *a -= b }
pub fn r340(a: D, b: &i128) -> D { a - b }
pub fn r341(a: &D, b: &i128) -> D { a - b }
pub fn r342(a: &mut D, b: isize) -> () { *a -= b }
pub fn r343(a: D, b: isize) -> D { a - b }
pub fn r344(a: &D, b: isize) -> D { a - b }
pub fn r345(a: &mut D, b: &isize) -> () { *a -= b }
pub fn r346(a: D, b: &isize) -> D { a - b }
pub fn r347(a: &D, b: &isize) -> D { a - b }
pub fn r348(a: &mut D, b: BigUint) -> () { *a -= b }
pub fn r349(a: D, b: BigUint) -> D { a - b }
pub fn r350(a: &D, b: BigUint) -> D { a - b }
pub fn r351(a: &mut D, b: &BigUint) -> () { *a -= b }
pub fn r352(a: D, b: &BigUint) -> D { a - b }
pub fn r353(a: &D, b: &BigUint) -> D { a - b }
pub fn r354(a: &mut D, b: BigInt) -> () { *a -= b }
pub fn r355(a: D, b: BigInt) -> D { a - b }
pub fn r356(a: &D, b: BigInt) -> D { a - b }
pub fn r357(a: &mut D, b: &BigInt) -> () { *a -= b }
pub fn r358(a: D, b: &BigInt) -> D { a - b }
pub fn r359(a: &D, b: &BigInt) -> D { a - b }
pub fn r360(a: &mut D, b: Ratio<u8>) -> () { *a -= b }
pub fn r361(a: D, b: Ratio<u8>) -> D { a - b }
pub fn r362(a: &D, b: Ratio<u8>) -> D { a - b }
pub fn r363(a: &mut D, b: &Ratio<u8>) -> () { *a -= b }
pub fn r364(a: D, b: &Ratio<u8>) -> D { a - b }
pub fn r365(a: &D, b: &Ratio<u8>) -> D { a - b }
pub fn r366(a: &mut D, b: Ratio<u16>) -> () { *a -= b }
pub fn r367(a: D, b: Ratio<u16>) -> D { a - b }
pub fn r368(a: &D, b: Ratio<u16>) -> D { a - b }
pub fn r369(a: &mut D, b: &Ratio<u16>) -> () { *a -= b }
pub fn r370(a: D, b: &Ratio<u16>) -> D { a - b }
pub fn r371(a: &D, b: &Ratio<u16>) -> D { a - b }
pub fn r372(a: &mut D, b: Ratio<u32>) -> () { *a -= b }
pub fn r373(a: D, b: Ratio<u32>) -> D { a - b }
pub fn r374(a: &D, b: Ratio<u32>) -> D { a - b }
pub fn r375(a: &mut D, b: &Ratio<u32>) -> () { *a -= b }
pub fn r376(a: D, b: &Ratio<u32>) -> D { a - b }
pub fn r377(a: &D, b: &Ratio<u32>) -> D { a - b }
pub fn r378(a: &mut D, b: Ratio<u64>) -> () { *a -= b }
pub fn r379(a: D, b: Ratio<u64>) -> D { a - b }
pub fn r380(a: &D, b: Ratio<u64>) -> D { a - b }
pub fn r381(a: &mut D, b: &Ratio<u64>) -> () { *a -= b }
pub fn r382(a: D, b: &Ratio<u64>) -> D { a - b }
pub fn r383(a: &D, b: &Ratio<u64>) -> D { a - b }
pub fn r384(a: &mut D, b: Ratio<u128>) -> () { *a -= b }
pub fn r385(a: D, b: Ratio<u128>) -> D { a - b }
pub fn r386(a: &D, b: Ratio<u128>) -> D { a - b }
pub fn r387(a: &mut D, b: &Ratio<u128>) -> () { *a -= b }
pub fn r388(a: D, b: &Ratio<u128>) -> D { a - b }
pub fn r389(a: &D, b: &Ratio<u128>) -> D { a - b }
pub fn r390(a: &mut D, b: Ratio<usize>) -> () { *a -= b }
pub fn r391(a: D, b: Ratio<usize>) -> D { a - b }
pub fn r392(a: &D, b: Ratio<usize>) -> D { a - b }
pub fn r393(a: &mut D, b: &Ratio<usize>) -> () { *a -= b }
pub fn r394(a: D, b: &Ratio<usize>) -> D { a - b }
pub fn r395(a: &D, b: &Ratio<usize>) -> D { a - b }
pub fn r396(a: &mut D, b: Ratio<i8>) -> () { *a -= b }
pub fn r397(a: D, b: Ratio<i8>) -> D { a - b }
pub fn r398(a: &D, b: Ratio<i8>) -> D { a - b }
pub fn r399(a: &mut D, b: &Ratio<i8>) -> () { *a -= b }
pub fn r400(a: D, b: &Ratio<i8>) -> D { a - b }
pub fn r401(a: &D, b: &Ratio<i8>) -> D { a - b }
pub fn r402(a: &mut D, b: Ratio<i16>) -> () { *a -= b }
pub fn r403(a: D, b: Ratio<i16>) -> D { a - b }
pub fn r404(a: &D, b: Ratio<i16>) -> D { a - b }
pub fn r405(a: &mut D, b: &Ratio<i16>) -> () { *a -= b }
pub fn r406(a: D, b: &Ratio<i16>) -> D { a - b }
pub fn r407(a: &D, b: &Ratio<i16>) -> D { a - b }
pub fn r408(a: &mut D, b: Ratio<i32>) -> () { *a -= b }
pub fn r409(a: D, b: Ratio<i32>) -> D { a - b }
pub fn r410(a: &D, b: Ratio<i32>) -> D { a - b }
pub fn r411(a: &mut D, b: &Ratio<i32>) -> () { *a -= b }
pub fn r412(a: D, b: &Ratio<i32>) -> D { a - b }
pub fn r413(a: &D, b: &Ratio<i32>) -> D { a - b }
pub fn r414(a: &mut D, b: Ratio<i64>) -> () { *a -= b }
pub fn r415(a: D, b: Ratio<i64>) -> D { a - b }
pub fn r416(a: &D, b: Ratio<i64>) -> D { a - b }
pub fn r417(a: &mut D, b: &Ratio<i64>) -> () { *a -= b }
pub fn r418(a: D, b: &Ratio<i64>) -> D { a - b }
pub fn r419(a: &D, b: &Ratio<i64>) -> D { a - b }
pub fn r420(a: &mut D, b: Ratio<i128>) -> () { *a -= b }
pub fn r421(a: D, b: Ratio<i128>) -> D { a - b }
pub fn r422(a: &D, b: Ratio<i128>) -> D { a - b }
pub fn r423(a: &mut D, b: &Ratio<i128>) -> () { *a -= b }
pub fn r424(a: D, b: &Ratio<i128>) -> D { a - b }
pub fn r425(a: &D, b: &Ratio<i128>) -> D { a - b }
pub fn r426(a: &mut D, b: Ratio<isize>) -> () { *a -= b }
pub fn r427(a: D, b: Ratio<isize>) -> D { a - b }
pub fn r428(a: &D, b: Ratio<isize>) -> D { a - b }
pub fn r429(a: &mut D, b: &Ratio<isize>) -> () { *a -= b }
pub fn r430(a: D, b: &Ratio<isize>) -> D { a - b }
pub fn r431(a: &D, b: &Ratio<isize>) -> D { a - b }
pub fn r432(a: &mut D, b: Ratio<BigUint>) -> () { *a -= b }
pub fn r433(a: D, b: Ratio<BigUint>) -> D { a - b }
pub fn r434(a: &D, b: Ratio<BigUint>) -> D { a - b }
pub fn r435(a: &mut D, b: &Ratio<BigUint>) -> () { *a -= b }
pub fn r436(a: D, b: &Ratio<BigUint>) -> D { a - b }
pub fn r437(a: &D, b: &Ratio<BigUint>) -> D { a - b }
pub fn r438(a: &mut D, b: Ratio<BigInt>) -> () { *a -= b }
pub fn r439(a: D, b: Ratio<BigInt>) -> D { a - b }
pub fn r440(a: &D, b: Ratio<BigInt>) -> D { a - b }
pub fn r441(a: &mut D, b: &Ratio<BigInt>) -> () { *a -= b }
pub fn r442(a: D, b: &Ratio<BigInt>) -> D { a - b }
pub fn r443(a: &D, b: &Ratio<BigInt>) -> D { a - b }
pub fn r444(a: &mut D, b: D) -> () { *a *= b }
pub fn r445(a: D, b: D) -> D { a * b }
pub fn r446(a: &D, b: D) -> D { a * b }
pub fn r447(a: &mut D, b: &D) -> () { *a *= b }
pub fn r448(a: D, b: &D) -> D { a * b }
pub fn r449(a: &D, b: &D) -> D { a * b }
pub fn r450(a: &mut D, b: u8) -> () { *a *= b }
pub fn r451(a: D, b: u8) -> D { a * b }
pub fn r452(a: &D, b: u8) -> D { a * b }
pub fn r453(a: &mut D, b: &u8) -> () { *a *= b }
pub fn r454(a: D, b: &u8) -> D { a * b }
pub fn r455(a: &D, b: &u8) -> D { a * b }
pub fn r456(a: &mut D, b: u16) -> () { *a *= b }
pub fn r457(a: D, b: u16) -> D { a * b }
pub fn r458(a: &D, b: u16) -> D { a * b }
pub fn r459(a: &mut D, b: &u16) -> () { *a *= b }
pub fn r460(a: D, b: &u16) -> D { a * b }
pub fn r461(a: &D, b: &u16) -> D { a * b }
pub fn r462(a: &mut D, b: u32) -> () { *a *= b }
pub fn r463(a: D, b: u32) -> D { a * b }
pub fn r464(a: &D, b: u32) -> D { a * b }
pub fn r465(a: &mut D, b: &u32) -> () { *a *= b }
pub fn r466(a: D, b: &u32) -> D { a * b }
pub fn r467(a: &D, b: &u32) -> D { a * b }
pub fn r468(a: &mut D, b: u64) -> () { *a *= b }
pub fn r469(a: D, b: u64) -> D { a * b }
pub fn r470(a: &D, b: u64) -> D { a * b }
pub fn r471(a: &mut D, b: &u64) -> () { *a *= b }
pub fn r472(a: D, b: &u64) -> D { a * b }
pub fn r473(a: &D, b: &u64) -> D { a * b }
pub fn r474(a: &mut D, b: u128) -> () { *a *= b }
pub fn r475(a: D, b: u128) -> D { a * b }
pub fn r476(a: &D, b: u128) -> D { a * b }
pub fn r477(a: &mut D, b: &u128) -> () { *a *= b }
pub fn r478(a: D, b: &u128) -> D { a * b }
pub fn r479(a: &D, b: &u128) -> D { a * b }
pub fn r480(a: &mut D, b: usize) -> () { *a *= b }
pub fn r481(a: D, b: usize) -> D { a * b }
pub fn r482(a: &D, b: usize) -> D { a * b }
pub fn r483(a: &mut D, b: &usize) -> () { *a *= b }
pub fn r484(a: D, b: &usize) -> D { a * b }
pub fn r485(a: &D, b: &usize) -> D { a * b }
pub fn r486(a: &mut D, b: i8) -> () { *a *= b }
pub fn r487(a: D, b: i8) -> D { a * b }
pub fn r488(a: &D, b: i8) -> D { a * b }
pub fn r489(a: &mut D, b: &i8) -> () { *a *= b }
pub fn r490(a: D, b: &i8) -> D { a * b }
pub fn r491(a: &D, b: &i8) -> D { a * b }
pub fn r492(a: &mut D, b: i16) -> () { *a *= b }
pub fn r493(a: D, b: i16) -> D { a * b }
pub fn r494(a: &D, b: i16) -> D { a * b }
pub fn r495(a: &mut D, b: &i16) -> () { *a *= b }
pub fn r496(a: D, b: &i16) -> D { a * b }
pub fn r497(a: &D, b: &i16) -> D { a * b }
pub fn r498(a: &mut D, b: i32) -> () { *a *= b }
pub fn r499(a: D, b: i32) -> D { a * b }
pub fn r500(a: &D, b: i32) -> D { a * b }
pub fn r501(a: &mut D, b: &i32) -> () { *a *= b }
pub fn r502(a: D, b: &i32) -> D { a * b }
pub fn r503(a: &D, b: &i32) -> D { a * b }
pub fn r504(a: &mut D, b: i64) -> () { *a *= b }
pub fn r505(a: D, b: i64) -> D { a * b }
pub fn r506(a: &D, b: i64) -> D { a * b }
pub fn r507(a: &mut D, b: &i64) -> () { *a *= b }
pub fn r508(a: D, b: &i64) -> D { a * b }
pub fn r509(a: &D, b: &i64) -> D { a * b }
pub fn r510(a: &mut D, b: i128) -> () { *a *= b }
pub fn r511(a: D, b: i128) -> D { a * b }
pub fn r512(a: &D, b: i128) -> D { a * b }
pub fn r513(a: &mut D, b: &i128) -> () { *a *= b }
pub fn r514(a: D, b: &i128) -> D { a * b }
pub fn r515(a: &D, b: &i128) -> D { a * b }
pub fn r516(a: &mut D, b: isize) -> () { *a *= b }
pub fn r517(a: D, b: isize) -> D { a * b }
pub fn r518(a: &D, b: isize) -> D { a * b }
pub fn r519(a: &mut D, b: &isize) -> () { *a *= b }
pub fn r520(a: D, b: &isize) -> D { a * b }
pub fn r521(a: &D, b: &isize) -> D { a * b }
pub fn r522(a: &mut D, b: BigUint) -> () { *a *= b }
pub fn r523(a: D, b: BigUint) -> D { a * b }
pub fn r524(a: &D, b: BigUint) -> D { a * b }
pub fn r525(a: &mut D, b: &BigUint) -> () { *a *= b }
pub fn r526(a: D, b: &BigUint) -> D { a * b }
pub fn r527(a: &D, b: &BigUint) -> D { a * b }
pub fn r528(a: &mut D, b: BigInt) -> () { *a *= b }
pub fn r529(a: D, b: BigInt) -> D { a * b }
pub fn r530(a: &D, b: BigInt) -> D { a * b }
pub fn r531(a: &mut D, b: &BigInt) -> () { *a *= b }
pub fn r532(a: D, b: &BigInt) -> D { a * b }
pub fn r533(a: &D, b: &BigInt) -> D { a * b }
pub fn r534(a: &mut D, b: Ratio<u8>) -> () { *a *= b }
pub fn r535(a: D, b: Ratio<u8>) -> D { a * b }
pub fn r536(a: &D, b: Ratio<u8>) -> D { a * b }
pub fn r537(a: &mut D, b: &Ratio<u8>) -> () { *a *= b }
pub fn r538(a: D, b: &Ratio<u8>) -> D { a * b }
pub fn r539(a: &D, b: &Ratio<u8>) -> D { a * b }
pub fn r540(a: &mut D, b: Ratio<u16>) -> () { *a *= b }
pub fn r541(a: D, b: Ratio<u16>) -> D { a * b }
pub fn r542(a: &D, b: Ratio<u16>) -> D { a * b }
pub fn r543(a: &mut D, b: &Ratio<u16>) -> () { *a *= b }
pub fn r544(a: D, b: &Ratio<u16>) -> D { a * b }
pub fn r545(a: &D, b: &Ratio<u16>) -> D { a * b }
pub fn r546(a: &mut D, b: Ratio<u32>) -> () { *a *= b }
pub fn r547(a: D, b: Ratio<u32>) -> D { a * b }
pub fn r548(a: &D, b: Ratio<u32>) -> D { a * b }
pub fn r549(a: &mut D, b: &Ratio<u32>) -> () { *a *= b }
pub fn r550(a: D, b: &Ratio<u32>) -> D { a * b }
pub fn r551(a: &D, b: &Ratio<u32>) -> D { a * b }
pub fn r552(a: &mut D, b: Ratio<u64>) -> () { *a *= b }
pub fn r553(a: D, b: Ratio<u64>) -> D { a * b }
pub fn r554(a: &D, b: Ratio<u64>) -> D { a * b }
pub fn r555(a: &mut D, b: &Ratio<u64>) -> () { *a *= b }
pub fn r556(a: D, b: &Ratio<u64>) -> D { a * b }
pub fn r557(a: &D, b: &Ratio<u64>) -> D { a * b }
pub fn r558(a: &mut D, b: Ratio<u128>) -> () { *a *= b }
pub fn r559(a: D, b: Ratio<u128>) -> D { a * b }
pub fn r560(a: &D, b: Ratio<u128>) -> D { a * b }
pub fn r561(a: &mut D, b: &Ratio<u128>) -> () { *a *= b }
pub fn r562(a: D, b: &Ratio<u128>) -> D { a * b }
pub fn r563(a: &D, b: &Ratio<u128>) -> D { a * b }
pub fn r564(a: &mut D, b: Ratio<usize>) -> () { *a *= b }
pub fn r565(a: D, b: Ratio<usize>) -> D { a * b }
pub fn r566(a: &D, b: Ratio<usize>) -> D { a * b }
pub fn r567(a: &mut D, b: &Ratio<usize>) -> () { *a *= b }
pub fn r568(a: D, b: &Ratio<usize>) -> D { a * b }
pub fn r569(a: &D, b: &Ratio<usize>) -> D { a * b }
pub fn r570(a: &mut D, b: Ratio<i8>) -> () { *a *= b }
pub fn r571(a: D, b: Ratio<i8>) -> D { a * b }
pub fn r572(a: &D, b: Ratio<i8>) -> D { a * b }
pub fn r573(a: &mut D, b: &Ratio<i8>) -> () { *a *= b }
pub fn r574(a: D, b: &Ratio<i8>) -> D { a * b }
pub fn r575(a: &D, b: &Ratio<i8>) -> D { a * b }
pub fn r576(a: &mut D, b: Ratio<i16>) -> () { *a *= b }
pub fn r577(a: D, b: Ratio<i16>) -> D { a * b }
pub fn r578(a: &D, b: Ratio<i16>) -> D { a * b }
pub fn r579(a: &mut D, b: &Ratio<i16>) -> () { *a *= b }
pub fn r580(a: D, b: &Ratio<i16>) -> D { a * b }
pub fn r581(a: &D, b: &Ratio<i16>) -> D { a * b }
pub fn r582(a: &mut D, b: Ratio<i32>) -> () { *a *= b }
pub fn r583(a: D, b: Ratio<i32>) -> D { a * b }
pub fn r584(a: &D, b: Ratio<i32>) -> D { a * b }
pub fn r585(a: &mut D, b: &Ratio<i32>) -> () { *a *= b }
pub fn r586(a: D, b: &Ratio<i32>) -> D { a * b }
pub fn r587(a: &D, b: &Ratio<i32>) -> D { a * b }
pub fn r588(a: &mut D, b: Ratio<i64>) -> () { *a *= b }
pub fn r589(a: D, b: Ratio<i64>) -> D { a * b }
pub fn r590(a: &D, b: Ratio<i64>) -> D { a * b }
pub fn r591(a: &mut D, b: &Ratio<i64>) -> () { *a *= b }
pub fn r592(a: D, b: &Ratio<i64>) -> D { a * b }
pub fn r593(a: &D, b: &Ratio<i64>) -> D { a * b }
pub fn r594(a: &mut D, b: Ratio<i128>) -> () { *a *= b }
pub fn r595(a: D, b: Ratio<i128>) -> D { a * b }
pub fn r596(a: &D, b: Ratio<i128>) -> D { a * b }
pub fn r597(a: &mut D, b: &Ratio<i128>) -> () { *a *= b }
pub fn r598(a: D, b: &Ratio<i128>) -> D { a * b }
pub fn r599(a: &D, b: &Ratio<i128>) -> D { a * b }
pub fn r600(a: &mut D, b: Ratio<isize>) -> () { *a *= b }
pub fn r601(a: D, b: Ratio<isize>) -> D { a * b }
pub fn r602(a: &D, b: Ratio<isize>) -> D { a * b }
pub fn r603(a: &mut D, b: &Ratio<isize>) -> () { *a *= b }
pub fn r604(a: D, b: &Ratio<isize>) -> D { a * b }
pub fn r605(a: &D, b: &Ratio<isize>) -> D { a * b }
pub fn r606(a: &mut D, b: Ratio<BigUint>) -> () { *a *= b }
pub fn r607(a: D, b: Ratio<BigUint>) -> D { a * b }
pub fn r608(a: &D, b: Ratio<BigUint>) -> D { a * b }
pub fn r609(a: &mut D, b: &Ratio<BigUint>) -> () { *a *= b }
pub fn r610(a: D, b: &Ratio<BigUint>) -> D { a * b }
pub fn r611(a: &D, b: &Ratio<BigUint>) -> D { a * b }
pub fn r612(a: &mut D, b: Ratio<BigInt>) -> () { *a *= b }
pub fn r613(a: D, b: Ratio<BigInt>) -> D { a * b }
pub fn r614(a: &D, b: Ratio<BigInt>) -> D { a * b }
pub fn r615(a: &mut D, b: &Ratio<BigInt>) -> () { *a *= b }
pub fn r616(a: D, b: &Ratio<BigInt>) -> D { a * b }
pub fn r617(a: &D, b: &Ratio<BigInt>) -> D { a * b }
pub fn r618(a: &mut D, b: D) -> () { *a /= b }
pub fn r619(a: D, b: D) -> D { a / b }
pub fn r620(a: &D, b: D) -> D { a / b }
pub fn r621(a: &mut D, b: &D) -> () { *a /= b }
pub fn r622(a: D, b: &D) -> D { a / b }
pub fn r623(a: &D, b: &D) -> D { a / b }
pub fn r624(a: &mut D, b: u8) -> () { *a /= b }
pub fn r625(a: D, b: u8) -> D { a / b }
pub fn r626(a: &D, b: u8) -> D { a / b }
pub fn r627(a: &mut D, b: &u8) -> () { *a /= b }
pub fn r628(a: D, b: &u8) -> D { a / b }
pub fn r629(a: &D, b: &u8) -> D { a / b }
pub fn r630(a: &mut D, b: u16) -> () { *a /= b }
pub fn r631(a: D, b: u16) -> D { a / b }
pub fn r632(a: &D, b: u16) -> D { a / b }
pub fn r633(a: &mut D, b: &u16) -> () { *a /= b }
pub fn r634(a: D, b: &u16) -> D { a / b }
pub fn r635(a: &D, b: &u16) -> D { a / b }
pub fn r636(a: &mut D, b: u32) -> () { *a /= b }
pub fn r637(a: D, b: u32) -> D { a / b }
pub fn r638(a: &D, b: u32) -> D { a / b }
pub fn r639(a: &mut D, b: &u32) -> () { *a /= b }
pub fn r640(a: D, b: &u32) -> D { a / b }
pub fn r641(a: &D, b: &u32) -> D { a / b }
pub fn r642(a: &mut D, b: u64) -> () { *a /= b }
pub fn r643(a: D, b: u64) -> D { a / b }
pub fn r644(a: &D, b: u64) -> D { a / b }
pub fn r645(a: &mut D, b: &u64) -> () { *a /= b }
pub fn r646(a: D, b: &u64) -> D { a / b }
pub fn r647(a: &D, b: &u64) -> D { a / b }
pub fn r648(a: &mut D, b: u128) -> () { *a /= b }
pub fn r649(a: D, b: u128) -> D { a / b }
pub fn r650(a: &D, b: u128) -> D { a / b }
pub fn r651(a: &mut D, b: &u128) -> () { *a /= b }
pub fn r652(a: D, b: &u128) -> D { a / b }
pub fn r653(a: &D, b: &u128) -> D { a / b }
pub fn r654(a: &mut D, b: usize) -> () { *a /= b }
pub fn r655(a: D, b: usize) -> D { a / b }
pub fn r656(a: &D, b: usize) -> D { a / b }
pub fn r657(a: &mut D, b: &usize) -> () { *a /= b }
pub fn r658(a: D, b: &usize) -> D { a / b }
pub fn r659(a: &D, b: &usize) -> D { a / b }
pub fn r660(a: &mut D, b: i8) -> () { *a /= b }
pub fn r661(a: D, b: i8) -> D { a / b }
pub fn r662(a: &D, b: i8) -> D { a / b }
pub fn r663(a: &mut D, b: &i8) -> () { *a /= b }
pub fn r664(a: D, b: &i8) -> D { a / b }
pub fn r665(a: &D, b: &i8) -> D { a / b }
pub fn r666(a: &mut D, b: i16) -> () { *a /= b }
pub fn r667(a: D, b: i16) -> D { a / b }
pub fn r668(a: &D, b: i16) -> D { a / b }
pub fn r669(a: &mut D, b: &i16) -> () { *a /= b }
pub fn r670(a: D, b: &i16) -> D { a / b }
pub fn r671(a: &D, b: &i16) -> D { a / b }
pub fn r672(a: &mut D, b: i32) -> () { *a /= b }
pub fn r673(a: D, b: i32) -> D { a / b }
pub fn r674(a: &D, b: i32) -> D { a / b }
pub fn r675(a: &mut D, b: &i32) -> () { *a /= b }
pub fn r676(a: D, b: &i32) -> D { a / b }
pub fn r677(a: &D, b: &i32) -> D { a / b }
pub fn r678(a: &mut D, b: i64) -> () { *a /= b }
pub fn r679(a: D, b: i64) -> D { a / b }
pub fn r680(a: &D, b: i64) -> D { a / b }
pub fn r681(a: &mut D, b: &i64) -> () { *a /= b }
pub fn r682(a: D, b: &i64) -> D { a / b }
pub fn r683(a: &D, b: &i64) -> D { a / b }
pub fn r684(a: &mut D, b: i128) -> () { *a /= b }
pub fn r685(a: D, b: i128) -> D { a / b }
pub fn r686(a: &D, b: i128) -> D { a / b }
pub fn r687(a: &mut D, b: &i128) -> () { *a /= b }
pub fn r688(a: D, b: &i128) -> D { a / b }
pub fn r689(a: &D, b: &i128) -> D { a / b }
pub fn r690(a: &mut D, b: isize) -> () { *a /= b }
pub fn r691(a: D, b: isize) -> D { a / b }
pub fn r692(a: &D, b: isize) -> D { a / b }
pub fn r693(a: &mut D, b: &isize) -> () { *a /= b }
pub fn r694(a: D, b: &isize) -> D { a / b }
pub fn r695(a: &D, b: &isize) -> D { a / b }
pub fn r696(a: &mut D, b: BigUint) -> () { *a /= b }
pub fn r697(a: D, b: BigUint) -> D { a / b }
pub fn r698(a: &D, b: BigUint) -> D { a / b }
pub fn r699(a: &mut D, b: &BigUint) -> () { *a /= b }
pub fn r700(a: D, b: &BigUint) -> D { a / b }
pub fn r701(a: &D, b: &BigUint) -> D { a / b }
pub fn r702(a: &mut D, b: BigInt) -> () { *a /= b }
pub fn r703(a: D, b: BigInt) -> D { a / b }
pub fn r704(a: &D, b: BigInt) -> D { a / b }
pub fn r705(a: &mut D, b: &BigInt) -> () { *a /= b }
pub fn r706(a: D, b: &BigInt) -> D { a / b }
pub fn r707(a: &D, b: &BigInt) -> D { a / b }
pub fn r708(a: &mut D, b: Ratio<u8>) -> () { *a /= b }
pub fn r709(a: D, b: Ratio<u8>) -> D { a / b }
pub fn r710(a: &D, b: Ratio<u8>) -> D { a / b }
pub fn r711(a: &mut D, b: &Ratio<u8>) -> () { *a /= b }
pub fn r712(a: D, b: &Ratio<u8>) -> D { a / b }
pub fn r713(a: &D, b: &Ratio<u8>) -> D { a / b }
pub fn r714(a: &mut D, b: Ratio<u16>) -> () { *a /= b }
pub fn r715(a: D, b: Ratio<u16>) -> D { a / b }
pub fn r716(a: &D, b: Ratio<u16>) -> D { a / b }
pub fn r717(a: &mut D, b: &Ratio<u16>) -> () { *a /= b }
pub fn r718(a: D, b: &Ratio<u16>) -> D { a / b }
pub fn r719(a: &D, b: &Ratio<u16>) -> D { a / b }
pub fn r720(a: &mut D, b: Ratio<u32>) -> () { *a /= b }
pub fn r721(a: D, b: Ratio<u32>) -> D { a / b }
pub fn r722(a: &D, b: Ratio<u32>) -> D { a / b }
pub fn r723(a: &mut D, b: &Ratio<u32>) -> () { *a /= b }
pub fn r724(a: D, b: &Ratio<u32>) -> D { a / b }
pub fn r725(a: &D, b: &Ratio<u32>) -> D { a / b }
pub fn r726(a: &mut D, b: Ratio<u64>) -> () { *a /= b }
pub fn r727(a: D, b: Ratio<u64>) -> D { a / b }
pub fn r728(a: &D, b: Ratio<u64>) -> D { a / b }
pub fn r729(a: &mut D, b: &Ratio<u64>) -> () { *a /= b }
pub fn r730(a: D, b: &Ratio<u64>) -> D { a / b }
pub fn r731(a: &D, b: &Ratio<u64>) -> D { a / b }
pub fn r732(a: &mut D, b: Ratio<u128>) -> () { *a /= b }
pub fn r733(a: D, b: Ratio<u128>) -> D { a / b }
pub fn r734(a: &D, b: Ratio<u128>) -> D { a / b }
pub fn r735(a: &mut D, b: &Ratio<u128>) -> () { *a /= b }
pub fn r736(a: D, b: &Ratio<u128>) -> D { a / b }
pub fn r737(a: &D, b: &Ratio<u128>) -> D { a / b }
pub fn r738(a: &mut D, b: Ratio<usize>) -> () { *a /= b }
pub fn r739(a: D, b: Ratio<usize>) -> D { a / b }
pub fn r740(a: &D, b: Ratio<usize>) -> D { a / b }
pub fn r741(a: &mut D, b: &Ratio<usize>) -> () { *a /= b }
pub fn r742(a: D, b: &Ratio<usize>) -> D { a / b }
pub fn r743(a: &D, b: &Ratio<usize>) -> D { a / b }
pub fn r744(a: &mut D, b: Ratio<i8>) -> () { *a /= b }
pub fn r745(a: D, b: Ratio<i8>) -> D { a / b }
pub fn r746(a: &D, b: Ratio<i8>) -> D { a / b }
pub fn r747(a: &mut D, b: &Ratio<i8>) -> () { *a /= b }
pub fn r748(a: D, b: &Ratio<i8>) -> D { a / b }
pub fn r749(a: &D, b: &Ratio<i8>) -> D { a / b }
pub fn r750(a: &mut D, b: Ratio<i16>) -> () { *a /= b }
pub fn r751(a: D, b: Ratio<i16>) -> D { a / b }
pub fn r752(a: &D, b: Ratio<i16>) -> D { a / b }
pub fn r753(a: &mut D, b: &Ratio<i16>) -> () { *a /= b }
pub fn r754(a: D, b: &Ratio<i16>) -> D { a / b }
pub fn r755(a: &D, b: &Ratio<i16>) -> D { a / b }
pub fn r756(a: &mut D, b: Ratio<i32>) -> () { *a /= b }
pub fn r757(a: D, b: Ratio<i32>) -> D { a / b }
pub fn r758(a: &D, b: Ratio<i32>) -> D { a / b }
pub fn r759(a: &mut D, b: &Ratio<i32>) -> () { *a /= b }
pub fn r760(a: D, b: &Ratio<i32>) -> D { a / b }
pub fn r761(a: &D, b: &Ratio<i32>) -> D { a / b }
pub fn r762(a: &mut D, b: Ratio<i64>) -> () { *a /= b }
pub fn r763(a: D, b: Ratio<i64>) -> D { a / b }
pub fn r764(a: &D, b: Ratio<i64>) -> D { a / b }
pub fn r765(a: &mut D, b: &Ratio<i64>) -> () { *a /= b }
pub fn r766(a: D, b: &Ratio<i64>) -> D { a / b }
pub fn r767(a: &D, b: &Ratio<i64>) -> D { a / b }
pub fn r768(a: &mut D, b: Ratio<i128>) -> () { *a /= b }
pub fn r769(a: D, b: Ratio<i128>) -> D { a / b }
pub fn r770(a: &D, b: Ratio<i128>) -> D { a / b }
pub fn r771(a: &mut D, b: &Ratio<i128>) -> () { *a /= b }
pub fn r772(a: D, b: &Ratio<i128>) -> D { a / b }
pub fn r773(a: &D, b: &Ratio<i128>) -> D { a / b }
pub fn r774(a: &mut D, b: Ratio<isize>) -> () { *a /= b }
pub fn r775(a: D, b: Ratio<isize>) -> D { a / b }
pub fn r776(a: &D, b: Ratio<isize>) -> D { a / b }
pub fn r777(a: &mut D, b: &Ratio<isize>) -> () { *a /= b }
pub fn r778(a: D, b: &Ratio<isize>) -> D { a / b }
pub fn r779(a: &D, b: &Ratio<isize>) -> D { a / b }
pub fn r780(a: &mut D, b: Ratio<BigUint>) -> () { *a /= b }
pub fn r781(a: D, b: Ratio<BigUint>) -> D { a / b }
pub fn r782(a: &D, b: Ratio<BigUint>) -> D { a / b }
pub fn r783(a: &mut D, b: &Ratio<BigUint>) -> () { *a /= b }
pub fn r784(a: D, b: &Ratio<BigUint>) -> D { a / b }
pub fn r785(a: &D, b: &Ratio<BigUint>) -> D { a / b }
pub fn r786(a: &mut D, b: Ratio<BigInt>) -> () { *a /= b }
pub fn r787(a: D, b: Ratio<BigInt>) -> D { a / b }
pub fn r788(a: &D, b: Ratio<BigInt>) -> D { a / b }
pub fn r789(a: &mut D, b: &Ratio<BigInt>) -> () { *a /= b }
pub fn r790(a: D, b: &Ratio<BigInt>) -> D { a / b }
pub fn r791(a: &D, b: &Ratio<BigInt>) -> D { a / b }
