use crate::ck;
use crate::g::*;
use crate::traits::{gen_t, trange, FromBig};
use crate::{with_signed, with_type};
use algebraics::mod_int::*;
use algebraics::traits::*;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, Signed, ToPrimitive, Zero};
use std::fmt::Debug;

fn gen_mod(g: &mut G) -> Vec<BigInt> {
    let mut c = gen_t(g, 5);
    let (lo, hi) = trange(us(&c[0]));
    c[1] = c[1].abs().max(BigInt::one()).min(hi.clone());
    if g.below(4) == 0 {
        c[1] = BigInt::from(1 + g.below(16));
    }
    // operands near 0 and m, and occasionally multiples sharing a factor with m
    for i in 2..4 {
        match g.below(4) {
            0 => c[i] = &c[1] - g.range(1, 3),
            1 => c[i] = &c[1] / 2 + g.range(-2, 2),
            _ => {}
        }
        c[i] = c[i].clone().max(lo.clone()).min(hi.clone());
    }
    c[4] = if g.below(2) == 0 { g.int() } else { &c[1] * g.range(-3, 3) + g.range(-2, 2) };
    // another modulus
    c[5] = if g.below(2) == 0 { &c[1] + 1 } else { c[5].abs() };
    c[5] = c[5].clone().max(BigInt::one()).min(hi);
    c
}

fn is<V, M>(what: &str, x: &ModularInteger<V, M>, want: &BigInt, mv: &M) -> Res
where
    V: Clone + Into<BigInt> + Debug,
    M: PartialEq + Debug,
{
    let v: BigInt = x.value().clone().into();
    ck!(&v == want && x.modulus() == mv, "{}: got {} mod {:?}, want {} mod {:?}", what, v, x.modulus(), want, mv);
    Ok(())
}

fn ring<V, M>(m: &BigInt, mv: M, a: &BigInt, b: &BigInt, big: &BigInt) -> Res
where
    V: ModularReduce + FromBig + Into<BigInt> + Debug,
    M: Modulus<V> + Debug,
{
    type MI<V, M> = ModularInteger<V, M>;
    let v = |x: &BigInt| V::fb(x).unwrap();
    let x: MI<V, M> = ModularInteger::new(v(a), mv.clone());
    let y: MI<V, M> = ModularInteger::from((v(b), mv.clone()));
    let (ra, rb) = (a.mod_floor(m), b.mod_floor(m));
    is("new", &x, &ra, &mv)?;
    is("from", &y, &rb, &mv)?;
    let (pv, pm): (V, M) = x.clone().into();
    ck!(pv.into() == ra && pm == mv, "into of {}", ra);
    let mut t = v(a);
    t.modular_reduce_assign(&mv);
    ck!(t.into() == ra, "modular_reduce_assign({})", a);
    macro_rules! bin { ($n:expr, $op:tt, $as:tt, $ck:ident, $($ff:ident),*) => {{
        let w: BigInt = (&ra $op &rb).mod_floor(m);
        is($n, &(x.clone() $op y.clone()), &w, &mv)?;
        is($n, &(&x $op y.clone()), &w, &mv)?;
        is($n, &(x.clone() $op &y), &w, &mv)?;
        is($n, &(&x $op &y), &w, &mv)?;
        let mut z = x.clone();
        z $as y.clone();
        is($n, &z, &w, &mv)?;
        let mut z = x.clone();
        z $as &y;
        is($n, &z, &w, &mv)?;
        is($n, &x.$ck(&y).ok_or(concat!(stringify!($ck), " is None"))?, &w, &mv)?;
    }} }
    bin!("add", +, +=, checked_add,);
    bin!("sub", -, -=, checked_sub,);
    bin!("mul", *, *=, checked_mul,);
    // trait level forms
    let (xv, yv) = (x.value().clone(), y.value().clone());
    macro_rules! forms { ($op:tt, $rr:ident, $mr:ident, $rm:ident, $mm:ident, $ra:ident, $ma:ident) => {{
        let w: BigInt = (&ra $op &rb).mod_floor(m);
        ck!(xv.$rr(&yv, &mv).into() == w, "{}({}, {}) mod {}", stringify!($rr), ra, rb, m);
        ck!(xv.clone().$mr(&yv, &mv).into() == w, "{}({}, {}) mod {}", stringify!($mr), ra, rb, m);
        ck!(xv.$rm(yv.clone(), &mv).into() == w, "{}({}, {}) mod {}", stringify!($rm), ra, rb, m);
        ck!(xv.clone().$mm(yv.clone(), mv.clone()).into() == w, "{}({}, {}) mod {}", stringify!($mm), ra, rb, m);
        let mut z = xv.clone();
        z.$ra(&yv, &mv);
        ck!(z.into() == w, "{}({}, {}) mod {}", stringify!($ra), ra, rb, m);
        let mut z = xv.clone();
        z.$ma(yv.clone(), &mv);
        ck!(z.into() == w, "{}({}, {}) mod {}", stringify!($ma), ra, rb, m);
    }} }
    forms!(+, modular_add_ref_ref, modular_add_move_ref, modular_add_ref_move, modular_add_move_move, modular_add_ref_assign, modular_add_move_assign);
    forms!(-, modular_sub_ref_ref, modular_sub_move_ref, modular_sub_ref_move, modular_sub_move_move, modular_sub_ref_assign, modular_sub_move_assign);
    forms!(*, modular_mul_ref_ref, modular_mul_move_ref, modular_mul_ref_move, modular_mul_move_move, modular_mul_ref_assign, modular_mul_move_assign);
    let w = (-&ra).mod_floor(m);
    is("neg", &-x.clone(), &w, &mv)?;
    is("neg", &-&x, &w, &mv)?;
    let mut z = x.clone();
    z.neg_assign();
    is("neg_assign", &z, &w, &mv)?;
    ck!(xv.modular_neg_ref(&mv).into() == w && xv.clone().modular_neg_move(&mv).into() == w, "modular_neg({})", ra);
    // conversions
    let w = big.mod_floor(m);
    is("from_bigint", &MI::<V, M>::from_bigint(big, mv.clone()), &w, &mv)?;
    if let Some(u) = big.to_biguint() {
        is("from_biguint", &MI::<V, M>::from_biguint(&u, mv.clone()), &w, &mv)?;
    }
    macro_rules! conv { ($($f:ident $t:ident;)*) => { $( if let Some(u) = big.$t() { is(stringify!($f), &MI::<V, M>::$f(u, mv.clone()), &w, &mv)?; } )* } }
    conv!(from_u8 to_u8; from_u16 to_u16; from_u32 to_u32; from_u64 to_u64; from_u128 to_u128; from_usize to_usize;
          from_i8 to_i8; from_i16 to_i16; from_i32 to_i32; from_i64 to_i64; from_i128 to_i128; from_isize to_isize;);
    Ok(())
}

fn mismatch<V>(m: &BigInt, n: &BigInt, a: &BigInt, b: &BigInt) -> Res
where
    V: ModularReduce + FromBig + Into<BigInt> + Debug + Modulus<V>,
{
    if m == n {
        return Ok(());
    }
    let v = |x: &BigInt| V::fb(x).unwrap();
    let x: ModularInteger<V, V> = ModularInteger::new(v(a), v(m));
    let y: ModularInteger<V, V> = ModularInteger::new(v(b), v(n));
    ck!(!x.has_matching_moduli(&y), "moduli {} and {} match", m, n);
    macro_rules! pan { ($e:expr) => { ck!(guard(|| { $e; }).is_none(), "{} with moduli {} and {} does not panic", stringify!($e), m, n); } }
    pan!(x.clone() + y.clone()); pan!(&x + y.clone()); pan!(x.clone() + &y); pan!(&x + &y);
    pan!(x.clone() - y.clone()); pan!(&x - y.clone()); pan!(x.clone() - &y); pan!(&x - &y);
    pan!(x.clone() * y.clone()); pan!(&x * y.clone()); pan!(x.clone() * &y); pan!(&x * &y);
    pan!({ let mut z = x.clone(); z += y.clone(); }); pan!({ let mut z = x.clone(); z += &y; });
    pan!({ let mut z = x.clone(); z -= y.clone(); }); pan!({ let mut z = x.clone(); z -= &y; });
    pan!({ let mut z = x.clone(); z *= y.clone(); }); pan!({ let mut z = x.clone(); z *= &y; });
    ck!(x.checked_add(&y).is_none() && x.checked_sub(&y).is_none() && x.checked_mul(&y).is_none(), "checked operation with moduli {} and {}", m, n);
    Ok(())
}

/// construction and one operation of each kind (the generic code is exercised by `ring`)
fn lite<V, M>(m: &BigInt, mv: M, a: &BigInt, b: &BigInt, big: &BigInt) -> Res
where
    V: ModularReduce + FromBig + Into<BigInt> + Debug,
    M: Modulus<V> + Debug,
{
    let x: ModularInteger<V, M> = ModularInteger::new(V::fb(a).unwrap(), mv.clone());
    let y: ModularInteger<V, M> = ModularInteger::new(V::fb(b).unwrap(), mv.clone());
    is("new", &x, &a.mod_floor(m), &mv)?;
    is("add", &(&x + &y), &(a + b).mod_floor(m), &mv)?;
    is("mul", &(&x * &y), &(a * b).mod_floor(m), &mv)?;
    is("from_bigint", &ModularInteger::<V, M>::from_bigint(big, mv.clone()), &big.mod_floor(m), &mv)
}

macro_rules! with_static {
    ($m:expr, $f:ident ! ($($a:tt)*)) => {
        match $m {
            1 => $f!(Mod1, $($a)*), 2 => $f!(Mod2, $($a)*), 3 => $f!(Mod3, $($a)*), 4 => $f!(Mod4, $($a)*), 5 => $f!(Mod5, $($a)*), 6 => $f!(Mod6, $($a)*),
            7 => $f!(Mod7, $($a)*), 8 => $f!(Mod8, $($a)*), 9 => $f!(Mod9, $($a)*), 10 => $f!(Mod10, $($a)*), 11 => $f!(Mod11, $($a)*), 12 => $f!(Mod12, $($a)*),
            13 => $f!(Mod13, $($a)*), 14 => $f!(Mod14, $($a)*), 15 => $f!(Mod15, $($a)*), 16 => $f!(Mod16, $($a)*), _ => (),
        }
    };
}

fn run_ring(c: &[BigInt]) -> Res {
    macro_rules! f { ($t:ty,) => {{
        let mv = <$t as FromBig>::fb(&c[1]).unwrap();
        ring::<$t, $t>(&c[1], mv.clone(), &c[2], &c[3], &c[4])?;
        ring::<$t, KnownPrime<$t>>(&c[1], KnownPrime::new_unsafe(mv.clone()), &c[2], &c[3], &c[4])?;
        lite::<$t, KnownOdd<$t>>(&c[1], KnownOdd::new_unsafe(mv.clone()), &c[2], &c[3], &c[4])?;
        ck!(KnownOddPrime::new_odd_prime_unsafe(mv.clone()).into_modulus() == mv, "KnownOddPrime::into_modulus");
        let be = KnownOddPrime::new_odd_prime_unsafe(mv.clone()).base_and_exponent();
        ck!(be.base == mv && be.exponent == 1, "KnownOddPrime::base_and_exponent");
        mismatch::<$t>(&c[1], &c[5], &c[2], &c[3])?;
        if let Some(m) = c[1].to_u8() {
            macro_rules! s { ($m:ident,) => {{
                ck!(<$m as StaticModulus<$t>>::get_modulus() == mv, "{}::get_modulus", stringify!($m));
                lite::<$t, $m>(&c[1], $m, &c[2], &c[3], &c[4])?
            }} }
            with_static!(m, s!());
            macro_rules! pp { ($m:ident,) => {{
                let be = PrimePowerModulus::<$t>::base_and_exponent(&$m);
                let b: BigInt = be.base.into();
                ck!(num_traits::pow(b.clone(), be.exponent) == c[1] && (b == BigInt::from(2) || b == BigInt::from(3) || c[1] == b && ![4, 6, 8, 9, 10, 12, 14, 15, 16].contains(&m)),
                    "{}::base_and_exponent", stringify!($m));
            }} }
            match m {
                2 => pp!(Mod2,), 3 => pp!(Mod3,), 4 => pp!(Mod4,), 5 => pp!(Mod5,), 7 => pp!(Mod7,), 8 => pp!(Mod8,), 9 => pp!(Mod9,), 11 => pp!(Mod11,), 13 => pp!(Mod13,), 16 => pp!(Mod16,), _ => (),
            }
        }
    }} }
    with_type!(us(&c[0]), f!());
    Ok(())
}

fn gen_div(g: &mut G) -> Vec<BigInt> {
    let mut c = gen_mod(g);
    let t = [1, 3, 5, 7, 9, 11, 13][g.below(7) as usize];
    let (lo, hi) = trange(t);
    for i in 1..=5 {
        c[i] = c[i].clone().max(lo.clone()).min(hi.clone());
    }
    c[0] = t.into();
    c[1] = c[1].clone().max(BigInt::one());
    c
}

fn div<V, M>(m: &BigInt, mv: M, a: &BigInt, b: &BigInt) -> Res
where
    V: ModularReduce + FromBig + Into<BigInt> + Debug + Integer + GCD<Output = V> + ExtendedGCD,
    M: Modulus<V> + Debug,
{
    type MI<V, M> = ModularInteger<V, M>;
    let v = |x: &BigInt| V::fb(x).unwrap();
    let x: MI<V, M> = ModularInteger::new(v(a), mv.clone());
    let y: MI<V, M> = ModularInteger::new(v(b), mv.clone());
    let (ra, rb) = (a.mod_floor(m), b.mod_floor(m));
    let unit = !rb.is_zero() && Integer::gcd(&rb, m).is_one();
    let good = |what: &str, q: &MI<V, M>, n: &BigInt| -> Res {
        let qv: BigInt = q.value().clone().into();
        ck!(!qv.is_negative() && &qv < m && (&qv * &rb - n).mod_floor(m).is_zero() && q.modulus() == &mv, "{} of {} by {} mod {} gave {}", what, n, rb, m, qv);
        Ok(())
    };
    let mut z = x.clone();
    let zr = z.checked_exact_div_assign(y.clone());
    let mut z2 = x.clone();
    let z2r = z2.checked_exact_div_assign(&y);
    let all = vec![x.checked_div(&y), x.clone().checked_exact_div(y.clone()), x.clone().checked_exact_div(&y), (&x).checked_exact_div(y.clone()), (&x).checked_exact_div(&y),
        zr.ok().map(|_| z.clone()), z2r.ok().map(|_| z2.clone())];
    let inv = y.checked_inverse();
    if unit {
        good("checked_inverse", &inv.ok_or_else(|| format!("checked_inverse({}) mod {} is None", rb, m))?, &BigInt::one())?;
        good("inverse", &guard(|| y.inverse()).ok_or("inverse panics")?, &BigInt::one())?;
        for q in all {
            good("checked division", &q.ok_or_else(|| format!("checked division by {} mod {} is None", rb, m))?, &ra)?;
        }
        good("div", &(x.clone() / y.clone()), &ra)?;
        good("div", &(&x / y.clone()), &ra)?;
        good("div", &(x.clone() / &y), &ra)?;
        good("div", &(&x / &y), &ra)?;
        good("exact_div", &x.clone().exact_div(y.clone()), &ra)?;
        good("exact_div", &(&x).exact_div(y.clone()), &ra)?;
        good("exact_div", &x.clone().exact_div(&y), &ra)?;
        good("exact_div", &(&x).exact_div(&y), &ra)?;
        macro_rules! asg { ($z:ident, $e:expr) => {{ let mut $z = x.clone(); $e; good(stringify!($e), &$z, &ra)?; }} }
        asg!(z, z /= y.clone());
        asg!(z, z /= &y);
        asg!(z, z.exact_div_assign(y.clone()));
        asg!(z, z.exact_div_assign(&y));
    } else {
        ck!(inv.is_none(), "checked_inverse({}) mod {} = {:?}", rb, m, inv);
        for q in all {
            ck!(q.is_none(), "checked division of {} by {} mod {} = {:?}", ra, rb, m, q);
        }
        ck!(z == x && z2 == x, "failed checked_exact_div_assign changed {:?}", x);
        macro_rules! pan { ($e:expr) => { ck!(guard(|| { $e; }).is_none(), "{} with {} and {} mod {} does not panic", stringify!($e), ra, rb, m); } }
        pan!(y.inverse());
        pan!(x.clone() / y.clone()); pan!(&x / y.clone()); pan!(x.clone() / &y); pan!(&x / &y);
        pan!(x.clone().exact_div(y.clone())); pan!((&x).exact_div(&y));
        pan!({ let mut z = x.clone(); z /= y.clone(); }); pan!({ let mut z = x.clone(); z /= &y; });
    }
    Ok(())
}

fn run_div(c: &[BigInt]) -> Res {
    macro_rules! f { ($t:ty,) => {{
        let mv = <$t as FromBig>::fb(&c[1]).unwrap();
        div::<$t, $t>(&c[1], mv.clone(), &c[2], &c[3])?;
        div::<$t, KnownPrime<$t>>(&c[1], KnownPrime::new_unsafe(mv.clone()), &c[2], &c[3])?;
        if c[1] != c[5] {
            let v = |x: &BigInt| <$t as FromBig>::fb(x).unwrap();
            let x: ModularInteger<$t, $t> = ModularInteger::new(v(&c[2]), v(&c[1]));
            let y: ModularInteger<$t, $t> = ModularInteger::new(v(&c[3]), v(&c[5]));
            ck!(x.checked_div(&y).is_none() && x.clone().checked_exact_div(&y).is_none(), "checked division with moduli {} and {}", c[1], c[5]);
            macro_rules! pan { ($e:expr) => { ck!(guard(|| { $e; }).is_none(), "{} with moduli {} and {} does not panic", stringify!($e), c[1], c[5]); } }
            pan!(x.clone() / y.clone()); pan!(&x / y.clone()); pan!(x.clone() / &y); pan!(&x / &y);
            pan!({ let mut z = x.clone(); z /= y.clone(); }); pan!({ let mut z = x.clone(); z /= &y; });
        }
    }} }
    with_signed!(us(&c[0]), f!());
    Ok(())
}

fn gen_pow(g: &mut G) -> Vec<BigInt> {
    let mut c = gen_mod(g);
    c[4] = match g.below(5) {
        0 => BigInt::from(g.below(6)),
        1 => BigInt::from(g.below(300)),
        2 => (BigInt::one() << g.below(140) as usize) + g.range(-1, 1),
        _ => g.nat(),
    };
    c
}

fn powm(a: &BigInt, e: &BigInt, m: &BigInt) -> BigInt {
    let mut r = BigInt::one().mod_floor(m);
    for i in (0..e.bits()).rev() {
        r = (&r * &r).mod_floor(m);
        if ((e >> i as usize) % BigInt::from(2)).is_one() {
            r = (&r * a).mod_floor(m);
        }
    }
    r
}

fn run_pow(c: &[BigInt]) -> Res {
    let w = powm(&c[2].mod_floor(&c[1]), &c[4], &c[1]);
    let e = &c[4];
    let t = us(&c[0]);
    macro_rules! one { ($t:ty, $b:expr, $mv:expr, $conv:ident) => {
        if let Some(x) = e.$conv() {
            let r: BigInt = $b.pow_modular_reduce(&x, &$mv).into();
            ck!(r == w, "{} ^ {} ({}) mod {} = {}, want {}", c[2], e, stringify!($conv), c[1], r, w);
            let r: BigInt = $b.pow_modular_reduce(&x, KnownOdd::new_unsafe($mv.clone())).into();
            ck!(r == w, "{} ^ {} ({}) mod odd {} = {}, want {}", c[2], e, stringify!($conv), c[1], r, w);
        }
    } }
    macro_rules! f { ($t:ty,) => {{
        let mv = <$t as FromBig>::fb(&c[1]).unwrap();
        let b = <$t as FromBig>::fb(&c[2]).unwrap();
        one!($t, b, mv, to_u8); one!($t, b, mv, to_u16); one!($t, b, mv, to_u32); one!($t, b, mv, to_u64); one!($t, b, mv, to_u128); one!($t, b, mv, to_usize);
        one!($t, b, mv, to_biguint);
    }} }
    with_type!(t, f!());
    macro_rules! h { ($t:ty,) => {{
        let mv = <$t as FromBig>::fb(&c[1]).unwrap();
        let b = <$t as FromBig>::fb(&c[2]).unwrap();
        one!($t, b, mv, to_i8); one!($t, b, mv, to_i16); one!($t, b, mv, to_i32); one!($t, b, mv, to_i64); one!($t, b, mv, to_i128); one!($t, b, mv, to_isize);
        one!($t, b, mv, to_bigint);
    }} }
    use num_bigint::ToBigInt;
    if t < 12 {
        macro_rules! hh { ($($i:expr => $t:ty),*) => { match t { $($i => h!($t,),)* _ => () } } }
        hh!(0 => u8, 1 => i8, 2 => u16, 3 => i16, 4 => u32, 5 => i32, 6 => u64, 7 => i64, 8 => u128, 9 => i128, 10 => usize, 11 => isize);
    } else if t == 13 {
        h!(BigInt,);
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { name: "modint.ring", gen: gen_mod, run: run_ring, weight: 1 },
        Check { name: "moddiv.div", gen: gen_div, run: run_div, weight: 1 },
        Check { name: "moddiv.pow", gen: gen_pow, run: run_pow, weight: 1 },
    ]
}
