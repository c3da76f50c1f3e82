use crate::ck;
use crate::g::*;
use algebraics::traits::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, ToPrimitive, Zero};

/// an integer that fits the machine type with index t (0..12), biased to the ends of the range
fn machine(g: &mut G, lo: &BigInt, hi: &BigInt) -> BigInt {
    match g.below(4) {
        0 => {
            let d = BigInt::from(g.below(6));
            if g.below(2) == 0 { (lo + d).min(hi.clone()) } else { (hi - d).max(lo.clone()) }
        }
        1 => {
            let b = (hi.bits()).max(1);
            let k = g.below(b + 1);
            let mut v = (BigInt::one() << k as usize) + g.range(-2, 2);
            if g.below(2) == 0 { v = -v; }
            v.max(lo.clone()).min(hi.clone())
        }
        2 => {
            let w: BigInt = hi - lo + 1;
            lo + g.bits(w.bits() + 8) % w
        }
        _ => BigInt::from(g.range(-12, 12)).max(lo.clone()).min(hi.clone()),
    }
}

pub const NT: u64 = 14;

pub fn trange(t: usize) -> (BigInt, BigInt) {
    macro_rules! r { ($($i:expr => $t:ty),*) => { match t { $($i => (BigInt::from(<$t>::MIN), BigInt::from(<$t>::MAX)),)* 12 => (BigInt::zero(), p2(300)), _ => (-p2(300), p2(300)) } } }
    r!(0 => u8, 1 => i8, 2 => u16, 3 => i16, 4 => u32, 5 => i32, 6 => u64, 7 => i64, 8 => u128, 9 => i128, 10 => usize, 11 => isize)
}

#[macro_export]
macro_rules! with_type {
    ($t:expr, $f:ident ! ($($a:tt)*)) => {
        match $t {
            0 => $f!(u8, $($a)*), 1 => $f!(i8, $($a)*), 2 => $f!(u16, $($a)*), 3 => $f!(i16, $($a)*), 4 => $f!(u32, $($a)*), 5 => $f!(i32, $($a)*),
            6 => $f!(u64, $($a)*), 7 => $f!(i64, $($a)*), 8 => $f!(u128, $($a)*), 9 => $f!(i128, $($a)*), 10 => $f!(usize, $($a)*), 11 => $f!(isize, $($a)*),
            12 => $f!(BigUint, $($a)*), _ => $f!(BigInt, $($a)*),
        }
    };
}
#[macro_export]
macro_rules! with_signed {
    ($t:expr, $f:ident ! ($($a:tt)*)) => {
        match $t {
            1 => $f!(i8, $($a)*), 3 => $f!(i16, $($a)*), 5 => $f!(i32, $($a)*),
            7 => $f!(i64, $($a)*), 9 => $f!(i128, $($a)*), 11 => $f!(isize, $($a)*), 13 => $f!(BigInt, $($a)*), _ => (),
        }
    };
}

pub trait FromBig: Sized {
    fn fb(v: &BigInt) -> Option<Self>;
}
macro_rules! fb { ($($t:ty, $m:ident);*) => { $(impl FromBig for $t { fn fb(v: &BigInt) -> Option<Self> { v.$m() } })* } }
fb!(u8, to_u8; i8, to_i8; u16, to_u16; i16, to_i16; u32, to_u32; i32, to_i32; u64, to_u64; i64, to_i64; u128, to_u128; i128, to_i128; usize, to_usize; isize, to_isize; BigUint, to_biguint);
impl FromBig for BigInt {
    fn fb(v: &BigInt) -> Option<Self> { Some(v.clone()) }
}

pub fn gen_t(g: &mut G, n: usize) -> Vec<BigInt> {
    let t = g.below(NT);
    let (lo, hi) = trange(t as usize);
    let mut r = vec![BigInt::from(t)];
    for _ in 0..n {
        r.push(if t >= 12 && g.below(2) == 0 { let v = g.int(); if t == 12 { v.abs() } else { v } } else { machine(g, &lo, &hi) });
    }
    r
}

fn gen_log(g: &mut G) -> Vec<BigInt> {
    let mut c = gen_t(g, 1);
    if us(&c[0]) >= 12 && g.below(2) == 0 {
        // many trailing zeros
        let k = g.below(200);
        c[1] = &c[1] << k as usize;
    }
    c
}

fn logs(c: &[BigInt]) -> Res {
    let v = &c[1];
    macro_rules! f { ($t:ty,) => {{
        let x = <$t as FromBig>::fb(v).unwrap();
        (FloorLog2::floor_log2(&x), CeilLog2::ceil_log2(&x), TrailingZeros::trailing_zeros(&x))
    }} }
    let (fl, ce, tz) = with_type!(us(&c[0]), f!());
    if v.is_positive() {
        let k = fl.ok_or("floor_log2 is None")?;
        ck!(&p2(k) <= v && v < &p2(k + 1), "floor_log2({}) = {}", v, k);
        let k = ce.ok_or("ceil_log2 is None")?;
        ck!(v <= &p2(k) && (k == 0 || &p2(k - 1) < v), "ceil_log2({}) = {}", v, k);
    } else {
        ck!(fl.is_none() && ce.is_none(), "log2 of {} is not None", v);
    }
    if v.is_zero() {
        ck!(tz.is_none(), "trailing_zeros(0) is not None");
    } else {
        let k = tz.ok_or("trailing_zeros is None")?;
        ck!((v % p2(k)).is_zero() && !(v % p2(k + 1)).is_zero(), "trailing_zeros({}) = {}", v, k);
    }
    Ok(())
}

fn eu(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}

fn gen_pair(g: &mut G) -> Vec<BigInt> {
    let mut c = gen_t(g, 2);
    if g.below(2) == 0 {
        let (lo, hi) = trange(us(&c[0]));
        let m = BigInt::from(g.range(1, 12));
        for i in 1..3 {
            let v = &c[i] / 13 * &m;
            if v >= lo && v <= hi { c[i] = v; }
        }
    }
    if g.below(4) == 0 {
        // a multiple
        let (lo, hi) = trange(us(&c[0]));
        let v = &c[2] * g.range(-9, 9);
        if v >= lo && v <= hi { c[1] = v; }
    }
    c
}

fn gcds(c: &[BigInt]) -> Res {
    let (a, b) = (&c[1], &c[2]);
    let (lo, hi) = trange(us(&c[0]));
    // magnitudes that do not fit the type are outside the property
    if a == &lo && lo.is_negative() || b == &lo && lo.is_negative() {
        return Ok(());
    }
    let g = eu(a, b);
    let l = if a.is_zero() || b.is_zero() { BigInt::zero() } else { (a * b).abs() / &g };
    let lfits = l <= hi;
    macro_rules! f { ($t:ty,) => {{
        let (x, y) = (<$t as FromBig>::fb(a).unwrap(), <$t as FromBig>::fb(b).unwrap());
        let r = BigInt::from(GCD::gcd(&x, &y));
        ck!(r == g, "gcd({}, {}) = {}", a, b, r);
        if lfits {
            let r = BigInt::from(GCD::lcm(&x, &y));
            ck!(r == l, "lcm({}, {}) = {}", a, b, r);
            let r = GCD::gcd_lcm(&x, &y);
            ck!(BigInt::from(r.gcd.clone()) == g && BigInt::from(r.lcm.clone()) == l, "gcd_lcm({}, {}) = {:?}", a, b, r);
        }
    }} }
    with_type!(us(&c[0]), f!());
    macro_rules! e { ($t:ty,) => {{
        let (x, y) = (<$t as FromBig>::fb(a).unwrap(), <$t as FromBig>::fb(b).unwrap());
        let r = ExtendedGCD::extended_gcd(&x, &y);
        ck!(BigInt::from(r.gcd.clone()) == g, "extended_gcd({}, {}) = {:?}", a, b, r);
        ck!(BigInt::from(r.x.clone()) * a + BigInt::from(r.y.clone()) * b == g, "extended_gcd({}, {}) = {:?}", a, b, r);
        if lfits {
            let r = ExtendedGCD::extended_gcd_lcm(&x, &y);
            ck!(BigInt::from(r.gcd.clone()) == g && BigInt::from(r.lcm.clone()) == l, "extended_gcd_lcm({}, {}) = {:?}", a, b, r);
            ck!(BigInt::from(r.x.clone()) * a + BigInt::from(r.y.clone()) * b == g, "extended_gcd_lcm({}, {}) = {:?}", a, b, r);
        }
    }} }
    with_signed!(us(&c[0]), e!());
    Ok(())
}

fn gen_qq(g: &mut G) -> Vec<BigInt> {
    let mut c = vec![g.int(), g.pos(), g.int(), g.pos()];
    if g.below(6) == 0 { c[0] = BigInt::zero(); }
    if g.below(6) == 0 { c[2] = BigInt::zero(); }
    if g.below(3) == 0 { c[1] = BigInt::one(); c[3] = BigInt::one(); }
    c
}

fn ratio_gcd(c: &[BigInt]) -> Res {
    let (a, b) = (Q::new(c[0].clone(), c[1].clone()), Q::new(c[2].clone(), c[3].clone()));
    let d = a.denom() * b.denom();
    let g = Q::new(eu(&(a.numer() * b.denom()), &(b.numer() * a.denom())), d);
    let l = if a.is_zero() || b.is_zero() { Q::zero() } else { (&a * &b).abs() / &g };
    let r = GCD::gcd(&a, &b);
    ck!(r == g, "gcd({}, {}) = {}", a, b, r);
    let r = GCD::lcm(&a, &b);
    ck!(r == l, "lcm({}, {}) = {}", a, b, r);
    let r = GCD::gcd_lcm(&a, &b);
    ck!(r.gcd == g && r.lcm == l, "gcd_lcm({}, {}) = {:?}", a, b, r);
    let r = ExtendedGCD::extended_gcd(&a, &b);
    ck!(r.gcd == g && &r.x * &a + &r.y * &b == g, "extended_gcd({}, {}) = {:?}", a, b, r);
    ck!(r.x.is_integer() && r.y.is_integer(), "extended_gcd({}, {}) has non-integer cofactors {:?}", a, b, r);
    let r = ExtendedGCD::extended_gcd_lcm(&a, &b);
    ck!(r.gcd == g && r.lcm == l && &r.x * &a + &r.y * &b == g, "extended_gcd_lcm({}, {}) = {:?}", a, b, r);
    Ok(())
}

fn exact(c: &[BigInt]) -> Res {
    let (a, b) = (&c[1], &c[2]);
    let (lo, hi) = trange(us(&c[0]));
    let mut want = if b.is_zero() || !(a % b).is_zero() { None } else { Some(a / b) };
    if us(&c[0]) < 12 {
        want = want.filter(|w| *w >= lo && *w <= hi);
    }
    macro_rules! f { ($t:ty,) => {{
        let (x, y) = (<$t as FromBig>::fb(a).unwrap(), <$t as FromBig>::fb(b).unwrap());
        let w: Option<$t> = want.as_ref().map(|w| <$t as FromBig>::fb(w).unwrap());
        let all: Vec<(&str, Option<$t>)> = vec![
            ("ref ref", (&x).checked_exact_div(&y)), ("val ref", x.clone().checked_exact_div(&y)),
            ("ref val", (&x).checked_exact_div(y.clone())), ("val val", x.clone().checked_exact_div(y.clone())),
            ("exact ref ref", guard(|| (&x).exact_div(&y))), ("exact val ref", guard(|| x.clone().exact_div(&y))),
            ("exact ref val", guard(|| (&x).exact_div(y.clone()))), ("exact val val", guard(|| x.clone().exact_div(y.clone()))),
            ("exact assign ref", guard(|| { let mut t = x.clone(); t.exact_div_assign(&y); t })),
            ("exact assign val", guard(|| { let mut t = x.clone(); t.exact_div_assign(y.clone()); t })),
        ];
        for (n, r) in all {
            ck!(r == w, "exact division {} {} / {} = {:?}", n, a, b, r);
        }
        let mut t = x.clone();
        let ok = t.checked_exact_div_assign(&y).is_ok();
        ck!(ok == w.is_some() && t == w.clone().unwrap_or(x.clone()), "checked_exact_div_assign(&) {} / {}: {} {:?}", a, b, ok, t);
        let mut t = x.clone();
        let ok = t.checked_exact_div_assign(y.clone()).is_ok();
        ck!(ok == w.is_some() && t == w.clone().unwrap_or(x.clone()), "checked_exact_div_assign {} / {}: {} {:?}", a, b, ok, t);
    }} }
    with_type!(us(&c[0]), f!());
    Ok(())
}

fn ratio_exact(c: &[BigInt]) -> Res {
    let a = Q::new(c[0].clone(), c[1].clone());
    macro_rules! f { ($b:expr) => {{
        let b = $b;
        let w = if b.is_zero() { None } else { Some(&a / &b) };
        let all: Vec<(&str, Option<Q>)> = vec![
            ("ref ref", (&a).checked_exact_div(&b)), ("val ref", a.clone().checked_exact_div(&b)),
            ("ref val", (&a).checked_exact_div(b.clone())), ("val val", a.clone().checked_exact_div(b.clone())),
            ("exact ref ref", guard(|| (&a).exact_div(&b))), ("exact val ref", guard(|| a.clone().exact_div(&b))),
            ("exact ref val", guard(|| (&a).exact_div(b.clone()))), ("exact val val", guard(|| a.clone().exact_div(b.clone()))),
            ("exact assign ref", guard(|| { let mut t = a.clone(); t.exact_div_assign(&b); t })),
            ("exact assign val", guard(|| { let mut t = a.clone(); t.exact_div_assign(b.clone()); t })),
        ];
        for (n, r) in all {
            ck!(r == w, "exact division {} {} / {} = {:?}", n, a, b, r);
        }
        let mut t = a.clone();
        let ok = t.checked_exact_div_assign(&b).is_ok();
        ck!(ok == w.is_some() && t == w.clone().unwrap_or(a.clone()), "checked_exact_div_assign(&) {} / {}: {} {:?}", a, b, ok, t);
        let mut t = a.clone();
        let ok = t.checked_exact_div_assign(b.clone()).is_ok();
        ck!(ok == w.is_some() && t == w.clone().unwrap_or(a.clone()), "checked_exact_div_assign {} / {}: {} {:?}", a, b, ok, t);
    }} }
    f!(Q::new(c[2].clone(), c[3].clone()));
    f!(c[2].clone());
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { name: "log2.all", gen: gen_log, run: logs, weight: 2 },
        Check { name: "gcd.int", gen: gen_pair, run: gcds, weight: 2 },
        Check { name: "gcd.ratio", gen: gen_qq, run: ratio_gcd, weight: 1 },
        Check { name: "exactdiv.int", gen: gen_pair, run: exact, weight: 2 },
        Check { name: "exactdiv.ratio", gen: gen_qq, run: ratio_exact, weight: 1 },
    ]
}
