use crate::ck;
use crate::g::*;
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::traits::{ExactDiv, ExactDivAssign, IntervalUnion, IntervalUnionAssign};
use num_bigint::BigInt;
use num_traits::{One, Pow, Signed, Zero};

/// value view of an interval: rational bounds and the precision
#[derive(Clone, Debug)]
struct V {
    lo: Q,
    hi: Q,
    n: usize,
}

fn v(d: &D) -> V {
    let n = d.log2_denom();
    V { lo: Q::new(d.lower_bound_numer().clone(), p2(n)), hi: Q::new(d.upper_bound_numer().clone(), p2(n)), n }
}

fn di(c: &[BigInt]) -> D {
    D::new(c[0].clone(), c[1].clone(), us(&c[2]))
}

fn fl(q: &Q, n: usize) -> Q {
    Q::new(floor(&(q * p2(n))), p2(n))
}
fn ce(q: &Q, n: usize) -> Q {
    Q::new(ceil(&(q * p2(n))), p2(n))
}

fn expect(what: &str, r: &D, lo: Q, hi: Q, n: usize) -> Res {
    let r = v(r);
    ck!(r.n == n, "{}: precision {} instead of {}", what, r.n, n);
    ck!(r.lo <= r.hi, "{}: bounds out of order {:?}", what, r);
    ck!(r.lo == lo && r.hi == hi, "{}: got [{}, {}], exact tightest result is [{}, {}]", what, r.lo, r.hi, lo, hi);
    Ok(())
}

/// result must be the tightest interval of precision n around [lo, hi]
fn tight(what: &str, r: &D, lo: &Q, hi: &Q, n: usize) -> Res {
    expect(what, r, fl(lo, n), ce(hi, n), n)
}

fn gen_d(g: &mut G) -> Vec<BigInt> {
    let (mut a, mut b) = (g.int(), g.int());
    if g.below(4) == 0 {
        b = &a + g.range(0, 2);
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    if g.below(8) == 0 {
        b = BigInt::zero().max(a.clone());
    }
    vec![a, b, g.prec()]
}

fn gen_dd(g: &mut G) -> Vec<BigInt> {
    let mut r = gen_d(g);
    r.extend(gen_d(g));
    if g.below(3) == 0 {
        r[5] = r[2].clone();
    }
    r
}

fn gen_dq(g: &mut G) -> Vec<BigInt> {
    let mut r = gen_d(g);
    r.push(g.int());
    r.push(if g.below(3) == 0 { BigInt::one() } else { g.pos() });
    r
}

fn min4(a: &[Q]) -> Q {
    a.iter().min().unwrap().clone()
}
fn max4(a: &[Q]) -> Q {
    a.iter().max().unwrap().clone()
}

fn same(what: &str, a: &D, b: &D) -> Res {
    ck!(a.is_same(b), "{}: variants disagree: {:?} vs {:?}", what, a, b);
    Ok(())
}

macro_rules! binop_variants {
    ($what:expr, $a:expr, $b:expr, $op:ident, $op_assign:ident) => {{
        let r = (&$a).$op(&$b);
        same($what, &r, &$a.clone().$op(&$b))?;
        same($what, &r, &(&$a).$op($b.clone()))?;
        same($what, &r, &$a.clone().$op($b.clone()))?;
        let mut x = $a.clone();
        x.$op_assign(&$b);
        same($what, &r, &x)?;
        let mut x = $a.clone();
        x.$op_assign($b.clone());
        same($what, &r, &x)?;
        r
    }};
}

use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};

fn addsub(c: &[BigInt]) -> Res {
    let (a, b) = (di(c), di(&c[3..]));
    let n = us(&c[2]).max(us(&c[5]));
    let (x, y) = (v(&a), v(&b));
    let r = binop_variants!("add", a, b, add, add_assign);
    expect("add", &r, &x.lo + &y.lo, &x.hi + &y.hi, n)?;
    let r = binop_variants!("sub", a, b, sub, sub_assign);
    expect("sub", &r, &x.lo - &y.hi, &x.hi - &y.lo, n)
}

fn mul(c: &[BigInt]) -> Res {
    let (a, b) = (di(c), di(&c[3..]));
    let n = us(&c[2]).max(us(&c[5]));
    let (x, y) = (v(&a), v(&b));
    let r = binop_variants!("mul", a, b, mul, mul_assign);
    let p = [&x.lo * &y.lo, &x.lo * &y.hi, &x.hi * &y.lo, &x.hi * &y.hi];
    tight("mul", &r, &min4(&p), &max4(&p), n)
}

fn div(c: &[BigInt]) -> Res {
    let (a, b) = (di(c), di(&c[3..]));
    let n = us(&c[2]).max(us(&c[5]));
    let (x, y) = (v(&a), v(&b));
    let zero = !y.lo.is_positive() && !y.hi.is_negative();
    let all: Vec<Option<D>> = vec![
        guard(|| &a / &b),
        guard(|| a.clone() / &b),
        guard(|| &a / b.clone()),
        guard(|| a.clone() / b.clone()),
        guard(|| { let mut t = a.clone(); t /= &b; t }),
        guard(|| { let mut t = a.clone(); t /= b.clone(); t }),
        guard(|| (&a).exact_div(&b)),
        guard(|| a.clone().exact_div(b.clone())),
        (&a).checked_exact_div(&b),
        a.clone().checked_exact_div(b.clone()),
        { let mut t = a.clone(); t.checked_exact_div_assign(&b).ok().map(|_| t) },
    ];
    for (i, r) in all.iter().enumerate() {
        match r {
            None => ck!(zero, "division variant {} refused a divisor that excludes zero", i),
            Some(r) => {
                ck!(!zero, "division variant {} accepted a divisor containing zero: {:?}", i, r);
                let w = v(r);
                let q = [&x.lo / &y.lo, &x.lo / &y.hi, &x.hi / &y.lo, &x.hi / &y.hi];
                ck!(w.lo <= min4(&q) && w.hi >= max4(&q), "division variant {}: {:?} does not enclose the quotients", i, r);
                ck!(w.n == n, "division variant {}: precision {}", i, w.n);
                // exactly: multiplication by the tightest reciprocal of the divisor in its own precision
                let m = us(&c[5]);
                let rl = fl(&y.hi.recip(), m);
                let rh = ce(&y.lo.recip(), m);
                let p = [&x.lo * &rl, &x.lo * &rh, &x.hi * &rl, &x.hi * &rh];
                tight("div", r, &min4(&p), &max4(&p), n)?;
            }
        }
    }
    Ok(())
}

fn recip(c: &[BigInt]) -> Res {
    let a = di(c);
    let x = v(&a);
    let zero = !x.lo.is_positive() && !x.hi.is_negative();
    ck!(a.contains_zero() == zero, "contains_zero = {}", a.contains_zero());
    for (i, r) in [guard(|| a.recip()), a.checked_recip()].iter().enumerate() {
        match r {
            None => ck!(zero, "recip variant {} refused", i),
            Some(r) => {
                ck!(!zero, "recip variant {} accepted an interval containing zero", i);
                tight("recip", r, &x.hi.recip(), &x.lo.recip(), x.n)?;
            }
        }
    }
    Ok(())
}

fn scalar(c: &[BigInt]) -> Res {
    let a = di(c);
    let x = v(&a);
    let q = Q::new(c[3].clone(), c[4].clone());
    let k = c[3].clone();
    let kq = qi(&k);
    let n = x.n;
    // rational
    let r = binop_variants!("add ratio", a, q, add, add_assign);
    expect("add ratio", &r, &x.lo + fl(&q, n), &x.hi + ce(&q, n), n)?;
    let r = binop_variants!("sub ratio", a, q, sub, sub_assign);
    expect("sub ratio", &r, &x.lo - ce(&q, n), &x.hi - fl(&q, n), n)?;
    let r = binop_variants!("mul ratio", a, q, mul, mul_assign);
    let p = [&x.lo * &q, &x.hi * &q];
    tight("mul ratio", &r, &min4(&p), &max4(&p), n)?;
    if q.is_zero() {
        ck!(guard(|| &a / &q).is_none(), "division by rational zero did not panic");
        ck!(guard(|| &a / &k).is_none(), "division by integer zero did not panic");
    } else {
        let r = binop_variants!("div ratio", a, q, div, div_assign);
        let p = [&x.lo / &q, &x.hi / &q];
        tight("div ratio", &r, &min4(&p), &max4(&p), n)?;
        let r = binop_variants!("div int", a, k, div, div_assign);
        let p = [&x.lo / &kq, &x.hi / &kq];
        tight("div int", &r, &min4(&p), &max4(&p), n)?;
    }
    // integer
    let r = binop_variants!("add int", a, k, add, add_assign);
    expect("add int", &r, &x.lo + &kq, &x.hi + &kq, n)?;
    let r = binop_variants!("sub int", a, k, sub, sub_assign);
    expect("sub int", &r, &x.lo - &kq, &x.hi - &kq, n)?;
    let r = binop_variants!("mul int", a, k, mul, mul_assign);
    let p = [&x.lo * &kq, &x.hi * &kq];
    expect("mul int", &r, min4(&p), max4(&p), n)?;
    macro_rules! prims {
        ($($t:ty),*) => {$(
            if let Ok(w) = <$t as std::convert::TryFrom<BigInt>>::try_from(k.clone()) {
                same(concat!("add ", stringify!($t)), &(&a + &k), &(&a + w))?;
                same(concat!("sub ", stringify!($t)), &(&a - &k), &(&a - w))?;
                same(concat!("mul ", stringify!($t)), &(&a * &k), &(&a * w))?;
                if !k.is_zero() {
                    same(concat!("div ", stringify!($t)), &(&a / &k), &(&a / w))?;
                }
                let mut t = a.clone();
                t += w;
                same(concat!("add_assign ", stringify!($t)), &(&a + &k), &t)?;
                let mut t = a.clone();
                t -= w;
                same(concat!("sub_assign ", stringify!($t)), &(&a - &k), &t)?;
                let mut t = a.clone();
                t *= w;
                same(concat!("mul_assign ", stringify!($t)), &(&a * &k), &t)?;
                if !k.is_zero() {
                    let mut t = a.clone();
                    t /= w;
                    same(concat!("div_assign ", stringify!($t)), &(&a / &k), &t)?;
                }
            }
        )*};
    }
    prims!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
    Ok(())
}

fn unary(c: &[BigInt]) -> Res {
    let a = di(c);
    let x = v(&a);
    let n = x.n;
    let m = us(&c[3]);
    expect("neg", &-&a, -&x.hi, -&x.lo, n)?;
    expect("neg", &-a.clone(), -&x.hi, -&x.lo, n)?;
    let zero = !x.lo.is_positive() && !x.hi.is_negative();
    let (al, ah) = (x.lo.abs(), x.hi.abs());
    let lo = if zero { Q::zero() } else { al.clone().min(ah.clone()) };
    let hi = al.max(ah);
    for r in [a.abs(), a.clone().into_abs(), { let mut t = a.clone(); t.abs_assign(); t }] {
        expect("abs", &r, lo.clone(), hi.clone(), n)?;
    }
    let (sl, sh) = (&lo * &lo, &hi * &hi);
    for r in [a.square(), a.clone().into_square(), { let mut t = a.clone(); t.square_assign(); t }] {
        tight("square", &r, &sl, &sh, n)?;
    }
    for r in [a.floor(m), a.clone().into_floor(m), { let mut t = a.clone(); t.floor_assign(m); t }] {
        expect("floor", &r, qi(&floor(&x.lo)), qi(&floor(&x.hi)), m)?;
    }
    for r in [a.ceil(m), a.clone().into_ceil(m), { let mut t = a.clone(); t.ceil_assign(m); t }] {
        expect("ceil", &r, qi(&ceil(&x.lo)), qi(&ceil(&x.hi)), m)?;
    }
    for r in [a.to_converted_log2_denom(m), a.clone().into_converted_log2_denom(m), { let mut t = a.clone(); t.convert_log2_denom(m); t }] {
        tight("convert", &r, &x.lo, &x.hi, m)?;
    }
    // sqrt: largest r with r^2 <= lo, least r with r^2 >= hi
    for r in [guard(|| a.sqrt()), guard(|| a.clone().into_sqrt()), guard(|| { let mut t = a.clone(); t.sqrt_assign(); t })] {
        match r {
            None => ck!(x.lo.is_negative(), "sqrt panicked on a non-negative interval"),
            Some(r) => {
                ck!(!x.lo.is_negative(), "sqrt accepted a negative lower bound: {:?}", r);
                let w = v(&r);
                let ulp = Q::new(BigInt::one(), p2(n));
                ck!(w.n == n && w.lo <= w.hi && !w.lo.is_negative(), "sqrt: malformed {:?}", r);
                ck!(&w.lo * &w.lo <= x.lo && (&w.lo + &ulp) * (&w.lo + &ulp) > x.lo, "sqrt lower bound {} of {}", w.lo, x.lo);
                ck!(&w.hi * &w.hi >= x.hi, "sqrt upper bound {} of {}", w.hi, x.hi);
                if !w.hi.is_zero() {
                    ck!((&w.hi - &ulp) * (&w.hi - &ulp) < x.hi, "sqrt upper bound {} of {} is not tight", w.hi, x.hi);
                }
            }
        }
    }
    // accessors
    let (l, h) = a.to_ratio_range();
    ck!(l == x.lo && h == x.hi, "to_ratio_range");
    let (l, h) = a.clone().into_ratio_range();
    ck!(l == x.lo && h == x.hi, "into_ratio_range");
    ck!(a.lower_bound() == x.lo && a.clone().into_lower_bound() == x.lo, "lower_bound");
    ck!(a.upper_bound() == x.hi && a.clone().into_upper_bound() == x.hi, "upper_bound");
    let (l, h, k) = a.clone().destructure();
    ck!(l == c[0] && h == c[1] && k == n, "destructure");
    let mut t = a.clone();
    t.set_to_lower_bound();
    expect("set_to_lower_bound", &t, x.lo.clone(), x.lo.clone(), n)?;
    let mut t = a.clone();
    t.set_to_upper_bound();
    expect("set_to_upper_bound", &t, x.hi.clone(), x.hi.clone(), n)?;
    let mut t = a.clone();
    t.set_one();
    expect("set_one", &t, Q::one(), Q::one(), n)?;
    let mut t = a.clone();
    t.set_zero();
    expect("set_zero", &t, Q::zero(), Q::zero(), n)?;
    let mut t = a.clone();
    t.set_negative_one();
    expect("set_negative_one", &t, -Q::one(), -Q::one(), n)?;
    match guard(|| { let mut t = a.clone(); t.set_lower_bound_to_zero(); t }) {
        None => ck!(x.hi.is_negative(), "set_lower_bound_to_zero panicked"),
        Some(t) => { ck!(!x.hi.is_negative(), "set_lower_bound_to_zero accepted"); expect("set_lower_bound_to_zero", &t, Q::zero(), x.hi.clone(), n)? }
    }
    match guard(|| { let mut t = a.clone(); t.set_upper_bound_to_zero(); t }) {
        None => ck!(x.lo.is_positive(), "set_upper_bound_to_zero panicked"),
        Some(t) => { ck!(!x.lo.is_positive(), "set_upper_bound_to_zero accepted"); expect("set_upper_bound_to_zero", &t, x.lo.clone(), Q::zero(), n)? }
    }
    let k = &c[4];
    match guard(|| { let mut t = a.clone(); t.set_lower_bound_numer(k.clone()); t }) {
        None => ck!(*k > c[1], "set_lower_bound_numer panicked"),
        Some(t) => { ck!(*k <= c[1], "set_lower_bound_numer accepted"); expect("set_lower_bound_numer", &t, Q::new(k.clone(), p2(n)), x.hi.clone(), n)? }
    }
    match guard(|| { let mut t = a.clone(); t.set_upper_bound_numer(k.clone()); t }) {
        None => ck!(*k < c[0], "set_upper_bound_numer panicked"),
        Some(t) => { ck!(*k >= c[0], "set_upper_bound_numer accepted"); expect("set_upper_bound_numer", &t, x.lo.clone(), Q::new(k.clone(), p2(n)), n)? }
    }
    Ok(())
}

fn union(c: &[BigInt]) -> Res {
    let (a, b) = (di(c), di(&c[3..]));
    let n = us(&c[2]).max(us(&c[5]));
    let (x, y) = (v(&a), v(&b));
    let r = binop_variants!("interval_union", a, b, interval_union, interval_union_assign);
    expect("interval_union", &r, x.lo.min(y.lo), x.hi.max(y.hi), n)?;
    let s = us(&c[2]) == us(&c[5]) && c[0] == c[3] && c[1] == c[4];
    ck!(a.is_same(&b) == s, "is_same = {}", a.is_same(&b));
    ck!(a.is_same(&a.clone()), "is_same is not reflexive");
    Ok(())
}

fn ctor(c: &[BigInt]) -> Res {
    // [num1, den1, num2, den2, n]
    let (p, q) = (Q::new(c[0].clone(), c[1].clone()), Q::new(c[2].clone(), c[3].clone()));
    let n = us(&c[4]);
    tight("from_ratio", &D::from_ratio(p.clone(), n), &p, &p, n)?;
    match guard(|| D::from_ratio_range(p.clone(), q.clone(), n)) {
        None => ck!(p > q, "from_ratio_range panicked"),
        Some(r) => { ck!(p <= q, "from_ratio_range accepted reversed bounds"); tight("from_ratio_range", &r, &p, &q, n)? }
    }
    expect("from_int", &D::from_int(c[0].clone(), n), qi(&c[0]), qi(&c[0]), n)?;
    match guard(|| D::from_int_range(c[0].clone(), c[2].clone(), n)) {
        None => ck!(c[0] > c[2], "from_int_range panicked"),
        Some(r) => { ck!(c[0] <= c[2], "from_int_range accepted"); expect("from_int_range", &r, qi(&c[0]), qi(&c[2]), n)? }
    }
    match guard(|| D::new(c[0].clone(), c[2].clone(), n)) {
        None => ck!(c[0] > c[2], "new panicked"),
        Some(r) => { ck!(c[0] <= c[2], "new accepted"); expect("new", &r, Q::new(c[0].clone(), p2(n)), Q::new(c[2].clone(), p2(n)), n)? }
    }
    let f = Q::new(c[0].clone(), p2(n));
    expect("from_dyadic_fraction", &D::from_dyadic_fraction(c[0].clone(), n), f.clone(), f, n)?;
    expect("zero", &D::zero(n), Q::zero(), Q::zero(), n)?;
    expect("one", &D::one(n), Q::one(), Q::one(), n)?;
    expect("negative_one", &D::negative_one(n), -Q::one(), -Q::one(), n)
}

fn qpow(b: &Q, e: u32) -> Q {
    let mut r = Q::one();
    for _ in 0..e {
        r *= b;
    }
    r
}

fn pow(c: &[BigInt]) -> Res {
    // [lo, hi, n, e]
    let a = di(c);
    let x = v(&a);
    let e = num_traits::ToPrimitive::to_i64(&c[3]).unwrap();
    let zero = !x.lo.is_positive() && !x.hi.is_negative();
    let vars: Vec<Option<D>> = vec![
        guard(|| (&a).pow(e)),
        guard(|| a.clone().pow(e as i32)),
        guard(|| a.clone().pow(c[3].clone())),
        guard(|| (&a).pow(e as i128)),
        if e >= 0 { guard(|| (&a).pow(e as u32)) } else { guard(|| (&a).pow(e as i16)) },
    ];
    for (i, r) in vars.iter().enumerate() {
        let r = match r {
            None => {
                ck!(e < 0 && zero, "pow variant {} panicked", i);
                continue;
            }
            Some(r) => r,
        };
        ck!(!(e < 0 && zero), "pow variant {} accepted a negative power of an interval containing zero", i);
        let w = v(r);
        ck!(w.n == x.n && w.lo <= w.hi, "pow variant {} malformed: {:?}", i, r);
        let k = e.unsigned_abs() as u32;
        let f = |q: &Q| if e < 0 { qpow(q, k).recip() } else { qpow(q, k) };
        let mut pts = vec![x.lo.clone(), x.hi.clone(), (&x.lo + &x.hi) / BigInt::from(2)];
        if zero && e >= 0 {
            pts.push(Q::zero());
        }
        for p in pts {
            let y = f(&p);
            ck!(w.lo <= y && y <= w.hi, "pow variant {}: {}^{} = {} is outside {:?}", i, p, e, y, r);
        }
        // powers computed without rounding are exact
        if x.n == 0 && e >= 0 {
            let mut ends = vec![f(&x.lo), f(&x.hi)];
            if zero && e > 0 { ends.push(Q::zero()); }
            expect("pow of integers", r, min4(&ends), max4(&ends), 0)?;
        }
    }
    Ok(())
}

fn gen_pow(g: &mut G) -> Vec<BigInt> {
    let mut r = gen_d(g);
    if g.below(2) == 0 {
        r[0] = g.range(-40, 40).into();
        r[1] = &r[0] + g.range(0, 30);
        r[2] = g.below(5).into();
    }
    r.push(BigInt::from(if g.below(4) == 0 { g.range(-20, 40) } else { g.range(-6, 9) }));
    r
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { name: "interval.addsub", gen: gen_dd, run: addsub, weight: 2 },
        Check { name: "interval.mul", gen: gen_dd, run: mul, weight: 2 },
        Check { name: "interval.div", gen: gen_dd, run: div, weight: 2 },
        Check { name: "interval.recip", gen: gen_d, run: recip, weight: 1 },
        Check { name: "interval.scalar", gen: gen_dq, run: scalar, weight: 3 },
        Check { name: "interval.unary", gen: |g| { let mut r = gen_d(g); r.push(g.prec()); r.push(g.int()); r }, run: unary, weight: 3 },
        Check { name: "interval.union", gen: |g| { let mut r = gen_dd(g); if g.below(4) == 0 { for i in 0..3 { r[i + 3] = r[i].clone(); } } r }, run: union, weight: 1 },
        Check { name: "interval.ctor", gen: |g| vec![g.int(), g.pos(), g.int(), g.pos(), g.prec()], run: ctor, weight: 1 },
        Check { name: "intervalpow.pow", gen: gen_pow, run: pow, weight: 2 },
    ]
}
