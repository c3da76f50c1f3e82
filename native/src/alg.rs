//! Real algebraic numbers against independent root isolation and rational interval evaluation.
use crate::ck;
use crate::g::*;
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::polynomial::Polynomial;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use algebraics::RealAlgebraicNumber as A;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Pow, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

type Z = BigInt;
type P = Vec<Z>; // coefficients, low first, no trailing zero

fn z(v: i64) -> Z {
    v.into()
}
fn trim(mut p: P) -> P {
    while p.last().map_or(false, |c| c.is_zero()) {
        p.pop();
    }
    p
}
/// sign of p(a / 2^n)
fn sgn(p: &P, a: &Z, n: usize) -> i32 {
    let mut v = Z::zero();
    for (i, c) in p.iter().rev().enumerate() {
        v = v * a + (c << (n * i));
    }
    if v.is_positive() { 1 } else if v.is_negative() { -1 } else { 0 }
}
fn eval(p: &P, x: &Q) -> Q {
    p.iter().rev().fold(Q::zero(), |a, c| a * x + qi(c))
}
fn deriv(p: &P) -> P {
    trim(p.iter().enumerate().skip(1).map(|(i, c)| c * z(i as i64)).collect())
}
fn content(p: &P) -> Z {
    p.iter().fold(Z::zero(), |a, c| a.gcd(c))
}
/// pseudo remainder with a positive factor, divided by its content
fn prem(a: &P, b: &P) -> P {
    let mut r = a.clone();
    while r.len() >= b.len() {
        let (lr, lb) = (r.last().unwrap().clone(), b.last().unwrap().clone());
        let sh = r.len() - b.len();
        let (m, k) = if lb.is_positive() { (lb.clone(), lr) } else { (-lb.clone(), -lr) };
        for c in r.iter_mut() {
            *c *= &m;
        }
        for (i, c) in b.iter().enumerate() {
            r[i + sh] -= &k * c;
        }
        r = trim(r);
    }
    let g = content(&r);
    if !g.is_zero() {
        for c in r.iter_mut() {
            *c /= &g;
        }
    }
    r
}
fn sturm(p: &P) -> Vec<P> {
    let mut s = vec![p.clone(), deriv(p)];
    while !s.last().unwrap().is_empty() {
        let n = s.len();
        let r = prem(&s[n - 2], &s[n - 1]);
        s.push(r.into_iter().map(|c| -c).collect());
    }
    s.pop();
    s
}
fn var(s: &[P], x: &Q) -> usize {
    let mut last = 0;
    let mut n = 0;
    for p in s {
        let v = eval(p, x);
        let g = if v.is_positive() { 1 } else if v.is_negative() { -1 } else { continue };
        if last != 0 && g != last {
            n += 1;
        }
        last = g;
    }
    n
}
/// distinct roots in the closed interval
fn roots_in(p: &P, lo: &Q, hi: &Q) -> usize {
    let s = sturm(p);
    (var(&s, lo) - var(&s, hi)) + eval(p, lo).is_zero() as usize
}

/// a real number: rational enclosure that can be refined
#[derive(Clone, Debug)]
pub struct X {
    lo: Q,
    hi: Q,
}
impl X {
    fn pt(q: Q) -> X {
        X { lo: q.clone(), hi: q }
    }
}
/// the single root of p in [lo, hi] up to 2^-bits
fn refine(p: &P, lo: &Q, hi: &Q, bits: usize) -> X {
    if p.len() == 2 {
        return X::pt(Q::new(-p[0].clone(), p[1].clone()));
    }
    // the ends as dyadic fractions a/2^n, b/2^n
    let mut n = 0usize;
    while !(lo * p2(n)).is_integer() || !(hi * p2(n)).is_integer() {
        n += 1;
    }
    let (mut a, mut b) = ((lo * p2(n)).to_integer(), (hi * p2(n)).to_integer());
    let s = sgn(p, &a, n);
    while n < bits || &b - &a > z(1) {
        if n < bits {
            n += 1;
            a <<= 1usize;
            b <<= 1usize;
        }
        let m: Z = (&a + &b) >> 1usize;
        if sgn(p, &m, n) == s {
            a = m;
        } else {
            b = m;
        }
    }
    X { lo: Q::new(a, p2(n)), hi: Q::new(b, p2(n)) }
}
fn xadd(a: &X, b: &X) -> X {
    X { lo: &a.lo + &b.lo, hi: &a.hi + &b.hi }
}
fn xneg(a: &X) -> X {
    X { lo: -&a.hi, hi: -&a.lo }
}
fn xmul(a: &X, b: &X) -> X {
    let v = [&a.lo * &b.lo, &a.lo * &b.hi, &a.hi * &b.lo, &a.hi * &b.hi];
    X { lo: v.iter().min().unwrap().clone(), hi: v.iter().max().unwrap().clone() }
}
fn xrecip(a: &X) -> X {
    X { lo: a.hi.recip(), hi: a.lo.recip() }
}
fn xpoly(p: &P, x: &X) -> X {
    p.iter().rev().fold(X::pt(Q::zero()), |a, c| xadd(&xmul(&a, x), &X::pt(qi(c))))
}
fn disjoint(a: &X, b: &X) -> bool {
    a.hi < b.lo || b.hi < a.lo
}

fn pol(a: &A) -> P {
    a.minimal_polynomial().iter().collect()
}
const BITS: usize = 240;

/// the number an A denotes, after checking that it is a well formed representation
fn denote(what: &str, a: &A) -> Result<X, String> {
    let p = pol(a);
    ck!(p.len() >= 2, "{}: minimal polynomial is constant", what);
    ck!(p.last().unwrap().is_positive(), "{}: leading coefficient of the minimal polynomial {:?} is not positive", what, p);
    ck!(content(&p).is_one(), "{}: minimal polynomial {:?} is not primitive", what, p);
    let (lo, hi) = a.interval().to_ratio_range();
    ck!(lo <= hi, "{}: interval out of order", what);
    let n = roots_in(&p, &lo, &hi);
    ck!(n == 1, "{}: interval [{}, {}] holds {} roots of {:?}", what, lo, hi, n, p);
    ck!(irreducible(&p), "{}: polynomial {:?} is reducible", what, p);
    Ok(refine(&p, &lo, &hi, BITS))
}

/// irreducibility over Q: degree 1 always; otherwise no rational root, and no factor found by the resultant-free
/// test of factoring into two integer polynomials through values at small points (Kronecker, degree <= 6)
fn irreducible(p: &P) -> bool {
    let d = p.len() - 1;
    if d <= 1 {
        return true;
    }
    // irreducible modulo some small prime not dividing the leading coefficient: certainly irreducible
    for q in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if (p.last().unwrap() % q).is_zero() {
            continue;
        }
        if irr_mod(p, q) {
            return true;
        }
    }
    if d == 2 {
        let e = &p[1] * &p[1] - z(4) * &p[0] * &p[2];
        return e.is_negative() || e.sqrt().pow(2u32) != e;
    }
    // square-freeness and rational roots
    let s = sturm(p);
    if s.last().unwrap().len() > 1 {
        return false;
    }
    for r in rat_roots(p) {
        if eval(p, &r).is_zero() {
            return false;
        }
    }
    d <= 3 || quad_factor_free(p)
}
fn divisors(n: &Z) -> Option<Vec<Z>> {
    let n = n.abs().to_u64()?;
    if n > 2_000_000 {
        return None;
    }
    Some((1..=n).filter(|k| n % k == 0).map(|k| k.into()).collect())
}
fn rat_roots(p: &P) -> Vec<Q> {
    if p[0].is_zero() {
        return vec![Q::zero()];
    }
    let (Some(a), Some(b)) = (divisors(&p[0]), divisors(p.last().unwrap())) else { return vec![] };
    let mut r = vec![];
    for x in &a {
        for y in &b {
            r.push(Q::new(x.clone(), y.clone()));
            r.push(Q::new(-x.clone(), y.clone()));
        }
    }
    r
}
/// no quadratic integer factor (Kronecker on three points); true when undecided
fn quad_factor_free(p: &P) -> bool {
    let vals: Vec<Z> = [0i64, 1, -1].iter().map(|x| eval(p, &Q::from_integer(z(*x))).to_integer()).collect();
    if vals.iter().any(|v| v.is_zero()) {
        return false;
    }
    let ds: Option<Vec<Vec<Z>>> = vals.iter().map(divisors).collect();
    let Some(ds) = ds else { return true };
    if ds[0].len() * ds[1].len() * ds[2].len() > 20000 {
        return true;
    }
    for a in &ds[0] {
        for b0 in &ds[1] {
            for c0 in &ds[2] {
                for s in 0..4 {
                    let b = if s & 1 == 0 { b0.clone() } else { -b0 };
                    let c = if s & 2 == 0 { c0.clone() } else { -c0 };
                    // f(0)=a, f(1)=b, f(-1)=c
                    let t = &b + &c - a * z(2);
                    if t.is_odd() || t.is_zero() {
                        continue;
                    }
                    let q2 = t / z(2);
                    let q1 = &b - a - &q2;
                    if prem(p, &vec![a.clone(), q1, q2]).is_empty() {
                        return false;
                    }
                }
            }
        }
    }
    true
}
fn irr_mod(p: &P, q: u64) -> bool {
    // Rabin's test with machine arithmetic
    let f: Vec<u64> = p.iter().map(|c| c.mod_floor(&q.into()).to_u64().unwrap()).collect();
    let d = f.len() - 1;
    let inv = |a: u64| (1..q).find(|b| a * b % q == 1).unwrap();
    let red = |mut a: Vec<u64>| -> Vec<u64> {
        let li = inv(f[d]);
        while a.len() > d {
            let k = a[a.len() - 1] * li % q;
            let sh = a.len() - 1 - d;
            for i in 0..=d {
                a[i + sh] = (a[i + sh] + q * q - k * f[i] % q) % q;
            }
            a.pop();
        }
        while a.last() == Some(&0) {
            a.pop();
        }
        a
    };
    let mulm = |a: &Vec<u64>, b: &Vec<u64>| -> Vec<u64> {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![0; a.len() + b.len() - 1];
        for i in 0..a.len() {
            for j in 0..b.len() {
                r[i + j] = (r[i + j] + a[i] * b[j]) % q;
            }
        }
        red(r)
    };
    let powq = |a: &Vec<u64>| -> Vec<u64> {
        let mut r = vec![1];
        for _ in 0..q {
            r = mulm(&r, a);
        }
        r
    };
    let gcd_deg = |a: Vec<u64>, b: Vec<u64>| -> usize {
        let (mut a, mut b) = (a, b);
        while !b.is_empty() {
            let l = inv(*b.last().unwrap());
            while a.len() >= b.len() && !a.is_empty() {
                let k = a[a.len() - 1] * l % q;
                let sh = a.len() - b.len();
                for i in 0..b.len() {
                    a[i + sh] = (a[i + sh] + q * q - k * b[i] % q) % q;
                }
                while a.last() == Some(&0) {
                    a.pop();
                }
            }
            std::mem::swap(&mut a, &mut b);
        }
        a.len().saturating_sub(1)
    };
    let mut h = red(vec![0, 1]);
    for k in 1..=d {
        h = powq(&h);
        let mut t = h.clone();
        while t.len() < 2 {
            t.push(0);
        }
        t[1] = (t[1] + q - 1) % q;
        while t.last() == Some(&0) {
            t.pop();
        }
        if k == d {
            return t.is_empty();
        }
        if d % k == 0 && gcd_deg(f.clone(), t) > 0 {
            return false;
        }
    }
    false
}

// ---- operands: [c0, c1, c2, c3, root index, interval kind]
fn gen_op(g: &mut G, maxdeg: u64) -> Vec<Z> {
    let d = 1 + g.below(maxdeg);
    let mut c: Vec<Z> = (0..4).map(|i| if i as u64 <= d { z(g.range(-6, 6)) } else { z(0) }).collect();
    match g.below(6) {
        0 if d >= 2 => {
            // (x - k)^d near a power: roots close to an integer or a power of two
            let k = z(g.range(-9, 9));
            c = if d == 2 { vec![&k * &k - g.range(-1, 1), -&k * 2, z(1), z(0)] } else { vec![-(&k * &k * &k) + g.range(-1, 1), z(0), z(0), z(1)] };
        }
        1 if d == 2 => {
            // large conjugates close together
            let k = z(g.range(-2000, 2000));
            c = vec![&k * &k - g.range(2, 5), -&k * 2, z(1), z(0)];
        }
        2 => {
            c[0] = z(g.range(-40, 40));
        }
        3 if d == 1 => {
            c[0] = g.int();
            c[1] = g.pos();
        }
        _ => {}
    }
    c.push(z(g.below(3) as i64));
    c.push(z(g.below(7) as i64));
    c
}

/// a valid operand (None when the case denotes none), with its enclosure
fn operand(c: &[Z]) -> Option<(A, X)> {
    let mut p = trim(c[..4].to_vec());
    if p.len() < 2 {
        return None;
    }
    let g = content(&p);
    for x in p.iter_mut() {
        *x /= &g;
    }
    if p.last().unwrap().is_negative() {
        for x in p.iter_mut() {
            *x = -x.clone();
        }
    }
    if p.len() == 3 {
        let d = &p[1] * &p[1] - z(4) * &p[0] * &p[2];
        if d.is_negative() || d.sqrt().pow(2u32) == d {
            return None;
        }
    } else if p.len() > 2 && (p[0].is_zero() || rat_roots(&p).iter().any(|r| eval(&p, r).is_zero())) {
        return None;
    }
    let bound: Q = Q::from_integer(p.iter().map(|x| x.abs()).max().unwrap() + 2);
    let s = sturm(&p);
    let total = var(&s, &-&bound) - var(&s, &bound);
    let k = us(&c[4]);
    if total == 0 {
        return None;
    }
    let k = k % total;
    // isolate the k-th root from below
    let (mut lo, mut hi) = (-&bound, bound.clone());
    let vlo = var(&s, &lo);
    let below = |x: &Q| vlo - var(&s, x);
    while !(below(&lo) == k && below(&hi) == k + 1) {
        let m = (&lo + &hi) / z(2);
        if below(&m) <= k {
            lo = m;
        } else {
            hi = m;
        }
    }
    let x = refine(&p, &lo, &hi, BITS);
    // the coarsest dyadic interval of the asked shape that isolates the root
    let kind = us(&c[5]);
    let mut n = [0usize, 0, 1, 3, 12, 40, 0][kind];
    loop {
        let (mut a, mut b) = (floor(&(&x.lo * p2(n))), ceil(&(&x.hi * p2(n))));
        if kind == 1 || kind == 6 {
            // as wide as isolation allows (up to 40 units)
            for _ in 0..40 {
                if roots_in(&p, &Q::new(&a - 1, p2(n)), &Q::new(b.clone(), p2(n))) == 1 {
                    a -= 1;
                }
                if kind == 6 && roots_in(&p, &Q::new(a.clone(), p2(n)), &Q::new(&b + 1, p2(n))) == 1 {
                    b += 1;
                }
            }
        }
        let (l, h) = (Q::new(a.clone(), p2(n)), Q::new(b.clone(), p2(n)));
        if roots_in(&p, &l, &h) == 1 {
            let poly: Polynomial<BigInt> = p.clone().into();
            return Some((A::new_unchecked(poly, D::new(a, b, n)), x));
        }
        n += 1;
    }
}

/// r must denote exactly the number enclosed by t
fn exact(what: &str, r: &A, t: &X) -> Res {
    let x = denote(what, r)?;
    ck!(!disjoint(&x, t), "{}: result is about {} but the exact value is about {}", what, f(&x), f(t));
    let v = xpoly(&pol(r), t);
    ck!(!v.lo.is_positive() && !v.hi.is_negative(), "{}: exact value is not a root of the result's polynomial {:?}", what, pol(r));
    Ok(())
}
fn f(x: &X) -> String {
    let m = (&x.lo + &x.hi) / z(2);
    let s = (m * z(1_000_000_000)).to_integer();
    format!("{}e-9", s)
}

fn gen2(g: &mut G) -> Vec<Z> {
    let (a, b) = match g.below(5) { 0 => (1, 3), 1 => (3, 1), 2 => (2, 3), 3 => (1, 1), _ => (2, 2) };
    let mut r = gen_op(g, a);
    let mut s = gen_op(g, b);
    match g.below(5) {
        0 => s[..4].clone_from_slice(&r[..4]),          // same polynomial: conjugates or equal
        1 => for i in 0..4 { s[i] = if i % 2 == 0 { r[i].clone() } else { -r[i].clone() } }, // negated roots
        _ => {}
    }
    if s.len() != 6 { s.truncate(6); }
    r.extend(s);
    r
}

macro_rules! forms {
    ($what:expr, $a:expr, $b:expr, $op:ident, $opa:ident) => {{
        let r = (&$a).$op(&$b);
        let same = |x: &A| x.data() == r.data();
        let mut y = $a.clone();
        y.$opa(&$b);
        let mut w = $a.clone();
        w.$opa($b.clone());
        ck!(same(&$a.clone().$op($b.clone())) && same(&$a.clone().$op(&$b)) && same(&(&$a).$op($b.clone())) && same(&y) && same(&w), "{}: call forms disagree", $what);
        r
    }};
}
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign};

fn addsub(c: &[Z]) -> Res {
    let (Some((a, x)), Some((b, y))) = (operand(c), operand(&c[6..])) else { return Ok(()) };
    exact("add", &forms!("add", a, b, add, add_assign), &xadd(&x, &y))?;
    exact("abs_sub", &a.abs_sub(&b), &if x.lo > y.hi { xadd(&x, &xneg(&y)) } else { X::pt(Q::zero()) })?;
    exact("sub", &forms!("sub", a, b, sub, sub_assign), &xadd(&x, &xneg(&y)))
}
fn neg(c: &[Z]) -> Res {
    let Some((a, x)) = operand(c) else { return Ok(()) };
    let sg = if x.lo.is_positive() { 1 } else if x.hi.is_negative() { -1 } else { 0 };
    exact("signum", &a.signum(), &X::pt(Q::from_integer(z(sg))))?;
    exact("neg", &(-&a), &xneg(&x))?;
    ck!(a.clone().neg().data() == (-&a).data(), "neg: call forms disagree");
    exact("abs", &a.abs(), &if x.hi.is_negative() { xneg(&x) } else { x.clone() })
}
fn mul(c: &[Z]) -> Res {
    let (Some((a, x)), Some((b, y))) = (operand(c), operand(&c[6..])) else { return Ok(()) };
    exact("mul", &forms!("mul", a, b, mul, mul_assign), &xmul(&x, &y))
}
fn div(c: &[Z]) -> Res {
    let (Some((a, x)), Some((b, y))) = (operand(c), operand(&c[6..])) else { return Ok(()) };
    let zero = y.lo.is_zero() && y.hi.is_zero();
    if zero {
        ck!(guard(|| &a / &b).is_none(), "division by zero did not panic");
        ck!((&a).checked_exact_div(&b).is_none(), "checked division by zero succeeded");
        let mut w = a.clone();
        ck!(w.checked_exact_div_assign(&b).is_err(), "checked assigning division by zero succeeded");
        ck!(b.checked_recip().is_none(), "checked_recip of zero succeeded");
        return Ok(());
    }
    let t = xmul(&x, &xrecip(&y));
    let fl = floor(&t.lo);
    let whole = t.lo.is_integer() && t.lo == t.hi;
    if fl == floor(&t.hi) && a.degree() * b.degree() <= 2 {
        // the quotient truncated
        let q = if t.hi.is_negative() && !whole { fl + 1 } else { fl };
        exact("rem", &forms!("rem", a, b, rem, rem_assign), &xadd(&x, &xneg(&xmul(&X::pt(Q::from_integer(q)), &y))))?;
    }
    exact("recip", &b.recip(), &xrecip(&y))?;
    exact("div", &forms!("div", a, b, div, div_assign), &t)?;
    match (&a).checked_exact_div(&b) {
        Some(r) => exact("checked_exact_div", &r, &t),
        None => Err("checked_exact_div failed for a nonzero divisor".into()),
    }
}

fn ord(x: &X, y: &X, same: bool) -> Ordering {
    if same {
        Ordering::Equal
    } else if x.hi < y.lo {
        Ordering::Less
    } else if y.hi < x.lo {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
fn cmp(c: &[Z]) -> Res {
    let (Some((a, x)), Some((b, y))) = (operand(c), operand(&c[6..])) else { return Ok(()) };
    let want = ord(&x, &y, false);
    ck!(a.cmp(&b) == want, "cmp gives {:?}, numbers are {:?} ({} vs {})", a.cmp(&b), want, f(&x), f(&y));
    ck!(b.cmp(&a) == want.reverse(), "cmp is not antisymmetric");
    ck!((a == b) == (want == Ordering::Equal), "== disagrees with the numbers");
    ck!(a.partial_cmp(&b) == Some(want) && (a < b) == (want == Ordering::Less) && (a <= b) == (want != Ordering::Greater), "partial order disagrees");
    let zw = ord(&x, &X::pt(Q::zero()), false);
    ck!(a.cmp_with_zero() == zw, "cmp_with_zero gives {:?} for {}", a.cmp_with_zero(), f(&x));
    ck!(a.is_positive() == (zw == Ordering::Greater) && a.is_negative() == (zw == Ordering::Less) && a.is_zero() == (zw == Ordering::Equal), "sign predicates disagree");
    ck!(a.cmp(&a.clone()) == Ordering::Equal, "a number is not equal to itself");
    // an expression with the same value
    let e = (&a + &b) - &b;
    ck!(e == a && e.cmp(&a) == Ordering::Equal, "(a+b)-b is not equal to a");
    ck!(e.cmp(&b) == want, "(a+b)-b compares differently from a");
    Ok(())
}
fn round(c: &[Z]) -> Res {
    let Some((a, x)) = operand(c) else { return Ok(()) };
    let fl = floor(&x.lo);
    ck!(fl == floor(&x.hi), "oracle precision");
    let isint = a.degree() == 1 && x.lo.is_integer();
    let ce: Z = if isint { fl.clone() } else { &fl + 1 };
    let neg = x.hi.is_negative();
    let tr = if neg { ce.clone() } else { fl.clone() };
    let i = |v: &A| v.to_integer();
    ck!(a.to_integer_floor() == fl && a.clone().into_integer_floor() == fl && i(&a.floor()) == Some(fl.clone()) && i(&a.clone().into_floor()) == Some(fl.clone()), "floor of {} is {}", f(&x), a.to_integer_floor());
    ck!(a.to_integer_ceil() == ce && a.clone().into_integer_ceil() == ce && i(&a.ceil()) == Some(ce.clone()) && i(&a.clone().into_ceil()) == Some(ce.clone()), "ceil of {} is {}", f(&x), a.to_integer_ceil());
    ck!(a.to_integer_trunc() == tr && a.clone().into_integer_trunc() == tr && i(&a.trunc()) == Some(tr.clone()) && i(&a.clone().into_trunc()) == Some(tr.clone()), "trunc of {} is {}", f(&x), a.to_integer_trunc());
    let t = xadd(&x, &X::pt(-qi(&fl)));
    exact("fract", &a.fract(), &t)?;
    exact("into_fract", &a.clone().into_fract(), &t)?;
    ck!(a.is_integer() == isint && a.is_rational() == (a.degree() == 1), "integrality/rationality wrong");
    ck!(a.to_rational() == if a.degree() == 1 { Some(x.lo.clone()) } else { None }, "to_rational wrong");
    ck!(a.to_integer() == if isint { Some(fl) } else { None }, "to_integer wrong");
    Ok(())
}
fn log2(c: &[Z]) -> Res {
    let Some((a, x)) = operand(c) else { return Ok(()) };
    let (fl, ce, ex) = (a.checked_floor_log2(), a.checked_ceil_log2(), a.to_integer_log2());
    ck!(fl == a.clone().into_checked_floor_log2() && ce == a.clone().into_checked_ceil_log2(), "log2 call forms disagree");
    if !x.lo.is_positive() {
        ck!(fl.is_none() && ce.is_none() && ex.is_none(), "log2 of a non-positive number succeeded");
        return Ok(());
    }
    let pw = |e: i64| if e >= 0 { Q::from_integer(p2(e as usize)) } else { Q::new(Z::one(), p2(-e as usize)) };
    let Some(e) = fl else { return Err("floor_log2 of a positive number failed".into()) };
    let Some(u) = ce else { return Err("ceil_log2 of a positive number failed".into()) };
    ck!(pw(e) <= x.lo && x.hi < pw(e + 1), "floor_log2 of {} is {}", f(&x), e);
    ck!(pw(u) >= x.hi && x.lo > pw(u - 1), "ceil_log2 of {} is {}", f(&x), u);
    ck!(ex == if e == u { Some(e) } else { None }, "to_integer_log2 of {} is {:?}", f(&x), ex);
    Ok(())
}
fn gen_round(g: &mut G) -> Vec<Z> {
    if g.below(4) == 0 {
        let mut c = vec![g.int(), z(1), z(0), z(0), z(0), z(g.below(7) as i64)];
        if g.below(2) == 0 {
            c[1] = p2(g.below(6) as usize);
        }
        return c;
    }
    gen_op(g, 3)
}
fn gen_pow(g: &mut G) -> Vec<Z> {
    let deg = [1, 1, 2, 3][g.below(4) as usize];
    let mut c = gen_op(g, deg);
    if g.below(8) == 0 {
        c[..4].clone_from_slice(&[z(g.range(-1, 1)), z(1), z(0), z(0)]);
    }
    if c[2].is_zero() && c[3].is_zero() && c[0].bits() > 20 {
        c[0] = z(g.range(-60, 60));
        c[1] = z(g.range(1, 9));
    }
    c.push(z(g.range(-4, 4)));
    c.push(z(g.range(1, 3)));
    c
}
/// enclosure of the q-th root of a positive enclosure
fn xroot(x: &X, q: u32) -> X {
    let k = 200usize;
    let root = |v: &Q, up: bool| -> Q {
        let n = v * p2(k * q as usize);
        let mut r = floor(&n).nth_root(q);
        if up {
            r += 1;
        }
        Q::new(r, p2(k))
    };
    X { lo: root(&x.lo, false), hi: root(&x.hi, true) }
}
fn pow(c: &[Z]) -> Res {
    let Some((a, x)) = operand(c) else { return Ok(()) };
    let (n, d) = (c[6].to_i64().unwrap(), c[7].to_i64().unwrap());
    let e = num_rational::Ratio::new(n, d);
    let zero = x.lo.is_zero() && x.hi.is_zero();
    let r = a.checked_pow((n, d));
    let same = |q: Option<A>| match (&q, &r) { (Some(x), Some(y)) => x.data() == y.data(), (None, None) => true, _ => false };
    ck!(same(a.clone().checked_into_pow((n, d))) && same(guard(|| (&a).pow((n, d)))) && same(guard(|| a.clone().pow((n, d)))), "pow call forms disagree");
    if e.is_integer() {
        ck!(same(a.checked_pow(e.to_integer())), "integer and fractional exponents disagree");
    }
    let exists = if zero { e.is_positive() } else { x.lo.is_positive() || e.is_integer() };
    ck!(r.is_some() == exists, "pow {}/{} of {}: {}", n, d, f(&x), if exists { "failed" } else { "succeeded" });
    let Some(r) = r else { return Ok(()) };
    if zero {
        return exact("pow", &r, &x);
    }
    let (en, ed) = (*e.numer(), *e.denom() as u32);
    let mut t = X::pt(Q::one());
    for _ in 0..en.abs() {
        t = xmul(&t, &x);
    }
    if en < 0 {
        t = xrecip(&t);
    }
    if ed > 1 {
        t = xroot(&t, ed);
    }
    exact("pow", &r, &t)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { name: "algarith.addsub", gen: gen2, run: addsub, weight: 3 },
        Check { name: "algarith.mul", gen: gen2, run: mul, weight: 2 },
        Check { name: "algarith.div", gen: gen2, run: div, weight: 3 },
        Check { name: "algarith.neg", gen: |g| gen_op(g, 3), run: neg, weight: 1 },
        Check { name: "algcmp.cmp", gen: gen2, run: cmp, weight: 2 },
        Check { name: "alground.round", gen: gen_round, run: round, weight: 2 },
        Check { name: "alground.log2", gen: gen_round, run: log2, weight: 2 },
        Check { name: "algpow.pow", gen: gen_pow, run: pow, weight: 2 },
    ]
}
