//! polynomials against a schoolbook reference over rationals (optionally reduced by a modulus)
use crate::ck;
use crate::g::*;
use algebraics::mod_int::{KnownPrime, ModularInteger};
use algebraics::polynomial::{Polynomial, PolynomialCoefficient};
use algebraics::traits::*;
use num_bigint::BigInt;
use num_integer::Integer;
use std::borrow::Cow;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedRem, CheckedSub, One, Pow, Signed, ToPrimitive, Zero};

type Z = BigInt;
pub type MZ = ModularInteger<BigInt, BigInt>;
pub type MP = ModularInteger<i64, KnownPrime<i64>>;

/// reference coefficient ring: Q, or Z/m with representatives 0..m as Q
#[derive(Clone, Debug)]
pub struct Ring {
    pub m: Option<Z>,
}
pub type P = Vec<Q>;

impl Ring {
    pub fn n(&self, q: Q) -> Q {
        match &self.m {
            None => q,
            Some(m) => {
                let inv = inv_mod(q.denom(), m);
                Q::from_integer((q.numer() * inv).mod_floor(m))
            }
        }
    }
    pub fn trim(&self, mut p: P) -> P {
        for x in p.iter_mut() {
            *x = self.n(std::mem::replace(x, Q::zero()));
        }
        while p.last().map_or(false, |x| x.is_zero()) {
            p.pop();
        }
        p
    }
    pub fn add(&self, a: &P, b: &P) -> P {
        let l = a.len().max(b.len());
        self.trim((0..l).map(|i| a.get(i).cloned().unwrap_or(Q::zero()) + b.get(i).cloned().unwrap_or(Q::zero())).collect())
    }
    pub fn sub(&self, a: &P, b: &P) -> P {
        self.add(a, &self.scale(b, &-Q::one()))
    }
    pub fn scale(&self, a: &P, k: &Q) -> P {
        self.trim(a.iter().map(|x| x * k).collect())
    }
    pub fn mul(&self, a: &P, b: &P) -> P {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![Q::zero(); a.len() + b.len() - 1];
        for i in 0..a.len() {
            for j in 0..b.len() {
                r[i + j] += &a[i] * &b[j];
            }
        }
        self.trim(r)
    }
    pub fn pow(&self, a: &P, e: usize) -> P {
        let mut r = self.trim(vec![Q::one()]);
        for _ in 0..e {
            r = self.mul(&r, a);
        }
        r
    }
    pub fn inv(&self, q: &Q) -> Q {
        self.n(q.recip())
    }
    pub fn divrem(&self, a: &P, b: &P) -> (P, P) {
        let mut r = a.clone();
        let mut q = vec![Q::zero(); (a.len() + 1).saturating_sub(b.len())];
        let li = self.inv(b.last().unwrap());
        while r.len() >= b.len() {
            let k = r.len() - b.len();
            let c = self.n(r.last().unwrap() * &li);
            q[k] = c.clone();
            let mut t = vec![Q::zero(); k];
            t.extend(self.scale(b, &c));
            let before = r.len();
            r = self.sub(&r, &t);
            assert!(r.len() < before);
        }
        (self.trim(q), r)
    }
    pub fn monic(&self, a: &P) -> P {
        match a.last() {
            None => vec![],
            Some(l) => self.scale(a, &self.inv(l)),
        }
    }
    pub fn gcd(&self, a: &P, b: &P) -> P {
        let (mut a, mut b) = (a.clone(), b.clone());
        while !b.is_empty() {
            let r = self.divrem(&a, &b).1;
            a = b;
            b = r;
        }
        self.monic(&a)
    }
    pub fn eval(&self, a: &P, x: &Q) -> Q {
        let mut r = Q::zero();
        for c in a.iter().rev() {
            r = self.n(r * x + c);
        }
        r
    }
    pub fn deriv(&self, a: &P) -> P {
        self.trim(a.iter().enumerate().skip(1).map(|(i, c)| c * Q::from_integer(Z::from(i))).collect())
    }
    /// determinant of the Sylvester matrix
    pub fn resultant(&self, a: &P, b: &P) -> Q {
        if a.is_empty() || b.is_empty() {
            return Q::zero();
        }
        let (m, n) = (a.len() - 1, b.len() - 1);
        let s = m + n;
        let mut mat = vec![vec![Q::zero(); s]; s];
        for i in 0..n {
            for (j, c) in a.iter().rev().enumerate() {
                mat[i][i + j] = c.clone();
            }
        }
        for i in 0..m {
            for (j, c) in b.iter().rev().enumerate() {
                mat[n + i][i + j] = c.clone();
            }
        }
        let mut det = Q::one();
        for c in 0..s {
            let p = match (c..s).find(|&r| !mat[r][c].is_zero()) {
                None => return Q::zero(),
                Some(p) => p,
            };
            if p != c {
                mat.swap(p, c);
                det = -det;
            }
            det = self.n(det * &mat[c][c]);
            let inv = self.inv(&mat[c][c]);
            for r in c + 1..s {
                if mat[r][c].is_zero() {
                    continue;
                }
                let f = self.n(&mat[r][c] * &inv);
                for k in c..s {
                    let t = &mat[c][k] * &f;
                    let v = &mat[r][k] - t;
                    mat[r][k] = self.n(v);
                }
            }
        }
        self.n(det)
    }
}

fn inv_mod(a: &Z, m: &Z) -> Z {
    if a.is_one() || m.is_one() {
        return Z::one();
    }
    let e = Integer::extended_gcd(a, m);
    assert!(num_traits::One::is_one(&e.gcd));
    e.x.mod_floor(m)
}

pub trait K: PolynomialCoefficient + 'static {
    fn of(q: &Q, r: &Ring) -> Self;
    fn q(&self) -> Q;
    fn machine() -> bool { false }
}
impl K for Z {
    fn of(q: &Q, _: &Ring) -> Self { q.to_integer() }
    fn q(&self) -> Q { qi(self) }
}
impl K for i64 {
    fn of(q: &Q, _: &Ring) -> Self { q.to_integer().to_i64().unwrap() }
    fn q(&self) -> Q { Q::from_integer((*self).into()) }
    fn machine() -> bool { true }
}
impl K for Q {
    fn of(q: &Q, _: &Ring) -> Self { q.clone() }
    fn q(&self) -> Q { self.clone() }
}
impl K for MZ {
    fn of(q: &Q, r: &Ring) -> Self { ModularInteger::new(q.to_integer(), r.m.clone().unwrap()) }
    fn q(&self) -> Q { qi(self.value()) }
}
impl K for MP {
    fn of(q: &Q, r: &Ring) -> Self { ModularInteger::new(q.to_integer().to_i64().unwrap(), KnownPrime::new_unsafe(r.m.clone().unwrap().to_i64().unwrap())) }
    fn q(&self) -> Q { Q::from_integer((*self.value()).into()) }
}

fn mk<T: K>(p: &P, r: &Ring) -> Polynomial<T> {
    p.iter().map(|c| T::of(c, r)).collect::<Vec<T>>().into()
}
fn view<T: K>(p: &Polynomial<T>) -> P {
    p.iter().map(|c| c.q()).collect()
}
/// the polynomial is exactly `want` and in normal form (equal in representation to one built from coefficients)
fn is<T: K>(what: &str, p: &Polynomial<T>, want: &P, r: &Ring) -> Res {
    let v = view(p);
    ck!(&v == want, "{}: coefficients {} instead of {}", what, show(&v), show(want));
    ck!(p == &mk::<T>(want, r), "{}: right coefficients {} but not in normal form: {:?}", what, show(&v), p);
    ck!(p.len() == want.len() && p.is_empty() == want.is_empty() && p.degree() == want.len().checked_sub(1), "{}: len/degree inconsistent", what);
    Ok(())
}
fn show(p: &P) -> String {
    format!("[{}]", p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}

/// case layout: kind, modulus, then polynomials as (len, numer, denom, ...)*
fn put(c: &mut Vec<Z>, p: &P) {
    c.push(p.len().into());
    for x in p {
        c.push(x.numer().clone());
        c.push(x.denom().clone());
    }
}
fn take(c: &[Z], i: &mut usize, r: &Ring) -> P {
    let n = us(&c[*i]);
    *i += 1;
    let mut p = vec![];
    for _ in 0..n {
        p.push(Q::new(c[*i].clone(), c[*i + 1].clone()));
        *i += 2;
    }
    r.trim(p)
}

const PRIMES: [i64; 12] = [2, 3, 5, 7, 11, 13, 17, 101, 251, 65521, 2147483647, 4294967291];

fn coef(g: &mut G, kind: u64) -> Q {
    let n = if kind == 4 { Z::from(g.range(-50, 50)) } else if kind == 3 || g.below(4) > 0 { Z::from(g.range(-6, 6)) } else { g.int() };
    let d = if kind == 1 && g.below(2) == 0 { Z::from(g.range(1, 8)) } else { Z::one() };
    Q::new(n, d)
}
fn poly(g: &mut G, kind: u64, max: u64) -> P {
    let n = g.below(max + 1);
    let mut p: P = (0..n).map(|_| coef(g, kind)).collect();
    if g.below(4) == 0 {
        for x in p.iter_mut() {
            if g.below(2) == 0 {
                *x = Q::zero();
            }
        }
    }
    if kind == 1 && g.below(3) == 0 {
        // a common denominator, to exercise the shared divisor
        let d = Z::from(g.range(1, 12));
        for x in p.iter_mut() {
            *x = Q::new(x.numer().clone(), d.clone());
        }
    }
    p
}
/// kinds: 0 BigInt, 1 Ratio, 2 ModularInteger<BigInt, BigInt> (any modulus), 3 ModularInteger<i64, KnownPrime>, 4 i64
fn head(g: &mut G, kinds: &[u64]) -> (Vec<Z>, u64, Ring) {
    let kind = kinds[g.below(kinds.len() as u64) as usize];
    let m: Z = match kind {
        2 => if g.below(3) == 0 { g.pos() + 1 } else { Z::from(g.range(2, 12)) },
        3 => PRIMES[g.below(12) as usize].into(),
        _ => Z::zero(),
    };
    let r = ring_of(kind, &m);
    (vec![kind.into(), m], kind, r)
}
fn ring_of(kind: u64, m: &Z) -> Ring {
    Ring { m: if kind == 2 || kind == 3 { Some(m.clone()) } else { None } }
}

fn gen_ring(g: &mut G) -> Vec<Z> {
    let (mut c, kind, _) = head(g, &[0, 1, 1, 1, 2, 3, 4]);
    let a = poly(g, kind, 6);
    let mut b = poly(g, kind, 6);
    match g.below(6) {
        0 => {
            // leading terms cancel in a + b or a - b
            b = a.clone();
            if g.below(2) == 0 {
                for x in b.iter_mut() { *x = -x.clone(); }
            }
            let k = g.below(b.len() as u64 + 1) as usize;
            for x in b.iter_mut().take(k) { *x = coef(g, kind); }
        }
        _ => (),
    }
    put(&mut c, &a);
    put(&mut c, &b);
    put(&mut c, &vec![coef(g, kind)]);
    c.push(g.below(5).into());
    c
}

macro_rules! forms {
    ($what:expr, $a:expr, $b:expr, $op:ident, $opa:ident, $want:expr, $r:expr) => {{
        is($what, &(&$a).$op(&$b), $want, $r)?;
        is($what, &(&$a).$op($b.clone()), $want, $r)?;
        is($what, &$a.clone().$op(&$b), $want, $r)?;
        is($what, &$a.clone().$op($b.clone()), $want, $r)?;
        let mut t = $a.clone();
        t.$opa(&$b);
        is($what, &t, $want, $r)?;
        let mut t = $a.clone();
        t.$opa($b.clone());
        is($what, &t, $want, $r)?;
    }};
}

use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign};

/// the coefficient helpers the polynomial algorithms are built from
fn helpers<T: K>(t: &T, e: usize, r: &Ring) -> Res {
    let k = t.q();
    let mut pw = r.n(Q::one());
    for _ in 0..e { pw = r.n(pw * &k); }
    let (el, dv) = T::coefficient_to_element(Cow::Borrowed(t));
    let back = |el: T::Element, dv: T::Divisor| T::make_coefficient(Cow::Owned(el), Cow::Owned(dv)).q();
    ck!(back(el.clone(), dv.clone()) == k, "coefficient_to_element / make_coefficient of {}", k);
    if e > 0 || !k.is_zero() {
        ck!(T::coefficient_pow_usize(t.clone(), e).q() == pw, "coefficient_pow_usize({}, {})", k, e);
        let x = back(T::element_pow_usize(el.clone(), e), T::divisor_pow_usize(dv.clone(), e));
        ck!(x == pw, "element_pow_usize / divisor_pow_usize of {} to {}: {}", k, e, x);
    }
    let (z, o) = (Q::zero(), r.n(Q::one()));
    ck!(T::is_element_zero(&T::make_zero_element(Cow::Owned(el.clone()))) && T::is_element_zero(&T::make_zero_element(Cow::Borrowed(&el))), "make_zero_element");
    ck!(T::is_element_one(&T::make_one_element(Cow::Owned(el.clone()))) && T::is_element_one(&T::make_one_element(Cow::Borrowed(&el))), "make_one_element");
    ck!(T::make_zero_coefficient_from_element(Cow::Owned(el.clone())).q() == z && T::make_zero_coefficient_from_element(Cow::Borrowed(&el)).q() == z, "make_zero_coefficient_from_element");
    ck!(T::make_one_coefficient_from_element(Cow::Owned(el.clone())).q() == o && T::make_one_coefficient_from_element(Cow::Borrowed(&el)).q() == o, "make_one_coefficient_from_element");
    ck!(T::make_zero_coefficient_from_coefficient(Cow::Owned(t.clone())).q() == z && T::make_zero_coefficient_from_coefficient(Cow::Borrowed(t)).q() == z, "make_zero_coefficient_from_coefficient");
    ck!(T::make_one_coefficient_from_coefficient(Cow::Owned(t.clone())).q() == o && T::make_one_coefficient_from_coefficient(Cow::Borrowed(t)).q() == o, "make_one_coefficient_from_coefficient");
    ck!(T::is_coefficient_zero(t) == k.is_zero() && T::is_coefficient_one(t) == (k == o) && T::is_element_zero(&el) == k.is_zero(), "is_coefficient_zero / one");
    let mut x = el.clone();
    T::negate_element(&mut x);
    ck!(back(x, dv.clone()) == r.n(-k.clone()), "negate_element");
    if !T::machine() {
        let m = r.n(&k * Q::from_integer(e.into()));
        let mut x = el.clone();
        T::mul_assign_element_by_usize(&mut x, e);
        ck!(back(x, dv.clone()) == m && back(T::mul_element_by_usize(Cow::Borrowed(&el), e), dv.clone()) == m && back(T::mul_element_by_usize(Cow::Owned(el), e), dv) == m, "mul_element_by_usize");
    }
    Ok(())
}

fn ring<T: K>(a: &P, b: &P, k: &Q, e: usize, r: &Ring) -> Res {
    let (x, y, t) = (mk::<T>(a, r), mk::<T>(b, r), T::of(k, r));
    is("from", &x, a, r)?;
    is("from", &y, b, r)?;
    let sum = r.add(a, b);
    let dif = r.sub(a, b);
    let prod = r.mul(a, b);
    forms!("add", x, y, add, add_assign, &sum, r);
    forms!("sub", x, y, sub, sub_assign, &dif, r);
    forms!("mul", x, y, mul, mul_assign, &prod, r);
    is("checked_add", &x.checked_add(&y).ok_or("checked_add")?, &sum, r)?;
    is("checked_sub", &x.checked_sub(&y).ok_or("checked_sub")?, &dif, r)?;
    is("checked_mul", &x.checked_mul(&y).ok_or("checked_mul")?, &prod, r)?;
    let kp = r.trim(vec![k.clone()]);
    forms!("add scalar", x, t, add, add_assign, &r.add(a, &kp), r);
    forms!("sub scalar", x, t, sub, sub_assign, &r.sub(a, &kp), r);
    forms!("mul scalar", x, t, mul, mul_assign, &r.mul(a, &kp), r);
    let neg = r.scale(a, &-Q::one());
    is("neg", &(&x).neg(), &neg, r)?;
    is("neg", &x.clone().neg(), &neg, r)?;
    let mut z = x.clone();
    z.negate();
    is("negate", &z, &neg, r)?;
    let d = r.deriv(a);
    is("derivative", &x.derivative(), &d, r)?;
    is("into_derivative", &x.clone().into_derivative(), &d, r)?;
    let v = r.eval(a, &r.n(k.clone()));
    ck!(x.eval(&t).q() == v && x.clone().into_eval(&t).q() == v, "eval({}) = {} instead of {}", k, x.eval(&t).q(), v);
    if !a.is_empty() || e > 0 {
        let p = r.pow(a, e);
        if r.m.as_ref().map_or(true, |m| !m.is_one()) {
            is("pow", &(&x).pow(e), &p, r)?;
            is("pow", &x.clone().pow(e), &p, r)?;
        }
    }
    helpers::<T>(&t, e, r)?;
    let kn = r.n(k.clone());
    let mut mono = vec![Q::zero(); e];
    mono.push(kn.clone());
    is("make_monomial", &Polynomial::make_monomial(t.clone(), e), &r.trim(mono), r)?;
    is("from scalar", &Polynomial::from(t.clone()), &kp, r)?;
    is("from scalar ref", &Polynomial::from(&t), &kp, r)?;
    for i in 0..a.len() + 2 {
        ck!(x.nonzero_coefficient(i).map(|c| c.q()) == a.get(i).cloned(), "nonzero_coefficient({})", i);
    }
    ck!(x.nonzero_highest_power_coefficient().map(|c| c.q()) == a.last().cloned(), "nonzero_highest_power_coefficient");
    ck!(x.clone().into_coefficients().iter().map(|c| c.q()).collect::<P>() == *a, "into_coefficients");
    ck!(x.iter().rev().map(|c| c.q()).collect::<P>() == a.iter().rev().cloned().collect::<P>(), "iter().rev()");
    ck!(x.clone().into_iter().map(|c| c.q()).collect::<P>() == *a, "into_iter()");
    ck!(x.clone().into_iter().rev().map(|c| c.q()).collect::<P>() == a.iter().rev().cloned().collect::<P>(), "into_iter().rev()");
    let (el, dv) = x.clone().split_out_divisor();
    is("split_out_divisor", &Polynomial::<T>::from((el, dv)), a, r)?;
    // trailing zeros and scaled representations are normalised away
    let mut coefs: Vec<T> = a.iter().map(|c| T::of(c, r)).collect();
    for _ in 0..e { coefs.push(T::of(&Q::zero(), r)); }
    is("from slice", &Polynomial::from(&coefs[..]), a, r)?;
    is("from vec", &Polynomial::from(coefs.clone()), a, r)?;
    is("collect", &coefs.into_iter().collect::<Polynomial<T>>(), a, r)?;
    ck!((x == y) == (a == b), "equality of {} and {}", show(a), show(b));
    ck!(x.is_zero() == a.is_empty(), "is_zero");
    let mut z = x.clone();
    z.set_zero();
    is("set_zero", &z, &vec![], r)?;
    ck!(Polynomial::is_one(&x) == (a.len() == 1 && a[0].is_one()), "is_one");
    match x.to_one_if_nonzero() {
        None => ck!(a.is_empty(), "to_one_if_nonzero"),
        Some(o) => { ck!(!a.is_empty(), "to_one_if_nonzero"); is("to_one_if_nonzero", &o, &vec![Q::one()], r)?; }
    }
    Ok(())
}

fn run_ring(c: &[Z]) -> Res {
    let kind = c[0].to_u64().unwrap();
    let r = ring_of(kind, &c[1]);
    let mut i = 2;
    let (a, b, k) = (take(c, &mut i, &r), take(c, &mut i, &r), take(c, &mut i, &r));
    let k = k.get(0).cloned().unwrap_or(Q::zero());
    let e = us(&c[i]);
    match kind {
        0 => ring::<Z>(&a, &b, &k, e, &r),
        1 => ring::<Q>(&a, &b, &k, e, &r),
        2 => ring::<MZ>(&a, &b, &k, e, &r),
        3 => ring::<MP>(&a, &b, &k, e, &r),
        _ => ring::<i64>(&a, &b, &k, e.min(3), &r),
    }
}

// ---- content, primitive part, norms ----
fn gen_content(g: &mut G) -> Vec<Z> {
    let (mut c, kind, _) = head(g, &[0, 1]);
    let mut a = poly(g, kind, 6);
    if g.below(2) == 0 {
        let k = coef(g, kind);
        for x in a.iter_mut() { *x = &*x * &k; }
    }
    put(&mut c, &a);
    c
}
fn qgcd(a: &Q, b: &Q) -> Q {
    if a.is_zero() { return b.abs(); }
    if b.is_zero() { return a.abs(); }
    Q::new(Integer::gcd(&(a.numer() * b.denom()), &(b.numer() * a.denom())), a.denom() * b.denom())
}
fn content<T: K + GCD<Output = T> + PartialOrd + Ord + Zero + for<'a> ExactDiv<&'a T, Output = T> + algebraics::polynomial::PolynomialCoefficientAbsSupported + algebraics::polynomial::PolynomialReducingFactorSupported>(a: &P, r: &Ring, field: bool) -> Res {
    let x = mk::<T>(a, r);
    let mut g = Q::zero();
    for c in a { g = qgcd(&g, c); }
    if a.last().map_or(false, |c| c.is_negative()) { g = -g; }
    ck!(x.content().q() == g, "content({}) = {} instead of {}", show(a), x.content().q(), g);
    ck!(x.nonzero_content().map(|c| c.q()) == if a.is_empty() { None } else { Some(g.clone()) }, "nonzero_content({})", show(a));
    let pp = if a.is_empty() { vec![] } else { r.scale(a, &g.recip()) };
    is("primitive_part", &x.primitive_part(), &pp, r)?;
    is("into_primitive_part", &x.clone().into_primitive_part(), &pp, r)?;
    let red = if field { r.monic(a) } else { pp.clone() };
    is("to_reduced", &x.to_reduced(), &red, r)?;
    is("into_reduced", &x.clone().into_reduced(), &red, r)?;
    ck!(x.reducing_factor().q() == if field { a.last().cloned().unwrap_or(Q::zero()) } else { g.clone() }, "reducing_factor({})", show(a));
    if field {
        is("into_monic", &x.clone().into_monic(), &r.monic(a), r)?;
    }
    let mx = a.iter().map(|c| c.abs()).max().unwrap_or(Q::zero());
    ck!(x.max_norm().q() == mx, "max_norm({})", show(a));
    let mn: Q = a.iter().map(|c| c.abs()).fold(Q::zero(), |s, c| s + c);
    ck!(x.manhattan_norm().q() == mn, "manhattan_norm({})", show(a));
    Ok(())
}
fn run_content(c: &[Z]) -> Res {
    let kind = c[0].to_u64().unwrap();
    let r = ring_of(kind, &c[1]);
    let mut i = 2;
    let a = take(c, &mut i, &r);
    if kind == 0 { content::<Z>(&a, &r, false) } else { content::<Q>(&a, &r, true) }
}

// ---- division ----
fn gen_div(g: &mut G) -> Vec<Z> {
    let (mut c, kind, r) = head(g, &[0, 1, 1, 2, 3, 3]);
    let mut a = poly(g, kind, 7);
    let b = poly(g, kind, 4);
    if g.below(3) == 0 {
        // exact multiple, sometimes off by a constant
        let ra = r.trim(a.iter().take(4).cloned().collect());
        a = r.mul(&ra, &r.trim(b.clone()));
        if g.below(3) == 0 {
            a = r.add(&a, &vec![Q::one()]);
        }
    }
    put(&mut c, &a);
    put(&mut c, &b);
    put(&mut c, &vec![coef(g, kind)]);
    c.push(g.below(12).into());
    c
}
fn pseudo<T: K>(a: &P, b: &P, r: &Ring) -> Res {
    let (x, y) = (mk::<T>(a, r), mk::<T>(b, r));
    if b.is_empty() {
        ck!(x.clone().checked_pseudo_div_rem(&y).is_none() && x.clone().checked_exact_pseudo_div(&y).is_none(), "pseudo division by zero");
        ck!(guard(|| x.clone().pseudo_div_rem(&y)).is_none(), "pseudo division by zero does not panic");
        return Ok(());
    }
    let d = x.clone().pseudo_div_rem(&y);
    let (q, m, f) = (view(&d.quotient), view(&d.remainder), d.factor.q());
    is("pseudo quotient", &d.quotient, &r.trim(q.clone()), r)?;
    is("pseudo remainder", &d.remainder, &r.trim(m.clone()), r)?;
    let zero_divisors = kind_has_zero_divisors(r, b);
    ck!(zero_divisors || m.len() < b.len(), "pseudo remainder {} has too high a degree", show(&m));
    ck!(r.add(&r.mul(&q, b), &m) == r.scale(a, &f), "pseudo_div_rem({}, {}): quotient {} remainder {} factor {}", show(a), show(b), show(&q), show(&m), f);
    let e = (a.len() + 1).saturating_sub(b.len());
    let mut want = r.n(Q::one());
    for _ in 0..e { want = r.n(want * b.last().unwrap()); }
    ck!(f == want, "pseudo_div_rem({}, {}): factor {} instead of {}", show(a), show(b), f, want);
    ck!(x.clone().checked_pseudo_div_rem(&y).as_ref() == Some(&d), "checked_pseudo_div_rem");
    let ex = x.clone().checked_exact_pseudo_div(&y);
    ck!(ex.is_some() == m.is_empty(), "checked_exact_pseudo_div({}, {})", show(a), show(b));
    if let Some((eq, ef)) = ex {
        ck!(eq == d.quotient && ef == d.factor, "checked_exact_pseudo_div value");
    }
    ck!(guard(|| x.clone().exact_pseudo_div(&y)).is_some() == m.is_empty(), "exact_pseudo_div");
    Ok(())
}
fn kind_has_zero_divisors(_r: &Ring, _b: &P) -> bool { false }

fn exactp<T: K + for<'a> ExactDiv<&'a T, Output = T>>(a: &P, b: &P, k: &Q, r: &Ring, field: bool) -> Res {
    let (x, y, t) = (mk::<T>(a, r), mk::<T>(b, r), T::of(k, r));
    let integral = |p: &P| p.iter().all(|c| c.is_integer());
    // by polynomial
    let want = if b.is_empty() { None } else {
        let (q, m) = r.divrem(a, b);
        if m.is_empty() && (field || integral(&q)) { Some(q) } else { None }
    };
    let all: Vec<(&str, Option<Polynomial<T>>)> = vec![
        ("checked ref ref", (&x).checked_exact_div(&y)), ("checked ref val", (&x).checked_exact_div(y.clone())),
        ("checked val ref", x.clone().checked_exact_div(&y)), ("checked val val", x.clone().checked_exact_div(y.clone())),
        ("ref ref", guard(|| (&x).exact_div(&y))), ("ref val", guard(|| (&x).exact_div(y.clone()))),
        ("val ref", guard(|| x.clone().exact_div(&y))), ("val val", guard(|| x.clone().exact_div(y.clone()))),
        ("assign ref", guard(|| { let mut z = x.clone(); z.exact_div_assign(&y); z })),
        ("assign val", guard(|| { let mut z = x.clone(); z.exact_div_assign(y.clone()); z })),
    ];
    for (n, v) in all {
        ck!(v.is_some() == want.is_some(), "exact_div {} of {} by {}: {:?}", n, show(a), show(b), v.map(|p| show(&view(&p))));
        if let (Some(v), Some(w)) = (v, &want) { is("exact_div", &v, w, r)?; }
    }
    for by_ref in [false, true] {
        let mut z = x.clone();
        let ok = if by_ref { z.checked_exact_div_assign(&y) } else { z.checked_exact_div_assign(y.clone()) }.is_ok();
        ck!(ok == want.is_some(), "checked_exact_div_assign of {} by {}", show(a), show(b));
        is("checked_exact_div_assign", &z, want.as_ref().unwrap_or(a), r)?;
    }
    // quotient and remainder
    if !b.is_empty() {
        let (q, m) = r.divrem(a, b);
        let okk = field || integral(&q) && integral(&m);
        match x.clone().checked_div_rem(&y) {
            None => ck!(!okk, "checked_div_rem({}, {}) is None", show(a), show(b)),
            Some((u, v)) => { ck!(okk, "checked_div_rem({}, {}) is Some", show(a), show(b)); is("div_rem quotient", &u, &q, r)?; is("div_rem remainder", &v, &m, r)?; }
        }
        match guard(|| x.clone().div_rem(&y)) {
            None => ck!(!okk, "div_rem({}, {}) panics", show(a), show(b)),
            Some((u, v)) => { ck!(okk, "div_rem({}, {}) is not rejected", show(a), show(b)); is("div_rem quotient", &u, &q, r)?; is("div_rem remainder", &v, &m, r)?; }
        }
    } else {
        ck!(x.clone().checked_div_rem(&y).is_none(), "checked_div_rem by zero");
    }
    // by coefficient
    let kn = r.n(k.clone());
    let want = if kn.is_zero() { if a.is_empty() { Some(vec![]) } else { None } } else {
        let q = r.scale(a, &r.inv(&kn));
        if field || integral(&q) { Some(q) } else { None }
    };
    let all: Vec<(&str, Option<Polynomial<T>>)> = vec![
        ("checked ref ref", (&x).checked_exact_div(&t)), ("checked ref val", (&x).checked_exact_div(t.clone())),
        ("checked val ref", x.clone().checked_exact_div(&t)), ("checked val val", x.clone().checked_exact_div(t.clone())),
        ("ref ref", guard(|| (&x).exact_div(&t))), ("ref val", guard(|| (&x).exact_div(t.clone()))),
        ("val ref", guard(|| x.clone().exact_div(&t))), ("val val", guard(|| x.clone().exact_div(t.clone()))),
        ("assign ref", guard(|| { let mut z = x.clone(); z.exact_div_assign(&t); z })),
        ("assign val", guard(|| { let mut z = x.clone(); z.exact_div_assign(t.clone()); z })),
        ("/ ref ref", guard(|| &x / &t)), ("/ ref val", guard(|| &x / t.clone())), ("/ val ref", guard(|| x.clone() / &t)), ("/ val val", guard(|| x.clone() / t.clone())),
        ("/= ref", guard(|| { let mut z = x.clone(); z /= &t; z })), ("/= val", guard(|| { let mut z = x.clone(); z /= t.clone(); z })),
    ];
    for (n, v) in all {
        ck!(v.is_some() == want.is_some(), "scalar exact_div {} of {} by {}: {:?}", n, show(a), kn, v.map(|p| show(&view(&p))));
        if let (Some(v), Some(w)) = (v, &want) { is("scalar exact_div", &v, w, r)?; }
    }
    for by_ref in [false, true] {
        let mut z = x.clone();
        let ok = if by_ref { z.checked_exact_div_assign(&t) } else { z.checked_exact_div_assign(t.clone()) }.is_ok();
        ck!(ok == want.is_some(), "checked_exact_div_assign of {} by {}", show(a), kn);
        is("scalar checked_exact_div_assign", &z, want.as_ref().unwrap_or(a), r)?;
    }
    Ok(())
}

fn fielddiv<T: K + algebraics::polynomial::PolynomialDivSupported>(a: &P, b: &P, e: usize, r: &Ring) -> Res {
    let (x, y) = (mk::<T>(a, r), mk::<T>(b, r));
    if b.is_empty() {
        ck!(x.checked_div(&y).is_none() && x.checked_rem(&y).is_none(), "checked division by zero");
        ck!(guard(|| &x / &y).is_none() && guard(|| &x % &y).is_none() && guard(|| x.clone() / y.clone()).is_none(), "division by zero does not panic");
        ck!(x.checked_powmod(e, &y).is_none(), "powmod by zero");
        return Ok(());
    }
    let (q, m) = r.divrem(a, b);
    is("checked_div", &x.checked_div(&y).ok_or("checked_div is None")?, &q, r)?;
    is("checked_rem", &x.checked_rem(&y).ok_or("checked_rem is None")?, &m, r)?;
    forms!("div", x, y, div, div_assign, &q, r);
    forms!("rem", x, y, rem, rem_assign, &m, r);
    if !a.is_empty() || e > 0 {
        let w = r.divrem(&r.pow(a, e), b).1;
        is("powmod", &x.powmod(e, &y), &w, r)?;
        is("checked_powmod", &x.checked_powmod(Z::from(e), &y).ok_or("checked_powmod is None")?, &w, r)?;
        ck!(x.checked_powmod(-1i32, &y).is_none(), "negative powmod");
    }
    Ok(())
}

fn run_div(c: &[Z]) -> Res {
    let kind = c[0].to_u64().unwrap();
    let r = ring_of(kind, &c[1]);
    let mut i = 2;
    let (a, b, k) = (take(c, &mut i, &r), take(c, &mut i, &r), take(c, &mut i, &r));
    let k = k.get(0).cloned().unwrap_or(Q::zero());
    let e = us(&c[i]);
    match kind {
        0 => { pseudo::<Z>(&a, &b, &r)?; exactp::<Z>(&a, &b, &k, &r, false) }
        1 => { pseudo::<Q>(&a, &b, &r)?; exactp::<Q>(&a, &b, &k, &r, true)?; fielddiv::<Q>(&a, &b, e.min(5), &r) }
        2 => pseudo::<MZ>(&a, &b, &r),
        _ => { pseudo::<MP>(&a, &b, &r)?; exactp::<MP>(&a, &b, &k, &r, true)?; fielddiv::<MP>(&a, &b, e, &r) }
    }
}

// ---- gcd, resultant ----
fn gen_gcd(g: &mut G) -> Vec<Z> {
    let (mut c, kind, r) = head(g, &[1, 1, 3, 3]);
    let (mut a, mut b) = (poly(g, kind, 5), poly(g, kind, 5));
    if g.below(2) == 0 {
        let h = r.trim(poly(g, kind, 3));
        a = r.mul(&r.trim(a), &h);
        b = r.mul(&r.trim(b), &h);
    }
    put(&mut c, &a);
    put(&mut c, &b);
    c
}
fn gcdp<T: K + algebraics::polynomial::PolynomialDivSupported + algebraics::polynomial::PolynomialReducingFactorSupported>(a: &P, b: &P, r: &Ring) -> Res {
    let (x, y) = (mk::<T>(a, r), mk::<T>(b, r));
    let g = r.gcd(a, b);
    is("gcd", &GCD::gcd(&x, &y), &g, r)?;
    let gl = GCD::gcd_lcm(&x, &y);
    is("gcd_lcm gcd", &gl.gcd, &g, r)?;
    let l = if g.is_empty() { vec![] } else { r.mul(a, &r.divrem(b, &g).0) };
    is("gcd_lcm lcm", &gl.lcm, &l, r)?;
    is("lcm", &GCD::lcm(&x, &y), &l, r)?;
    let e = ExtendedGCD::extended_gcd(&x, &y);
    let el = ExtendedGCD::extended_gcd_lcm(&x, &y);
    for (gg, xx, yy) in [(&e.gcd, &e.x, &e.y), (&el.gcd, &el.x, &el.y)] {
        is("extended gcd", gg, &g, r)?;
        let s = r.add(&r.mul(&view(xx), a), &r.mul(&view(yy), b));
        ck!(s == g, "extended_gcd({}, {}): cofactors {} and {} give {} instead of {}", show(a), show(b), show(&view(xx)), show(&view(yy)), show(&s), show(&g));
        is("cofactor", xx, &r.trim(view(xx)), r)?;
        is("cofactor", yy, &r.trim(view(yy)), r)?;
    }
    is("extended lcm", &el.lcm, &l, r)?;
    ck!(x.is_square_free() == (r.gcd(a, &r.deriv(a)).len() <= 1), "is_square_free({})", show(a));
    Ok(())
}
fn run_gcd(c: &[Z]) -> Res {
    let kind = c[0].to_u64().unwrap();
    let r = ring_of(kind, &c[1]);
    let mut i = 2;
    let (a, b) = (take(c, &mut i, &r), take(c, &mut i, &r));
    if kind == 1 { gcdp::<Q>(&a, &b, &r) } else { gcdp::<MP>(&a, &b, &r) }
}

fn gen_res(g: &mut G) -> Vec<Z> {
    let (mut c, kind, r) = head(g, &[0, 1, 0, 1, 3]);
    let (mut a, mut b) = (poly(g, kind, 6), poly(g, kind, 6));
    if g.below(3) == 0 {
        let h = r.trim(poly(g, kind, 3));
        a = r.mul(&r.trim(a), &h);
        b = r.mul(&r.trim(b), &h);
    }
    if g.below(4) == 0 && a.len() > 3 && b.len() > 3 {
        // force degree gaps in the remainder sequence
        let k = a.len() - 2;
        for x in a[1..k].iter_mut() { *x = Q::zero(); }
    }
    put(&mut c, &a);
    put(&mut c, &b);
    c
}
fn resp<T: K + Zero + for<'a> ExactDiv<&'a T, Output = T>>(a: &P, b: &P, r: &Ring) -> Res {
    let (x, y) = (mk::<T>(a, r), mk::<T>(b, r));
    let w = r.resultant(a, b);
    let v = x.clone().resultant(y.clone()).q();
    ck!(v == w, "resultant({}, {}) = {} instead of {}", show(a), show(b), v, w);
    ck!(x.clone().nonzero_resultant(y.clone()).map(|v| v.q()).unwrap_or(Q::zero()) == w, "nonzero_resultant");
    let s = view(&x.subresultant_gcd(y));
    ck!(r.monic(&s) == r.gcd(a, b), "subresultant_gcd({}, {}) = {}", show(a), show(b), show(&s));
    Ok(())
}
fn resm(a: &P, b: &P, r: &Ring) -> Res {
    let (x, y) = (mk::<MP>(a, r), mk::<MP>(b, r));
    let w = r.resultant(a, b);
    let v = x.nonzero_resultant(y).map(|v| v.q()).unwrap_or(Q::zero());
    ck!(v == w, "resultant({}, {}) mod {:?} = {} instead of {}", show(a), show(b), r.m, v, w);
    Ok(())
}
fn run_res(c: &[Z]) -> Res {
    let kind = c[0].to_u64().unwrap();
    let r = ring_of(kind, &c[1]);
    let mut i = 2;
    let (a, b) = (take(c, &mut i, &r), take(c, &mut i, &r));
    match kind { 0 => resp::<Z>(&a, &b, &r), 1 => resp::<Q>(&a, &b, &r), _ => resm(&a, &b, &r) }
}

// ---- factorisation: built from polynomials known to be irreducible ----
fn irreducible(g: &mut G) -> P {
    let z = |v: &[i64]| -> P { v.iter().map(|x| Q::from_integer((*x).into())).collect() };
    match g.below(7) {
        0 | 1 => {
            let (mut a, b) = (g.range(1, 9), g.range(-9, 9));
            let d = Integer::gcd(&a, &b);
            if d > 1 { a /= d; return z(&[b / d, a]); }
            z(&[b, a])
        }
        2 => loop {
            let (a, b, c) = (g.range(1, 5), g.range(-6, 6), g.range(-6, 6));
            let d = b * b - 4 * a * c;
            let s = (d.max(0) as f64).sqrt().round() as i64;
            if d >= 0 && s * s == d || Integer::gcd(&Integer::gcd(&a, &b), &c) != 1 { continue; }
            return z(&[c, b, a]);
        },
        3 => {
            // Eisenstein
            let p = [2i64, 3, 5][g.below(3) as usize];
            let n = g.range(2, 5) as usize;
            let mut v: Vec<i64> = (0..n).map(|_| p * g.range(-3, 3)).collect();
            let s = if g.below(2) == 0 { 1 } else { -1 };
            v[0] = p * s;
            v.push(1);
            z(&v)
        }
        4 => z(&[1, 0, 0, 0, 1]),
        5 => z(&[1, 0, -10, 0, 1]),
        _ => [z(&[1, 1, 1, 1, 1]), z(&[1, 0, -1, 0, 1]), z(&[1, -1, 0, 1, -1, 1, 0, -1, 1])][g.below(3) as usize].clone(),
    }
}
fn gen_fac(g: &mut G) -> Vec<Z> {
    let mut c = vec![Z::from(0), Z::from(0), Z::from(g.range(-12, 12))];
    let n = g.below(4);
    c.push(n.into());
    let mut deg = 0;
    let mut fs: Vec<(P, u64)> = vec![];
    for _ in 0..n {
        let mut f = irreducible(g);
        let mut k = if g.below(3) == 0 { 1 + g.below(3) } else { 1 };
        if (f.len() - 1) * k as usize + deg > 14 { k = 1; }
        if f.len() - 1 + deg > 14 { f = vec![Q::from_integer(g.range(-5, 5).into()), Q::one()]; k = 1; }
        deg += (f.len() - 1) * k as usize;
        fs.push((f, k));
    }
    for (f, k) in fs {
        put(&mut c, &f);
        c.push(k.into());
    }
    c
}
fn fac_case(c: &[Z]) -> (Z, Vec<(P, usize)>) {
    let r = Ring { m: None };
    let mut i = 4;
    let mut fs: Vec<(P, usize)> = vec![];
    for _ in 0..us(&c[3]) {
        let f = take(c, &mut i, &r);
        let k = us(&c[i]);
        i += 1;
        match fs.iter_mut().find(|x| x.0 == f) {
            Some(x) => x.1 += k,
            None => fs.push((f, k)),
        }
    }
    (c[2].clone(), fs)
}
fn run_fac(c: &[Z]) -> Res {
    let r = Ring { m: None };
    let (k, mut fs) = fac_case(c);
    let mut p = vec![qi(&k)];
    for (f, e) in &fs { p = r.mul(&p, &r.pow(f, *e)); }
    p = r.trim(p);
    if k.is_zero() { fs.clear(); }
    let x = mk::<Z>(&p, &r);
    let out = x.factor();
    let mut got: Vec<(P, usize)> = out.polynomial_factors.iter().map(|f| (view(&f.polynomial), f.power)).collect();
    let mut want = fs.clone();
    got.sort();
    want.sort();
    ck!(got == want && out.constant_factor == k, "factor({}) = {} * {:?}, expected {} * {:?}", show(&p), out.constant_factor,
        got.iter().map(|x| (show(&x.0), x.1)).collect::<Vec<_>>(), k, want.iter().map(|x| (show(&x.0), x.1)).collect::<Vec<_>>());
    Ok(())
}
fn run_yun(c: &[Z]) -> Res {
    let r = Ring { m: None };
    let (k, fs) = fac_case(c);
    if k.is_zero() {
        return Ok(());
    }
    let mut p = vec![qi(&k) / qi(&Z::from(6))];
    for (f, e) in &fs { p = r.mul(&p, &r.pow(f, *e)); }
    let x = mk::<Q>(&p, &r);
    let out = x.square_free_factorization_using_yuns_algorithm();
    let mut prod = vec![out.constant_factor.clone()];
    for (i, f) in out.polynomial_factors.iter().enumerate() {
        let v = view(f);
        prod = r.mul(&prod, &r.pow(&v, i + 1));
        let mut w = vec![Q::one()];
        for (q, e) in &fs { if *e == i + 1 { w = r.mul(&w, q); } }
        ck!(r.monic(&v) == r.monic(&w), "square-free factor {} of {} is {}", i + 1, show(&p), show(&v));
    }
    ck!(prod == p, "square-free factors of {} multiply to {}", show(&p), show(&prod));
    Ok(())
}

// ---- Sturm ----
fn gen_sturm(g: &mut G) -> Vec<Z> {
    let mut c = vec![g.below(3).into(), Z::from(if g.below(2) == 0 { 1 } else { -1 } * g.range(1, 4))];
    let n = g.below(5);
    c.push(n.into());
    for _ in 0..n { c.push(g.range(-6, 6).into()); c.push(g.range(1, 3).into()); }
    c.push(g.below(3).into()); // x^2 + j factors
    c.push(g.range(-8, 8).into());
    c.push(g.range(1, 3).into());
    c.push(g.range(-8, 8).into());
    c.push(g.range(1, 3).into());
    c
}
fn run_sturm(c: &[Z]) -> Res {
    let r = Ring { m: None };
    let n = us(&c[2]);
    let mut roots: Vec<Q> = (0..n).map(|i| Q::new(c[3 + 2 * i].clone(), c[4 + 2 * i].clone())).collect();
    roots.sort();
    roots.dedup();
    let mut i = 3 + 2 * n;
    let mut p = vec![qi(&c[1])];
    for q in &roots { p = r.mul(&p, &vec![-qi(q.numer()), qi(q.denom())]); }
    for j in 0..us(&c[i]) { p = r.mul(&p, &vec![Q::from_integer(Z::from(j + 1)), Q::zero(), Q::one()]); }
    i += 1;
    let (mut a, mut b) = (Q::new(c[i].clone(), c[i + 1].clone()), Q::new(c[i + 2].clone(), c[i + 3].clone()));
    if a > b { std::mem::swap(&mut a, &mut b); }
    let seq: Vec<P> = match us(&c[0]) {
        0 => { let x = mk::<Q>(&p, &r); let s = x.to_sturm_sequence(); ck!(s == x.into_sturm_sequence(), "to/into differ"); s.iter().map(view).collect() }
        1 => { let x = mk::<Q>(&p, &r); let s = x.to_primitive_sturm_sequence(); ck!(s == x.into_primitive_sturm_sequence(), "to/into differ"); s.iter().map(view).collect() }
        _ => { let x = mk::<Z>(&p, &r); let s = x.to_primitive_sturm_sequence(); ck!(s == x.into_primitive_sturm_sequence(), "to/into differ"); s.iter().map(view).collect() }
    };
    let var = |x: &Q| {
        let s: Vec<bool> = seq.iter().map(|f| r.eval(f, x)).filter(|v| !v.is_zero()).map(|v| v.is_positive()).collect();
        s.windows(2).filter(|w| w[0] != w[1]).count() as i64
    };
    let want = roots.iter().filter(|x| **x > a && **x <= b).count() as i64;
    ck!(var(&a) - var(&b) == want, "Sturm sequence of {} counts {} roots in ({}, {}], there are {}", show(&p), var(&a) - var(&b), a, b, want);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { name: "poly.ring", gen: gen_ring, run: run_ring, weight: 4 },
        Check { name: "poly.content", gen: gen_content, run: run_content, weight: 1 },
        Check { name: "polydiv.all", gen: gen_div, run: run_div, weight: 4 },
        Check { name: "polygcd.gcd", gen: gen_gcd, run: run_gcd, weight: 3 },
        Check { name: "polygcd.resultant", gen: gen_res, run: run_res, weight: 2 },
        Check { name: "polyfactor.factor", gen: gen_fac, run: run_fac, weight: 4 },
        Check { name: "polyfactor.yun", gen: gen_fac, run: run_yun, weight: 1 },
        Check { name: "polysturm.count", gen: gen_sturm, run: run_sturm, weight: 1 },
    ]
}
