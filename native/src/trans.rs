//! exp, log, AGM and the cached constants against independently computed rational enclosures.
use crate::ck;
use crate::g::*;
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};

/// enclosure [lo, hi] / 2^w, for non-negative values unless noted
#[derive(Clone, Debug)]
pub struct E {
    lo: BigInt,
    hi: BigInt,
    w: usize,
}

fn fdiv(a: &BigInt, b: &BigInt) -> BigInt {
    a.div_floor(b)
}
fn cdiv(a: &BigInt, b: &BigInt) -> BigInt {
    -(-a).div_floor(b)
}
impl E {
    fn q(q: &Q, w: usize) -> E {
        let n = q.numer() << w;
        E { lo: fdiv(&n, q.denom()), hi: cdiv(&n, q.denom()), w }
    }
    /// product of non-negative enclosures
    fn mul(&self, o: &E) -> E {
        let p = p2(self.w);
        E { lo: fdiv(&(&self.lo * &o.lo), &p), hi: cdiv(&(&self.hi * &o.hi), &p), w: self.w }
    }
    fn add(&self, o: &E) -> E {
        E { lo: &self.lo + &o.lo, hi: &self.hi + &o.hi, w: self.w }
    }
    fn neg(&self) -> E {
        E { lo: -&self.hi, hi: -&self.lo, w: self.w }
    }
    fn scale(&self, k: &BigInt) -> E {
        let (a, b) = (&self.lo * k, &self.hi * k);
        E { lo: a.clone().min(b.clone()), hi: a.max(b), w: self.w }
    }
    fn qlo(&self) -> Q {
        Q::new(self.lo.clone(), p2(self.w))
    }
    fn qhi(&self) -> Q {
        Q::new(self.hi.clone(), p2(self.w))
    }
}

/// e^r for a rational r with |r| modest, by halving the argument and squaring back
pub fn ref_exp(r: &Q, n: usize) -> E {
    let a = r.abs();
    let mut k = 6usize;
    while a > Q::from_integer(p2(k - 6)) {
        k += 1;
    }
    let mag = if r.is_positive() { (ceil(&a).to_usize().unwrap_or(0)) * 2 } else { 0 };
    let w = n + 60 + 4 * k + mag;
    let s = E::q(&(&a / p2(k)), w);
    let one = E { lo: p2(w), hi: p2(w), w };
    let (mut term, mut sum) = (one.clone(), one.clone());
    let mut i = 1u32;
    loop {
        term = term.mul(&s);
        term = E { lo: fdiv(&term.lo, &i.into()), hi: cdiv(&term.hi, &i.into()), w };
        sum = sum.add(&term);
        i += 1;
        if term.hi <= BigInt::one() {
            sum.hi += 2; // tail of a series with ratio below 1/64
            break;
        }
    }
    for _ in 0..k {
        sum = sum.mul(&sum.clone());
    }
    if r.is_negative() {
        // reciprocal
        let p = p2(2 * w);
        sum = E { lo: fdiv(&p, &sum.hi), hi: cdiv(&p, &sum.lo), w };
    }
    sum
}

/// 2*atanh(y) for rational 0 <= y <= 1/2
fn atanh2(y: &Q, w: usize) -> E {
    let e = E::q(y, w);
    let sq = e.mul(&e);
    let (mut p, mut sum) = (e.clone(), E { lo: BigInt::zero(), hi: BigInt::zero(), w });
    let mut i = 1u32;
    while p.hi > BigInt::one() {
        sum = sum.add(&E { lo: fdiv(&p.lo, &i.into()), hi: cdiv(&p.hi, &i.into()), w });
        p = p.mul(&sq);
        i += 2;
    }
    sum.hi += 2;
    sum.scale(&2.into())
}

pub fn ref_ln2(n: usize) -> E {
    atanh2(&Q::new(1.into(), 3.into()), n + 40)
}

/// log of a positive rational
pub fn ref_log(q: &Q, n: usize) -> E {
    let w = n + 80;
    let mut s = q.numer().bits() as i64 - q.denom().bits() as i64;
    let mut m = if s >= 0 { q / p2(s as usize) } else { q * p2(-s as usize) };
    while m >= Q::new(3.into(), 2.into()) {
        m /= BigInt::from(2);
        s += 1;
    }
    while m < Q::new(3.into(), 4.into()) {
        m *= BigInt::from(2);
        s -= 1;
    }
    let one = Q::one();
    let y = (&m - &one) / (&m + &one);
    let l = if y.is_negative() { atanh2(&-y, w).neg() } else { atanh2(&y, w) };
    l.add(&atanh2(&Q::new(1.into(), 3.into()), w).scale(&s.into()))
}

/// AGM of two non-negative rationals
pub fn ref_agm(a: &Q, b: &Q, n: usize) -> E {
    let w = n + 40;
    if a.is_zero() || b.is_zero() {
        return E { lo: BigInt::zero(), hi: BigInt::zero(), w };
    }
    let (mut x, mut y) = (E::q(a, w), E::q(b, w));
    for _ in 0..4000 {
        let m = E { lo: fdiv(&(&x.lo + &y.lo), &2.into()), hi: cdiv(&(&x.hi + &y.hi), &2.into()), w };
        let gl = (&x.lo * &y.lo).sqrt();
        let gh2 = &x.hi * &y.hi;
        let mut gh = gh2.sqrt();
        if &gh * &gh != gh2 {
            gh += 1;
        }
        if m.hi == x.hi && gl == y.lo {
            break;
        }
        x = m;
        y = E { lo: gl, hi: gh, w };
    }
    // the AGM lies between any pair of means
    E { lo: x.lo.clone().min(y.lo.clone()), hi: x.hi.clone().max(y.hi.clone()), w }
}

fn lo(d: &D) -> Q {
    Q::new(d.lower_bound_numer().clone(), p2(d.log2_denom()))
}
fn hi(d: &D) -> Q {
    Q::new(d.upper_bound_numer().clone(), p2(d.log2_denom()))
}

fn encl(what: &str, r: &D, n: usize, tl: &E, th: &E) -> Res {
    ck!(r.log2_denom() == n, "{}: precision {} instead of {}", what, r.log2_denom(), n);
    ck!(lo(r) <= hi(r), "{}: bounds out of order [{}, {}]", what, lo(r), hi(r));
    ck!(lo(r) <= tl.qhi(), "{}: lower bound {} is above the true value (< {})", what, lo(r), tl.qhi());
    ck!(hi(r) >= th.qlo(), "{}: upper bound {} is below the true value (> {})", what, hi(r), th.qlo());
    Ok(())
}

/// numerator of a value of bounded magnitude
fn small(g: &mut G, n: usize, mag: i64) -> BigInt {
    match g.below(5) {
        0 => g.range(-6, 6).into(),
        1 => (BigInt::from(g.range(-mag, mag)) << n) + g.range(-1, 1),
        2 => (BigInt::from(g.range(-4, 4)) << n) + g.range(-3, 3),
        3 => {
            let k = 1 + g.below(n as u64 + 3);
            let v = g.bits(k);
            if g.below(2) == 0 { v } else { -v }
        }
        _ => {
            let f = g.bits(n as u64 + 1);
            (BigInt::from(g.range(-mag, mag - 1)) << n) + (f >> 1usize)
        }
    }
}

fn order(a: BigInt, b: BigInt) -> (BigInt, BigInt) {
    if a <= b { (a, b) } else { (b, a) }
}

fn gen_exp(g: &mut G) -> Vec<BigInt> {
    let n = us(&g.prec());
    let mag = [3, 20, 90][g.below(3) as usize];
    let mut a = small(g, n, mag);
    let b = if g.below(3) == 0 { &a + g.range(0, 3) } else { small(g, n, mag) };
    if g.below(12) == 0 {
        let k = g.below(120) as usize;
        a = -(p2(n + k) + g.range(-2, 2));
    }
    let (a, b) = order(a, b);
    vec![a, b, n.into()]
}

fn exp(c: &[BigInt]) -> Res {
    let n = us(&c[2]);
    let d = D::new(c[0].clone(), c[1].clone(), n);
    let r = match guard(|| d.exp()) {
        Some(r) => r,
        None => return Err("exp panicked".into()),
    };
    ck!(r.is_same(&d.clone().into_exp()), "exp and into_exp disagree");
    // arguments below -(n+2) give a value in (0, 2^-(n+2))
    let tiny = |x: &Q| *x < Q::from_integer(-BigInt::from(n + 60));
    let f = |x: &Q| if tiny(x) { E { lo: BigInt::zero(), hi: BigInt::one(), w: n + 50 } } else { ref_exp(x, n) };
    let z = |x: &Q| if tiny(x) { E { lo: BigInt::one(), hi: BigInt::one(), w: n + 4000 } } else { ref_exp(x, n) };
    let (tl, th) = (f(&lo(&d)), z(&hi(&d)));
    ck!(!tiny(&lo(&d)) || !lo(&r).is_positive(), "exp: lower bound {} is above a value below 2^-{}", lo(&r), n);
    ck!(!tiny(&hi(&d)) || hi(&r).is_positive(), "exp: upper bound {} is below a positive value", hi(&r));
    if tiny(&hi(&d)) {
        ck!(r.log2_denom() == n && lo(&r) <= hi(&r), "exp: precision or order wrong");
        return Ok(());
    }
    encl("exp", &r, n, &tl, &th)
}

fn gen_log(g: &mut G) -> Vec<BigInt> {
    let n = us(&g.prec());
    let one = |g: &mut G| -> BigInt {
        match g.below(5) {
            0 => g.int(),
            1 => p2(g.below(n as u64 + 8) as usize) + g.range(-2, 2),
            2 => BigInt::from(3) * p2(g.below(n as u64 + 4) as usize) + g.range(-1, 1),
            3 => { let k = 1 + g.below(n as u64 + 4); g.bits(k) + 1 }
            _ => { let k = 1 + g.below(300); g.bits(k) + 1 }
        }
    };
    let mut a = one(g);
    if g.below(16) != 0 {
        a = a.abs().max(1.into());
    }
    let b = if g.below(3) == 0 { &a + g.range(0, 3) } else { one(g) };
    let (mut a, b) = order(a, b);
    if g.below(16) != 0 && !a.is_positive() {
        a = BigInt::one();
    }
    let (a, b) = order(a, b);
    vec![a, b, n.into()]
}

fn log(c: &[BigInt]) -> Res {
    let n = us(&c[2]);
    let d = D::new(c[0].clone(), c[1].clone(), n);
    let r = guard(|| d.log());
    if !c[0].is_positive() {
        ck!(r.is_none(), "log of an interval reaching zero or below did not panic");
        return Ok(());
    }
    let r = match r {
        Some(r) => r,
        None => return Err("log panicked".into()),
    };
    encl("log", &r, n, &ref_log(&lo(&d), n), &ref_log(&hi(&d), n))
}

fn gen_agm(g: &mut G) -> Vec<BigInt> {
    let mut r = vec![];
    let mut n = us(&g.prec());
    for _ in 0..2 {
        let mut a = g.int();
        if g.below(20) != 0 {
            a = a.abs();
        }
        let b = if g.below(3) == 0 { &a + g.range(0, 3) } else { g.int().abs() };
        let (a, b) = order(a, b);
        r.extend([a, b, n.into()]);
        if g.below(2) == 0 {
            n = us(&g.prec());
        }
    }
    r
}

fn agm(c: &[BigInt]) -> Res {
    let a = D::new(c[0].clone(), c[1].clone(), us(&c[2]));
    let b = D::new(c[3].clone(), c[4].clone(), us(&c[5]));
    let n = us(&c[2]).max(us(&c[5]));
    let r = guard(|| a.arithmetic_geometric_mean(&b));
    if c[0].is_negative() || c[3].is_negative() {
        ck!(r.is_none(), "agm of an interval reaching below zero did not panic");
        return Ok(());
    }
    let r = match r {
        Some(r) => r,
        None => return Err("agm panicked".into()),
    };
    ck!(r.is_same(&a.clone().into_arithmetic_geometric_mean(b.clone())), "agm forms disagree");
    encl("agm", &r, n, &ref_agm(&lo(&a), &lo(&b), n), &ref_agm(&hi(&a), &hi(&b), n))
}

fn constant(what: &str, r: &D, n: usize) -> Res {
    ck!(r.log2_denom() == n, "{}: precision {} instead of {}", what, r.log2_denom(), n);
    ck!(lo(r) <= hi(r), "{}: bounds out of order", what);
    ck!(r.upper_bound_numer() - r.lower_bound_numer() <= BigInt::from(2), "{}: {} units wide", what, r.upper_bound_numer() - r.lower_bound_numer());
    if what == "sqrt_2" {
        let two = Q::from_integer(2.into());
        ck!(&lo(r) * &lo(r) <= two && &hi(r) * &hi(r) >= two && !hi(r).is_negative(), "sqrt_2({}) excludes the square root of 2", n);
    } else {
        let t = ref_ln2(n);
        ck!(lo(r) <= t.qhi() && hi(r) >= t.qlo(), "natural_log_of_2({}) excludes log 2", n);
    }
    Ok(())
}

fn gen_const(g: &mut G) -> Vec<BigInt> {
    vec![match g.below(4) {
        0 => g.below(40),
        1 => 30 + g.below(100),
        2 => p2(g.below(11) as usize).to_u64().unwrap() + g.below(3) - 1,
        _ => g.below(1500),
    }
    .into()]
}

fn consts(c: &[BigInt]) -> Res {
    let n = us(&c[0]);
    constant("sqrt_2", &D::sqrt_2(n), n)?;
    constant("natural_log_of_2", &D::natural_log_of_2(n), n)
}

fn gen_hist(g: &mut G) -> Vec<BigInt> {
    let k = 1 + g.below(6);
    let mut r = vec![BigInt::from(g.below(3))];
    let shape = g.below(3);
    let mut v: Vec<BigInt> = (0..k).map(|_| match g.below(4) {
        0 => g.below(34).into(),
        1 => BigInt::from(30 + g.below(12)),
        2 => g.below(400).into(),
        _ => g.below(1600).into(),
    }).collect();
    if shape == 1 {
        v.sort();
    } else if shape == 2 {
        v.sort();
        v.reverse();
    }
    r.extend(v);
    r
}

/// one history in this (fresh) process: the first element is the number of extra threads
pub fn hist(c: &[BigInt]) -> Res {
    let threads = us(&c[0]);
    let seq: Vec<usize> = c[1..].iter().map(us).collect();
    let go = |rot: usize| -> Res {
        for i in 0..seq.len() {
            let n = seq[(i + rot) % seq.len()];
            let r = D::sqrt_2(n);
            constant("sqrt_2", &r, n)?;
            let r = D::natural_log_of_2(n);
            constant("natural_log_of_2", &r, n)?;
        }
        Ok(())
    };
    if threads == 0 {
        go(0)?;
        return go(seq.len() / 2);
    }
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..=threads).map(|t| s.spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(t))))).collect();
        for h in hs {
            match h.join() {
                Ok(Ok(r)) => r?,
                _ => return Err("a request panicked".to_string()),
            }
        }
        Ok(())
    })
}

fn hist_child(c: &[BigInt]) -> Res {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).arg("cachehist").args(c.iter().map(|x| x.to_string())).output().map_err(|e| e.to_string())?;
    if o.status.success() {
        Ok(())
    } else {
        Err(format!("request history (first number = extra threads): {}", String::from_utf8_lossy(&o.stdout).trim()))
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { name: "trans.exp", gen: gen_exp, run: exp, weight: 3 },
        Check { name: "trans.log", gen: gen_log, run: log, weight: 3 },
        Check { name: "trans.agm", gen: gen_agm, run: agm, weight: 2 },
        Check { name: "trans.const", gen: gen_const, run: consts, weight: 1 },
        Check { name: "cache.history", gen: gen_hist, run: hist_child, weight: 2 },
    ]
}
