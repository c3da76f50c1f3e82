//! entry points: polynomial arithmetic over integers and fractions
use algebraics::polynomial::*;
use algebraics::traits::*;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedRem, CheckedSub, One, Pow, Zero};
use std::borrow::Cow;
use std::ops::*;

type Q = Ratio<BigInt>;

macro_rules! forms {
    ($p:ident, $q:ident, $t:ty, $op:tt, $opa:tt) => {{
        let _ = $p.clone() $op $q.clone();
        let _ = $p.clone() $op &$q;
        let _ = &$p $op $q.clone();
        let _ = &$p $op &$q;
        let mut x = $p.clone();
        x $opa $q.clone();
        x $opa &$q;
    }};
}
macro_rules! single {
    ($p:ident, $c:ident, $op:tt, $opa:tt) => {{
        let _ = $p.clone() $op $c.clone();
        let _ = $p.clone() $op &$c;
        let _ = &$p $op $c.clone();
        let _ = &$p $op &$c;
        let mut x = $p.clone();
        x $opa $c.clone();
        x $opa &$c;
    }};
}

macro_rules! exact {
    ($p:ident, $q:ident) => {{
        let _ = $p.clone().exact_div(&$q);
        let _ = $p.clone().exact_div($q.clone());
        let _ = (&$p).exact_div(&$q);
        let _ = (&$p).exact_div($q.clone());
        let _ = $p.clone().checked_exact_div(&$q);
        let _ = $p.clone().checked_exact_div($q.clone());
        let _ = (&$p).checked_exact_div(&$q);
        let _ = (&$p).checked_exact_div($q.clone());
        let mut x = $p.clone();
        x.exact_div_assign(&$q);
        x.exact_div_assign($q.clone());
        let _ = x.checked_exact_div_assign(&$q);
        let _ = x.checked_exact_div_assign($q.clone());
    }};
}

macro_rules! common {
    ($name:ident, $t:ty) => {
        pub fn $name(p: Polynomial<$t>, q: Polynomial<$t>, c: $t, v: Vec<$t>, n: usize, el: (Vec<BigInt>, <$t as PolynomialCoefficient>::Divisor)) {
            forms!(p, q, $t, +, +=);
            forms!(p, q, $t, -, -=);
            forms!(p, q, $t, *, *=);
            single!(p, c, +, +=);
            single!(p, c, -, -=);
            single!(p, c, *, *=);
            let _ = p.checked_add(&q);
            let _ = p.checked_sub(&q);
            let _ = p.checked_mul(&q);
            let _ = -p.clone();
            let _ = -&p;
            let mut x = p.clone();
            x.negate();
            x.set_zero();
            One::set_one(&mut x);
            let _ = x.set_one_if_nonzero();
            let _ = (p.is_zero(), p.is_empty(), p.len(), p.degree(), p.is_one());
            let _ = p == q;
            let _ = (p.coefficient(n), p.nonzero_coefficient(n), p.highest_power_coefficient(), p.nonzero_highest_power_coefficient());
            let _ = Polynomial::<$t>::from(el);
            let _ = Polynomial::<$t>::from(c.clone());
            let _ = Polynomial::<$t>::from(&c);
            let _ = Polynomial::<$t>::from(v.clone());
            let _ = Polynomial::<$t>::from(&v[..]);
            let _ = Polynomial::<$t>::make_monomial(c.clone(), n);
            let _ = Polynomial::<$t>::zero();
            let _ = Polynomial::<$t>::one();
            let _ = (p.derivative(), p.clone().into_derivative());
            let _ = (p.eval(&c), p.clone().into_eval(&c));
            let _ = (&p).pow(n);
            let _ = p.clone().pow(n);
            let mut x = p.clone();
            let _ = p.to_one_if_nonzero();
            let _ = p.clone().into_one_if_nonzero();
            let _ = p.clone().checked_pseudo_div_rem(&q);
            let _ = p.clone().pseudo_div_rem(&q);
            let _ = p.clone().exact_pseudo_div(&q);
            let _ = p.clone().checked_exact_pseudo_div(&q);
            let _ = p.clone().checked_div_rem(&q);
            let _ = p.clone().div_rem(&q);
            exact!(p, q);
            exact!(p, c);
            single!(p, c, /, /=);
            let _ = (p.content(), p.primitive_part(), p.reducing_factor(), p.to_reduced());
            let _ = (p.max_norm(), p.manhattan_norm());
            let _ = p.clone().resultant(q.clone());
            let _ = p.to_primitive_sturm_sequence();
            let _ = p.clone().subresultant_gcd(q.clone());
        }
    };
}
common!(int, BigInt);
common!(frac, Q);

pub fn field(p: Polynomial<Q>, q: Polynomial<Q>, c: Q, n: usize) {
    forms!(p, q, Q, /, /=);
    forms!(p, q, Q, %, %=);
    let _ = p.checked_div(&q);
    let _ = p.checked_rem(&q);
    let _ = p.gcd(&q);
    let _ = (p.gcd_lcm(&q), p.lcm(&q), p.extended_gcd(&q), p.extended_gcd_lcm(&q));
    let _ = p.to_sturm_sequence();
    let _ = p.square_free_factorization_using_yuns_algorithm();
    let _ = p.is_square_free();
    let _ = p.clone().into_monic();
    let _ = p.checked_powmod(n, &q);
    let _ = p.powmod(n, &q);
    let _ = Cow::Borrowed(&p);
}
