use crate::ck;
use crate::g::*;
use algebraics::util::{is_prime_u32, next_prime_i32, next_prime_u32, prev_prime_i32, prev_prime_u32};
use num_bigint::BigInt;
use num_traits::ToPrimitive;

/// deterministic Miller-Rabin, exact below 3.2e9 * ... for u32 with bases 2, 7, 61
fn prime(n: u32) -> bool {
    if n < 2 { return false; }
    for p in [2u32, 3, 5, 7, 11, 13] {
        if n % p == 0 { return n == p; }
    }
    let (mut d, mut r) = (n - 1, 0);
    while d % 2 == 0 { d /= 2; r += 1; }
    'b: for a in [2u64, 7, 61] {
        let m = n as u64;
        if a % m == 0 { continue; }
        let (mut x, mut e, mut b) = (1u64, d, a);
        while e > 0 { if e & 1 == 1 { x = x * b % m; } b = b * b % m; e >>= 1; }
        if x == 1 || x == m - 1 { continue; }
        for _ in 1..r { x = x * x % m; if x == m - 1 { continue 'b; } }
        return false;
    }
    true
}

/// every square of a prime, product with the following prime, and small value in turn
fn systematic() -> Option<u32> {
    use std::sync::atomic::{AtomicU32, Ordering};
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed) % (3 * 65536);
    let (k, i) = (n % 3, n / 3);
    if k == 0 { return Some(i); }
    if i < 2 || !prime(i) { return None; }
    let q = if k == 1 { i } else { (i + 1..).find(|&q| prime(q)).unwrap() };
    i.checked_mul(q)
}

fn gen(g: &mut G) -> Vec<BigInt> {
    if g.below(2) == 0 {
        if let Some(v) = systematic() { return vec![v.into()]; }
    }
    let v: u32 = match g.below(6) {
        0 => g.below(200) as u32,
        1 => u32::MAX - g.below(300) as u32,
        2 => (i32::MAX as u32).wrapping_add(g.range(-200, 200) as u32),
        3 => {
            // near products of table primes and squares of primes around 2^16
            let p = 65536 - g.below(3000);
            let q = 65536 - g.below(3000);
            ((p * q) as u32).wrapping_add(g.range(-1, 1) as u32)
        }
        4 => { let k = g.below(17); let p = (1u64 << k) + g.below(1 << k); (p * p + g.below(3)).min(u32::MAX as u64) as u32 }
        _ => g.u64() as u32,
    };
    vec![v.into()]
}

fn run(c: &[BigInt]) -> Res {
    let v = c[0].to_u32().unwrap();
    ck!(is_prime_u32(v) == prime(v), "is_prime_u32({}) = {}", v, is_prime_u32(v));
    let prev = |v: u32| { let mut k = v; while k > 0 { k -= 1; if prime(k) { return Some(k); } } None };
    let next = |v: u32, max: u32| { let mut k = v; while k < max { k += 1; if prime(k) { return Some(k); } } None };
    ck!(prev_prime_u32(v) == prev(v), "prev_prime_u32({}) = {:?}", v, prev_prime_u32(v));
    ck!(next_prime_u32(v) == next(v, u32::MAX), "next_prime_u32({}) = {:?}", v, next_prime_u32(v));
    let s = v as i32;
    let w = if s.is_negative() { None } else { prev(v).map(|x| x as i32) };
    ck!(prev_prime_i32(s) == w, "prev_prime_i32({}) = {:?}", s, prev_prime_i32(s));
    let w = if s.is_negative() { Some(2) } else { next(v, i32::MAX as u32).map(|x| x as i32) };
    ck!(next_prime_i32(s) == w, "next_prime_i32({}) = {:?}", s, next_prime_i32(s));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check { name: "prime.u32", gen, run, weight: 1 }]
}
