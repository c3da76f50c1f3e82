use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Q = Ratio<BigInt>;
pub type Res = Result<(), String>;

/// splitmix64
pub struct G {
    pub s: u64,
    pub points: Vec<BigInt>,
}

impl G {
    pub fn new(seed: u64, points: Vec<BigInt>) -> Self {
        G { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, points }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.below((hi - lo + 1) as u64) as i64)
    }
    pub fn bits(&mut self, n: u64) -> BigInt {
        let mut r = BigInt::zero();
        for _ in 0..(n + 63) / 64 {
            r = (r << 64usize) + BigInt::from(self.u64());
        }
        r % (BigInt::one() << n as usize)
    }
    /// signed integer biased to small and edge values
    pub fn int(&mut self) -> BigInt {
        if !self.points.is_empty() && self.below(4) == 0 {
            let i = self.below(self.points.len() as u64) as usize;
            return self.points[i].clone() + self.range(-1, 1);
        }
        match self.below(8) {
            0..=3 => BigInt::from(self.range(-9, 9)),
            4 => BigInt::from(self.range(-300, 300)),
            5 => {
                let k = self.below(70);
                let v = (BigInt::one() << k as usize) + self.range(-1, 1);
                if self.below(2) == 0 { v } else { -v }
            }
            _ => {
                let k = 1 + self.below(100);
                let v = self.bits(k);
                if self.below(2) == 0 { v } else { -v }
            }
        }
    }
    pub fn nat(&mut self) -> BigInt {
        self.int().abs()
    }
    pub fn pos(&mut self) -> BigInt {
        let v = self.int().abs();
        if v.is_zero() { BigInt::one() } else { v }
    }
    /// small precision
    pub fn prec(&mut self) -> BigInt {
        if !self.points.is_empty() && self.below(4) == 0 {
            let i = self.below(self.points.len() as u64) as usize;
            if let Some(v) = self.points[i].to_u32() {
                if v < 200 {
                    return v.into();
                }
            }
        }
        match self.below(6) {
            0..=3 => BigInt::from(self.below(6)),
            4 => BigInt::from(self.below(40)),
            _ => BigInt::from(self.below(130)),
        }
    }
}

pub struct Check {
    pub name: &'static str,
    pub gen: fn(&mut G) -> Vec<BigInt>,
    pub run: fn(&[BigInt]) -> Res,
    /// relative cost: how many evaluations per time slice matter less than the time budget
    pub weight: u32,
}

pub fn us(v: &BigInt) -> usize {
    v.to_usize().expect("usize case component")
}

/// run f, None when it panicked
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn floor(q: &Q) -> BigInt {
    num_integer::Integer::div_floor(q.numer(), q.denom())
}
pub fn ceil(q: &Q) -> BigInt {
    -num_integer::Integer::div_floor(&-q.numer(), q.denom())
}
pub fn qi(v: &BigInt) -> Q {
    Q::from_integer(v.clone())
}
pub fn p2(n: usize) -> BigInt {
    BigInt::one() << n
}
