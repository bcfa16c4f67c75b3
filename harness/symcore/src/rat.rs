//! Exact rationals with a fast path for small values.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub enum Rat {
    S(i64, i64), // reduced, den > 0
    B(Box<BigRational>),
}
use Rat::*;

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        if a <= u64::MAX as u128 {
            let (mut x, mut y) = (a as u64, b as u64);
            if b > u64::MAX as u128 {
                let t = a % b;
                a = b;
                b = t;
                continue;
            }
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return x as i128;
        }
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Rat {
    pub fn int(n: i64) -> Rat {
        if n == i64::MIN {
            Rat::from_big(BigRational::from_integer(n.into()))
        } else {
            S(n, 1)
        }
    }
    pub fn new(n: i64, d: i64) -> Rat {
        Rat::norm(n as i128, d as i128)
    }
    pub fn zero() -> Rat {
        S(0, 1)
    }
    pub fn one() -> Rat {
        S(1, 1)
    }
    fn norm(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        const L: i128 = i64::MAX as i128;
        if n <= L && n >= -L && d <= L {
            S(n as i64, d as i64)
        } else {
            B(Box::new(BigRational::new(n.into(), d.into())))
        }
    }
    pub fn from_big(b: BigRational) -> Rat {
        if let (Some(n), Some(d)) = (b.numer().to_i64(), b.denom().to_i64()) {
            if n != i64::MIN {
                return S(n, d);
            }
        }
        B(Box::new(b))
    }
    pub fn big(&self) -> BigRational {
        match self {
            S(n, d) => BigRational::new_raw((*n).into(), (*d).into()),
            B(b) => (**b).clone(),
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, S(1, 1))
    }
    pub fn sign(&self) -> i32 {
        match self {
            S(n, _) => n.signum() as i32,
            B(b) => {
                if b.is_zero() {
                    0
                } else if b.is_negative() {
                    -1
                } else {
                    1
                }
            }
        }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if let (S(a, b), S(c, d)) = (self, o) {
            if *b == 1 && *d == 1 {
                return Rat::norm1(*a as i128 + *c as i128);
            }
            if let (Some(x), Some(y)) = (
                (*a as i128 * *d as i128).checked_add(*c as i128 * *b as i128),
                (*b as i128).checked_mul(*d as i128),
            ) {
                return Rat::norm(x, y);
            }
        }
        Rat::from_big(self.big() + o.big())
    }
    fn norm1(n: i128) -> Rat {
        const L: i128 = i64::MAX as i128;
        if n <= L && n >= -L {
            S(n as i64, 1)
        } else {
            B(Box::new(BigRational::from_integer(n.into())))
        }
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        if let (S(a, b), S(c, d)) = (self, o) {
            if *b == 1 && *d == 1 {
                return Rat::norm1(*a as i128 * *c as i128);
            }
            return Rat::norm(*a as i128 * *c as i128, *b as i128 * *d as i128);
        }
        Rat::from_big(self.big() * o.big())
    }
    pub fn neg(&self) -> Rat {
        match self {
            S(n, d) => S(-n, *d),
            B(b) => B(Box::new(-(**b).clone())),
        }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn inv(&self) -> Rat {
        match self {
            S(n, d) => {
                assert!(*n != 0);
                if *n < 0 {
                    S(-d, -n)
                } else {
                    S(*d, *n)
                }
            }
            B(b) => Rat::from_big(b.recip()),
        }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn numer(&self) -> BigInt {
        match self {
            S(n, _) => (*n).into(),
            B(b) => b.numer().clone(),
        }
    }
    pub fn denom(&self) -> BigInt {
        match self {
            S(_, d) => (*d).into(),
            B(b) => b.denom().clone(),
        }
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            S(n, d) => *n as f64 / *d as f64,
            B(b) => b.to_f64().unwrap_or(f64::NAN),
        }
    }
    pub fn pow(&self, e: u32) -> Rat {
        let mut r = Rat::one();
        for _ in 0..e {
            r = r.mul(self)
        }
        r
    }
    /// Exact square root when it exists.
    pub fn sqrt_exact(&self) -> Option<Rat> {
        if self.sign() < 0 {
            return None;
        }
        let (n, d) = (self.numer(), self.denom());
        let (a, b) = (n.sqrt(), d.sqrt());
        if &a * &a == n && &b * &b == d {
            Some(Rat::from_big(BigRational::new(a, b)))
        } else {
            None
        }
    }
    /// The rational a floating-point literal denotes: the simplest rational that rounds to exactly this double
    /// when its denominator is small or a power of ten, and the exact dyadic value otherwise.
    pub fn from_f64(x: f64) -> Rat {
        assert!(x.is_finite());
        let exact = BigRational::from_float(x).unwrap();
        if exact.denom() <= &BigInt::from(1u64 << 20) {
            return Rat::from_big(exact);
        }
        // continued fraction
        let (mut h0, mut h1) = (BigInt::zero(), BigInt::one());
        let (mut k0, mut k1) = (BigInt::one(), BigInt::zero());
        let mut r = exact.clone();
        loop {
            let a = r.numer().div_floor(r.denom());
            let h = &a * &h1 + &h0;
            let k = &a * &k1 + &k0;
            h0 = h1;
            h1 = h;
            k0 = k1;
            k1 = k;
            if k1 > BigInt::from(100_000) {
                break;
            }
            let c = BigRational::new(h1.clone(), k1.clone());
            if c.to_f64() == Some(x) {
                return Rat::from_big(c);
            }
            let f = r - BigRational::from_integer(a);
            if f.is_zero() {
                break;
            }
            r = f.recip();
        }
        let s = format!("{:e}", x); // shortest decimal that round-trips
        if let Some((m, e)) = s.split_once('e') {
            let digits = m.trim_start_matches('-').replace('.', "");
            if digits.len() <= 6 {
                let neg = m.starts_with('-');
                let frac = m.split_once('.').map_or(0, |p| p.1.len() as i32);
                let e: i32 = e.parse::<i32>().unwrap() - frac;
                let n: BigInt = digits.parse().unwrap();
                let p = num_traits::pow(BigInt::from(10), e.unsigned_abs() as usize);
                let v = if e >= 0 {
                    BigRational::from_integer(n * p)
                } else {
                    BigRational::new(n, p)
                };
                return Rat::from_big(if neg { -v } else { v });
            }
        }
        Rat::from_big(exact)
    }
    pub fn smt(&self) -> String {
        let n = self.numer();
        let d = self.denom();
        let a = if n.is_negative() {
            format!("(- {}.0)", n.abs())
        } else {
            format!("{}.0", n)
        };
        if d.is_one() {
            a
        } else {
            format!("(/ {} {}.0)", a, d)
        }
    }
}
impl PartialEq for Rat {
    fn eq(&self, o: &Rat) -> bool {
        match (self, o) {
            (S(a, b), S(c, d)) => a == c && b == d,
            (B(a), B(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for Rat {}
impl Hash for Rat {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            S(a, b) => {
                a.hash(h);
                b.hash(h)
            }
            B(b) => b.hash(h),
        }
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering {
        match (self, o) {
            (S(a, b), S(c, d)) => (*a as i128 * *d as i128).cmp(&(*c as i128 * *b as i128)),
            _ => self.big().cmp(&o.big()),
        }
    }
}
impl std::fmt::Display for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            S(n, 1) => write!(f, "{}", n),
            S(n, d) => write!(f, "{}/{}", n, d),
            B(b) => write!(f, "{}", b),
        }
    }
}
