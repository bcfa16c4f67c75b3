//! `Sym`: a scalar type under which the real generic code runs symbolically.
use crate::engine::{engine, F, NEG, POS, ZER};
use crate::rat::Rat;
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::{ComplexField, Field, RealField, SubsetOf};
use simba::simd::{PrimitiveSimdValue, SimdValue};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

pub fn rat(r: Rat) -> Sym {
    Sym(engine().konst(r))
}
pub fn int(n: i64) -> Sym {
    rat(Rat::int(n))
}
fn decide(t: Sym, set: u8) -> bool {
    let r = {
        let mut e = engine();
        e.decide(t.0, set)
    };
    match r {
        Ok(b) => b,
        Err(p) => std::panic::resume_unwind(Box::new(p)),
    }
}
fn fun(f: F, a: Sym) -> Sym {
    let mut e = engine();
    let z = e.konst(Rat::zero());
    Sym(e.fun(f, a.0, z))
}
fn huge_cmp(a: Sym, b: Sym) -> Sym {
    // difference used by comparisons; equal huge values compare equal
    a - b
}
pub fn lt(a: Sym, b: Sym) -> bool {
    decide(huge_cmp(a, b), NEG)
}
pub fn le(a: Sym, b: Sym) -> bool {
    decide(huge_cmp(a, b), NEG | ZER)
}
pub fn eq(a: Sym, b: Sym) -> bool {
    if a.0 == b.0 {
        return true;
    }
    decide(huge_cmp(a, b), ZER)
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut e = engine();
        match e.nf(self.0) {
            Some(r) => {
                let d = e.factors.expand(&r.den);
                if d.as_const().is_some() {
                    write!(f, "{}", e.show_poly(&r.num))
                } else {
                    write!(f, "({})/({})", e.show_poly(&r.num), e.show_poly(&d))
                }
            }
            None => write!(f, "{:?}", e.nodes[self.0 as usize]),
        }
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        int(0)
    }
}
macro_rules! bin {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $e:ident) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                Sym(engine().$e(self.0, o.0))
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                Sym(engine().$e(self.0, o.0))
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                Sym(engine().$e(self.0, o.0))
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: &'b Sym) -> Sym {
                Sym(engine().$e(self.0, o.0))
            }
        }
        impl $tra for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = Sym(engine().$e(self.0, o.0))
            }
        }
        impl<'a> $tra<&'a Sym> for Sym {
            fn $ma(&mut self, o: &'a Sym) {
                *self = Sym(engine().$e(self.0, o.0))
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, add);
bin!(Sub, sub, SubAssign, sub_assign, sub);
bin!(Mul, mul, MulAssign, mul_assign, mul);
bin!(Div, div, DivAssign, div_assign, div);
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        let q = (self / o).trunc();
        self - q * o
    }
}
impl RemAssign for Sym {
    fn rem_assign(&mut self, o: Sym) {
        *self = *self % o
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(engine().neg(self.0))
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(int(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(int(0), |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(int(1), |a, b| a * b)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        int(0)
    }
    fn is_zero(&self) -> bool {
        decide(*self, ZER)
    }
}
impl One for Sym {
    fn one() -> Sym {
        int(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, radix: u32) -> Result<Sym, ()> {
        if radix == 10 {
            s.parse::<f64>().map(|x| rat(Rat::from_f64(x))).map_err(|_| ())
        } else {
            Err(())
        }
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        if decide(*self, NEG) {
            -*self
        } else {
            *self
        }
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        if le(*self, *o) {
            int(0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Sym {
        if decide(*self, NEG) {
            int(-1)
        } else {
            int(1)
        }
    }
    fn is_positive(&self) -> bool {
        decide(*self, POS)
    }
    fn is_negative(&self) -> bool {
        decide(*self, NEG)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        eq(*self, *o)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.0 == o.0 {
            return Some(Ordering::Equal);
        }
        let d = huge_cmp(*self, *o);
        if decide(d, NEG) {
            Some(Ordering::Less)
        } else if decide(d, ZER) {
            Some(Ordering::Equal)
        } else if decide(d, POS) {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        lt(*self, *o)
    }
    fn le(&self, o: &Sym) -> bool {
        self.0 == o.0 || le(*self, *o)
    }
    fn gt(&self, o: &Sym) -> bool {
        lt(*o, *self)
    }
    fn ge(&self, o: &Sym) -> bool {
        self.0 == o.0 || le(*o, *self)
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(int(n))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        i64::try_from(n).ok().map(int)
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Some(from_f64(n))
    }
    fn from_f32(n: f32) -> Option<Sym> {
        Some(from_f64(n as f64))
    }
}
pub fn from_f64(x: f64) -> Sym {
    if x.is_nan() {
        Sym(engine().poison())
    } else if x.is_infinite() || x.abs() >= 1e300 {
        Sym(engine().mk(crate::engine::Node::Huge(x > 0.0)))
    } else if x == std::f64::consts::PI {
        pi()
    } else {
        rat(Rat::from_f64(x))
    }
}
fn pi() -> Sym {
    Sym(engine().var_named("pi"))
}
impl SubsetOf<Sym> for f64 {
    fn to_superset(&self) -> Sym {
        from_f64(*self)
    }
    fn from_superset_unchecked(e: &Sym) -> f64 {
        to_const(*e).expect("conversion of a symbolic value to f64")
    }
    fn is_in_subset(e: &Sym) -> bool {
        to_const(*e).is_some()
    }
}
impl SubsetOf<Sym> for f32 {
    fn to_superset(&self) -> Sym {
        from_f64(*self as f64)
    }
    fn from_superset_unchecked(e: &Sym) -> f32 {
        to_const(*e).expect("conversion of a symbolic value to f32") as f32
    }
    fn is_in_subset(e: &Sym) -> bool {
        to_const(*e).is_some()
    }
}
pub fn to_const(e: Sym) -> Option<f64> {
    let mut g = engine();
    g.nf(e.0).and_then(|r| r.as_const()).map(|c| c.to_f64())
}
impl SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym {
        *self
    }
    fn from_superset_unchecked(e: &Sym) -> Sym {
        *e
    }
    fn is_in_subset(_: &Sym) -> bool {
        true
    }
}
impl SimdValue for Sym {
    type Element = Sym;
    type SimdBool = bool;
    fn lanes() -> usize {
        1
    }
    fn splat(v: Sym) -> Sym {
        v
    }
    fn extract(&self, _: usize) -> Sym {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Sym {
        *self
    }
    fn replace(&mut self, _: usize, v: Sym) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Sym) {
        *self = v
    }
    fn select(self, c: bool, o: Sym) -> Sym {
        if c {
            self
        } else {
            o
        }
    }
}
impl PrimitiveSimdValue for Sym {}
impl Field for Sym {}
impl AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        from_f64(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Sym, e: Sym) -> bool {
        le(Signed::abs(&(*self - *o)), e)
    }
}
impl RelativeEq for Sym {
    fn default_max_relative() -> Sym {
        from_f64(f64::EPSILON)
    }
    fn relative_eq(&self, o: &Sym, e: Sym, r: Sym) -> bool {
        if eq(*self, *o) {
            return true;
        }
        let d = Signed::abs(&(*self - *o));
        if le(d, e) {
            return true;
        }
        let (a, b) = (Signed::abs(self), Signed::abs(o));
        let l = if lt(a, b) { b } else { a };
        le(d, l * r)
    }
}
impl UlpsEq for Sym {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Sym, e: Sym, _: u32) -> bool {
        le(Signed::abs(&(*self - *o)), e)
    }
}
/// max / min as an atom constrained by its defining axioms, when the contract asks for it and the order is not already known
fn lazy(f: F, a: Sym, b: Sym) -> Option<Sym> {
    let mut e = engine();
    if !e.lazy_max || a.0 == b.0 {
        return None;
    }
    let d = e.sub(a.0, b.0);
    let (m, _) = e.sign_mask(d);
    if m == 0 || m & POS == 0 || m & NEG == 0 {
        return None;
    }
    Some(Sym(e.fun(f, a.0, b.0)))
}
fn unsupported(what: &str) -> ! {
    std::panic::resume_unwind(Box::new(crate::engine::PathAbort(format!("unsupported operation {}", what))))
}
impl ComplexField for Sym {
    type RealField = Sym;
    fn from_real(re: Sym) -> Sym {
        re
    }
    fn real(self) -> Sym {
        self
    }
    fn imaginary(self) -> Sym {
        int(0)
    }
    fn modulus(self) -> Sym {
        Signed::abs(&self)
    }
    fn modulus_squared(self) -> Sym {
        self * self
    }
    fn argument(self) -> Sym {
        if decide(self, NEG) {
            pi()
        } else {
            int(0)
        }
    }
    fn norm1(self) -> Sym {
        Signed::abs(&self)
    }
    fn scale(self, f: Sym) -> Sym {
        self * f
    }
    fn unscale(self, f: Sym) -> Sym {
        self / f
    }
    fn floor(self) -> Sym {
        fun(F::Floor, self)
    }
    fn ceil(self) -> Sym {
        -fun(F::Floor, -self)
    }
    fn round(self) -> Sym {
        if decide(self, NEG) {
            -fun(F::Floor, -self + rat(Rat::new(1, 2)))
        } else {
            fun(F::Floor, self + rat(Rat::new(1, 2)))
        }
    }
    fn trunc(self) -> Sym {
        if decide(self, NEG) {
            -fun(F::Floor, -self)
        } else {
            fun(F::Floor, self)
        }
    }
    fn fract(self) -> Sym {
        self - self.trunc()
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn abs(self) -> Sym {
        Signed::abs(&self)
    }
    fn hypot(self, o: Sym) -> Sym {
        ComplexField::sqrt(self * self + o * o)
    }
    fn recip(self) -> Sym {
        int(1) / self
    }
    fn conjugate(self) -> Sym {
        self
    }
    fn sin(self) -> Sym {
        fun(F::Sin, self)
    }
    fn cos(self) -> Sym {
        fun(F::Cos, self)
    }
    fn sin_cos(self) -> (Sym, Sym) {
        (fun(F::Sin, self), fun(F::Cos, self))
    }
    fn tan(self) -> Sym {
        fun(F::Sin, self) / fun(F::Cos, self)
    }
    fn asin(self) -> Sym {
        fun(F::Asin, self)
    }
    fn acos(self) -> Sym {
        fun(F::Acos, self)
    }
    fn atan(self) -> Sym {
        fun(F::Atan, self)
    }
    fn sinh(self) -> Sym {
        let e = fun(F::Exp, self);
        (e - int(1) / e) / int(2)
    }
    fn cosh(self) -> Sym {
        let e = fun(F::Exp, self);
        (e + int(1) / e) / int(2)
    }
    fn tanh(self) -> Sym {
        ComplexField::sinh(self) / ComplexField::cosh(self)
    }
    fn asinh(self) -> Sym {
        unsupported("asinh")
    }
    fn acosh(self) -> Sym {
        unsupported("acosh")
    }
    fn atanh(self) -> Sym {
        unsupported("atanh")
    }
    fn log(self, base: Sym) -> Sym {
        fun(F::Ln, self) / fun(F::Ln, base)
    }
    fn log2(self) -> Sym {
        fun(F::Ln, self) / fun(F::Ln, int(2))
    }
    fn log10(self) -> Sym {
        fun(F::Ln, self) / fun(F::Ln, int(10))
    }
    fn ln(self) -> Sym {
        fun(F::Ln, self)
    }
    fn ln_1p(self) -> Sym {
        fun(F::Ln, int(1) + self)
    }
    fn sqrt(self) -> Sym {
        fun(F::Sqrt, self)
    }
    fn exp(self) -> Sym {
        fun(F::Exp, self)
    }
    fn exp2(self) -> Sym {
        fun(F::Exp, self * fun(F::Ln, int(2)))
    }
    fn exp_m1(self) -> Sym {
        fun(F::Exp, self) - int(1)
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = int(1);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            int(1) / r
        } else {
            r
        }
    }
    fn powf(self, n: Sym) -> Sym {
        if let Some(c) = to_const(n) {
            if c == 0.5 {
                return ComplexField::sqrt(self);
            }
            if c == -0.5 {
                return int(1) / ComplexField::sqrt(self);
            }
            if c == c.trunc() && c.abs() < 64.0 {
                return ComplexField::powi(self, c as i32);
            }
        }
        Sym(engine().fun(F::Pow, self.0, n.0))
    }
    fn powc(self, n: Sym) -> Sym {
        ComplexField::powf(self, n)
    }
    fn cbrt(self) -> Sym {
        fun(F::Cbrt, self)
    }
    fn is_finite(&self) -> bool {
        !matches!(engine().nodes[self.0 as usize], crate::engine::Node::Huge(_) | crate::engine::Node::Poison)
    }
    fn try_sqrt(self) -> Option<Sym> {
        if decide(self, NEG) {
            None
        } else {
            Some(ComplexField::sqrt(self))
        }
    }
}
impl RealField for Sym {
    fn is_sign_positive(&self) -> bool {
        decide(*self, POS | ZER)
    }
    fn is_sign_negative(&self) -> bool {
        decide(*self, NEG)
    }
    fn copysign(self, s: Sym) -> Sym {
        let a = Signed::abs(&self);
        if decide(s, NEG) {
            -a
        } else {
            a
        }
    }
    fn max(self, o: Sym) -> Sym {
        if let Some(r) = lazy(F::Max, self, o) {
            return r;
        }
        if lt(self, o) {
            o
        } else {
            self
        }
    }
    fn min(self, o: Sym) -> Sym {
        if let Some(r) = lazy(F::Min, self, o) {
            return r;
        }
        if lt(o, self) {
            o
        } else {
            self
        }
    }
    fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        if lt(self, lo) {
            lo
        } else if lt(hi, self) {
            hi
        } else {
            self
        }
    }
    fn atan2(self, o: Sym) -> Sym {
        Sym(engine().fun(F::Atan2, self.0, o.0))
    }
    fn min_value() -> Option<Sym> {
        Some(Sym(engine().mk(crate::engine::Node::Huge(false))))
    }
    fn max_value() -> Option<Sym> {
        Some(Sym(engine().mk(crate::engine::Node::Huge(true))))
    }
    fn pi() -> Sym {
        pi()
    }
    fn two_pi() -> Sym {
        pi() * int(2)
    }
    fn frac_pi_2() -> Sym {
        pi() / int(2)
    }
    fn frac_pi_3() -> Sym {
        pi() / int(3)
    }
    fn frac_pi_4() -> Sym {
        pi() / int(4)
    }
    fn frac_pi_6() -> Sym {
        pi() / int(6)
    }
    fn frac_pi_8() -> Sym {
        pi() / int(8)
    }
    fn frac_1_pi() -> Sym {
        int(1) / pi()
    }
    fn frac_2_pi() -> Sym {
        int(2) / pi()
    }
    fn frac_2_sqrt_pi() -> Sym {
        int(2) / ComplexField::sqrt(pi())
    }
    fn e() -> Sym {
        fun(F::Exp, int(1))
    }
    fn log2_e() -> Sym {
        int(1) / fun(F::Ln, int(2))
    }
    fn log10_e() -> Sym {
        int(1) / fun(F::Ln, int(10))
    }
    fn ln_2() -> Sym {
        fun(F::Ln, int(2))
    }
    fn ln_10() -> Sym {
        fun(F::Ln, int(10))
    }
}
