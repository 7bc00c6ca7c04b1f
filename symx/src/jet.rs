//! `Jet<F>`: forward-mode dual numbers, the independent oracle for derivatives.  Evaluating the
//! library's own function nodes on jets gives the value and its directional derivative by the
//! chain rule written down here, without going through the library's adjoint operators.
use crate::fld::Base;
use num_traits::{Float, FromPrimitive, Num, NumCast, One, Pow, ToPrimitive, Zero};
use special_fun::FloatSpecial;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Jet<F> {
    pub v: F,
    pub d: F,
}

pub fn jet<F>(v: F, d: F) -> Jet<F> {
    Jet { v, d }
}

impl<F: Base> Jet<F> {
    fn k(v: F) -> Jet<F> {
        Jet { v, d: F::zero() }
    }
    fn chain(self, v: F, slope: F) -> Jet<F> {
        Jet { v, d: slope * self.d }
    }
}

impl<F: std::fmt::Debug> std::fmt::Debug for Jet<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{:?}; {:?}>", self.v, self.d)
    }
}

impl<F: std::fmt::Display> std::fmt::Display for Jet<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}; {}>", self.v, self.d)
    }
}

impl<F: Base> PartialEq for Jet<F> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v && self.d == o.d
    }
}

impl<F: Base> PartialOrd for Jet<F> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.v.partial_cmp(&o.v)
    }
    fn lt(&self, o: &Self) -> bool {
        self.v < o.v
    }
    fn le(&self, o: &Self) -> bool {
        self.v <= o.v
    }
    fn gt(&self, o: &Self) -> bool {
        self.v > o.v
    }
    fn ge(&self, o: &Self) -> bool {
        self.v >= o.v
    }
}

impl<F: Base> Add for Jet<F> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        jet(self.v + o.v, self.d + o.d)
    }
}
impl<F: Base> Sub for Jet<F> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        jet(self.v - o.v, self.d - o.d)
    }
}
impl<F: Base> Mul for Jet<F> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        jet(self.v * o.v, self.d * o.v + self.v * o.d)
    }
}
impl<F: Base> Div for Jet<F> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        let q = self.v / o.v;

        jet(q, (self.d - q * o.d) / o.v)
    }
}
impl<F: Base> Rem for Jet<F> {
    type Output = Self;
    fn rem(self, _: Self) -> Self {
        panic!("symx: remainder is outside the encoded fragment")
    }
}
impl<F: Base> Neg for Jet<F> {
    type Output = Self;
    fn neg(self) -> Self {
        jet(-self.v, -self.d)
    }
}
impl<F: Base> Zero for Jet<F> {
    fn zero() -> Self {
        Jet::k(F::zero())
    }
    fn is_zero(&self) -> bool {
        self.v.is_zero() && self.d.is_zero()
    }
}
impl<F: Base> One for Jet<F> {
    fn one() -> Self {
        Jet::k(F::one())
    }
}
impl<F: Base> Num for Jet<F> {
    type FromStrRadixErr = String;
    fn from_str_radix(_: &str, _: u32) -> Result<Self, String> {
        Err("unsupported".into())
    }
}
impl<F: Base> ToPrimitive for Jet<F> {
    fn to_i64(&self) -> Option<i64> {
        self.v.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.v.to_u64()
    }
}
impl<F: Base> NumCast for Jet<F> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        <F as NumCast>::from(n).map(Jet::k)
    }
}
impl<F: Base> FromPrimitive for Jet<F> {
    fn from_i64(n: i64) -> Option<Self> {
        F::from_i64(n).map(Jet::k)
    }
    fn from_u64(n: u64) -> Option<Self> {
        F::from_u64(n).map(Jet::k)
    }
    fn from_f64(n: f64) -> Option<Self> {
        F::from_f64(n).map(Jet::k)
    }
}
impl<F: Base> Pow<Jet<F>> for Jet<F> {
    type Output = Self;
    fn pow(self, e: Self) -> Self {
        self.powf(e)
    }
}

impl<F: Base> Float for Jet<F> {
    fn nan() -> Self {
        Jet::k(F::nan())
    }
    fn infinity() -> Self {
        Jet::k(F::infinity())
    }
    fn neg_infinity() -> Self {
        Jet::k(F::neg_infinity())
    }
    fn neg_zero() -> Self {
        Jet::k(F::neg_zero())
    }
    fn min_value() -> Self {
        Jet::k(<F as Float>::min_value())
    }
    fn min_positive_value() -> Self {
        Jet::k(F::min_positive_value())
    }
    fn max_value() -> Self {
        Jet::k(<F as Float>::max_value())
    }
    fn epsilon() -> Self {
        Jet::k(F::epsilon())
    }
    fn is_nan(self) -> bool {
        self.v.is_nan()
    }
    fn is_infinite(self) -> bool {
        self.v.is_infinite()
    }
    fn is_finite(self) -> bool {
        self.v.is_finite()
    }
    fn is_normal(self) -> bool {
        self.v.is_normal()
    }
    fn classify(self) -> std::num::FpCategory {
        self.v.classify()
    }
    fn floor(self) -> Self {
        Jet::k(self.v.floor())
    }
    fn ceil(self) -> Self {
        Jet::k(self.v.ceil())
    }
    fn round(self) -> Self {
        Jet::k(self.v.round())
    }
    fn trunc(self) -> Self {
        Jet::k(self.v.trunc())
    }
    fn fract(self) -> Self {
        jet(self.v.fract(), self.d)
    }
    fn abs(self) -> Self {
        self.chain(self.v.abs(), self.v.signum())
    }
    fn signum(self) -> Self {
        Jet::k(self.v.signum())
    }
    fn is_sign_positive(self) -> bool {
        self.v.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.v.is_sign_negative()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
    }
    fn recip(self) -> Self {
        Jet::k(F::one()) / self
    }
    fn powi(self, n: i32) -> Self {
        let k = F::from_i64(n as i64).unwrap();

        self.chain(self.v.powi(n), k * self.v.powi(n - 1))
    }
    fn powf(self, e: Self) -> Self {
        let p = self.v.powf(e.v);
        let base = e.v * self.v.powf(e.v - F::one()) * self.d;

        // d/de x^e = x^e ln x; absent (not merely zero) when the exponent does not depend on the
        // differentiation variable, where x <= 0 is fine.
        if e.d.surely_zero() {
            jet(p, base)
        } else {
            jet(p, base + p * self.v.ln() * e.d)
        }
    }
    fn sqrt(self) -> Self {
        let r = self.v.sqrt();

        self.chain(r, (r + r).recip())
    }
    fn exp(self) -> Self {
        let r = self.v.exp();

        self.chain(r, r)
    }
    fn exp2(self) -> Self {
        Jet::k(F::one() + F::one()).powf(self)
    }
    fn ln(self) -> Self {
        jet(self.v.ln(), self.d / self.v)
    }
    fn log(self, b: Self) -> Self {
        self.ln() / b.ln()
    }
    fn log2(self) -> Self {
        self.ln() / Jet::k(F::from_i64(2).unwrap()).ln()
    }
    fn log10(self) -> Self {
        self.ln() / Jet::k(F::from_i64(10).unwrap()).ln()
    }
    fn max(self, o: Self) -> Self {
        if self.v < o.v {
            o
        } else {
            self
        }
    }
    fn min(self, o: Self) -> Self {
        if o.v < self.v {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Self) -> Self {
        if self.v <= o.v {
            Jet::zero()
        } else {
            self - o
        }
    }
    fn cbrt(self) -> Self {
        let r = self.v.cbrt();

        self.chain(r, (F::from_i64(3).unwrap() * r * r).recip())
    }
    fn hypot(self, o: Self) -> Self {
        (self * self + o * o).sqrt()
    }
    fn sin(self) -> Self {
        self.chain(self.v.sin(), self.v.cos())
    }
    fn cos(self) -> Self {
        self.chain(self.v.cos(), -self.v.sin())
    }
    fn tan(self) -> Self {
        self.sin() / self.cos()
    }
    fn asin(self) -> Self {
        self.chain(self.v.asin(), (F::one() - self.v * self.v).sqrt().recip())
    }
    fn acos(self) -> Self {
        self.chain(self.v.acos(), -(F::one() - self.v * self.v).sqrt().recip())
    }
    fn atan(self) -> Self {
        self.chain(self.v.atan(), (F::one() + self.v * self.v).recip())
    }
    fn atan2(self, o: Self) -> Self {
        let n = self.v * self.v + o.v * o.v;

        jet(self.v.atan2(o.v), (self.d * o.v - self.v * o.d) / n)
    }
    fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
    }
    fn exp_m1(self) -> Self {
        self.chain(self.v.exp_m1(), self.v.exp())
    }
    fn ln_1p(self) -> Self {
        jet(self.v.ln_1p(), self.d / (F::one() + self.v))
    }
    fn sinh(self) -> Self {
        self.chain(self.v.sinh(), self.v.cosh())
    }
    fn cosh(self) -> Self {
        self.chain(self.v.cosh(), self.v.sinh())
    }
    fn tanh(self) -> Self {
        let t = self.v.tanh();

        self.chain(t, F::one() - t * t)
    }
    fn asinh(self) -> Self {
        self.chain(self.v.asinh(), (self.v * self.v + F::one()).sqrt().recip())
    }
    fn acosh(self) -> Self {
        self.chain(self.v.acosh(), (self.v * self.v - F::one()).sqrt().recip())
    }
    fn atanh(self) -> Self {
        self.chain(self.v.atanh(), (F::one() - self.v * self.v).recip())
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        self.v.integer_decode()
    }
}

macro_rules! unsupported {
    ($($m:ident($($a:ident),*)),*) => {
        $(fn $m(self $(, $a: Self)*) -> Self {
            $(let _ = $a;)*
            panic!(concat!("symx: no derivative rule for ", stringify!($m)))
        })*
    };
}

impl<F: Base> FloatSpecial for Jet<F> {
    unsupported!(
        beta(b), betainc(a, b), betainc_inv(a, b), gammainc(a), gammac(a), gammac_inv(a),
        hyp1f1(a, b), hyp1f2(a, b, d), hyp2f1(a, b, d), hyp3f0(a, b, d), norm(), norm_inv(),
        besselj(v), bessely(v), besseli(v), riemann_zeta(), hurwitz_zeta(q), digamma(), erf(), erfc()
    );
    fn besselk(self, _: i32) -> Self {
        panic!("symx: no derivative rule for besselk")
    }
    fn factorial(self) -> Self {
        FloatSpecial::gamma(self + Self::one())
    }
    fn gamma(self) -> Self {
        let g = FloatSpecial::gamma(self.v);

        self.chain(g, g * self.v.digamma())
    }
    fn rgamma(self) -> Self {
        Self::one() / FloatSpecial::gamma(self)
    }
    fn loggamma(self) -> Self {
        self.chain(self.v.loggamma(), self.v.digamma())
    }
}

crate::scalar_impl!([F: Base] Jet<F>);

macro_rules! by_ref {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident) => {
        impl<'a, F: Base> $tr<&'a Jet<F>> for Jet<F> {
            type Output = Self;
            fn $m(self, o: &'a Self) -> Self {
                $tr::$m(self, *o)
            }
        }
        impl<F: Base> $tra for Jet<F> {
            fn $ma(&mut self, o: Self) {
                *self = $tr::$m(*self, o)
            }
        }
        impl<'a, F: Base> $tra<&'a Jet<F>> for Jet<F> {
            fn $ma(&mut self, o: &'a Self) {
                *self = $tr::$m(*self, *o)
            }
        }
    };
}

by_ref!(Add, add, AddAssign, add_assign);
by_ref!(Sub, sub, SubAssign, sub_assign);
by_ref!(Mul, mul, MulAssign, mul_assign);
by_ref!(Div, div, DivAssign, div_assign);
by_ref!(Rem, rem, RemAssign, rem_assign);

crate::more_traits!(Jet<F>; F: Base);
