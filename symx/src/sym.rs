//! `Sym`: a scalar whose arithmetic builds solver terms.  The library is generic over its scalar
//! field, so instantiating the real code with `Sym` is symbolic execution of that code: every
//! arithmetic step is recorded and every comparison forks the path (see `session::decide`).
use crate::session;
use crate::smt::{self, Formula};
use crate::term::{self, Fun, Id};
use num_traits::{Float, FromPrimitive, Num, NumCast, One, Pow, ToPrimitive, Zero};
use special_fun::FloatSpecial;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub Id);

pub fn c(n: i128, d: i128) -> Sym {
    Sym(term::constant(n, d))
}

fn f1(f: Fun, a: Sym) -> Sym {
    Sym(term::fun(f, vec![a.0]))
}

/// Exact rational value of a double.
pub fn rational(x: f64) -> Option<(i128, i128)> {
    if !x.is_finite() {
        return None;
    }
    let (m, e, s) = Float::integer_decode(x);
    let (mut m, mut e) = (m as i128 * s as i128, e as i32);
    if m == 0 {
        return Some((0, 1));
    }
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    if e >= 0 {
        if e > 60 {
            return None;
        }
        Some((m << e, 1))
    } else {
        if e < -100 {
            return None;
        }
        Some((m, 1i128 << (-e)))
    }
}

pub fn from_f64(x: f64) -> Sym {
    if x.is_nan() {
        return Sym(term::raw(term::T::NaN));
    }
    if x == f64::INFINITY {
        return Sym(term::raw(term::T::Inf));
    }
    if x == f64::NEG_INFINITY {
        return Sym(term::raw(term::T::NegInf));
    }
    match rational(x) {
        Some((n, d)) => c(n, d),
        None => panic!("symx: constant {} outside the rational range", x),
    }
}

impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&term::show(self.0))
    }
}

impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&term::show(self.0))
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                Sym($f(self.0, o.0))
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                Sym($f(self.0, o.0))
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                Sym($f(self.0, o.0))
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: &'b Sym) -> Sym {
                Sym($f(self.0, o.0))
            }
        }
        impl $tra for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = Sym($f(self.0, o.0))
            }
        }
        impl<'a> $tra<&'a Sym> for Sym {
            fn $ma(&mut self, o: &'a Sym) {
                *self = Sym($f(self.0, o.0))
            }
        }
    };
}

fn rem(_: Id, _: Id) -> Id {
    panic!("symx: remainder is outside the encoded fragment")
}

binop!(Add, add, AddAssign, add_assign, term::add);
binop!(Sub, sub, SubAssign, sub_assign, term::sub);
binop!(Mul, mul, MulAssign, mul_assign, term::mul);
binop!(Div, div, DivAssign, div_assign, term::div);
binop!(Rem, rem, RemAssign, rem_assign, rem);

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(term::neg(self.0))
    }
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        session::decide(smt::eq(self.0, o.0))
    }
}

impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if session::decide(smt::lt(self.0, o.0)) {
            Some(Ordering::Less)
        } else if session::decide(smt::eq(self.0, o.0)) {
            Some(Ordering::Equal)
        } else if term::mode() == term::Mode::Real || session::decide(smt::lt(o.0, self.0)) {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        session::decide(smt::lt(self.0, o.0))
    }
    fn le(&self, o: &Sym) -> bool {
        session::decide(smt::le(self.0, o.0))
    }
    fn gt(&self, o: &Sym) -> bool {
        session::decide(smt::lt(o.0, self.0))
    }
    fn ge(&self, o: &Sym) -> bool {
        session::decide(smt::le(o.0, self.0))
    }
}

impl Zero for Sym {
    fn zero() -> Sym {
        c(0, 1)
    }
    fn is_zero(&self) -> bool {
        *self == c(0, 1)
    }
}

impl One for Sym {
    fn one() -> Sym {
        c(1, 1)
    }
}

impl Num for Sym {
    type FromStrRadixErr = String;
    fn from_str_radix(s: &str, _: u32) -> Result<Sym, String> {
        s.parse::<f64>().map(from_f64).map_err(|e| e.to_string())
    }
}

impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        term::as_const(self.0).map(|(n, d)| (n / d) as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        term::as_const(self.0).map(|(n, d)| (n / d) as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        term::as_const(self.0).map(|(n, d)| n as f64 / d as f64)
    }
}

impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        n.to_f64().map(from_f64)
    }
}

impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(c(n as i128, 1))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(c(n as i128, 1))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Some(from_f64(n))
    }
}

impl Pow<Sym> for Sym {
    type Output = Sym;
    fn pow(self, e: Sym) -> Sym {
        self.powf(e)
    }
}

/// IEEE arithmetic: identities of the reals do not hold.
fn fp() -> bool {
    term::mode() == term::Mode::Fp
}

fn half() -> Sym {
    c(1, 2)
}

fn one() -> Sym {
    c(1, 1)
}

impl Float for Sym {
    fn nan() -> Sym {
        Sym(term::raw(term::T::NaN))
    }
    fn infinity() -> Sym {
        Sym(term::raw(term::T::Inf))
    }
    fn neg_infinity() -> Sym {
        Sym(term::raw(term::T::NegInf))
    }
    fn neg_zero() -> Sym {
        -c(0, 1)
    }
    fn min_value() -> Sym {
        panic!("symx: min_value is outside the encoded fragment")
    }
    fn min_positive_value() -> Sym {
        panic!("symx: min_positive_value is outside the encoded fragment")
    }
    fn max_value() -> Sym {
        panic!("symx: max_value is outside the encoded fragment")
    }
    fn epsilon() -> Sym {
        c(1, 1 << 52)
    }
    fn is_nan(self) -> bool {
        session::decide(if term::mode() == term::Mode::Real {
            Formula::of(self.0 == Sym::nan().0)
        } else {
            Formula::Nan(self.0)
        })
    }
    fn is_infinite(self) -> bool {
        session::decide(if term::mode() == term::Mode::Real {
            Formula::of(self.0 == Sym::infinity().0 || self.0 == Sym::neg_infinity().0)
        } else {
            Formula::Infinite(self.0)
        })
    }
    fn is_finite(self) -> bool {
        !self.is_nan() && !self.is_infinite()
    }
    fn is_normal(self) -> bool {
        self.is_finite() && !self.is_zero()
    }
    fn classify(self) -> std::num::FpCategory {
        if self.is_nan() {
            std::num::FpCategory::Nan
        } else if self.is_infinite() {
            std::num::FpCategory::Infinite
        } else if self.is_zero() {
            std::num::FpCategory::Zero
        } else {
            std::num::FpCategory::Normal
        }
    }
    fn floor(self) -> Sym {
        f1(Fun::Floor, self)
    }
    fn ceil(self) -> Sym {
        if fp() {
            return f1(Fun::Other("ceil"), self);
        }
        -f1(Fun::Floor, -self)
    }
    fn round(self) -> Sym {
        if fp() {
            return f1(Fun::Other("round"), self);
        }
        f1(Fun::Floor, self + half())
    }
    fn trunc(self) -> Sym {
        if fp() {
            return f1(Fun::Other("trunc"), self);
        }
        if self >= c(0, 1) {
            self.floor()
        } else {
            self.ceil()
        }
    }
    fn fract(self) -> Sym {
        self - self.trunc()
    }
    fn abs(self) -> Sym {
        Sym(term::abs(self.0))
    }
    fn signum(self) -> Sym {
        Sym(term::sgn(self.0))
    }
    fn is_sign_positive(self) -> bool {
        if fp() {
            return self.signum() == one();
        }
        self >= c(0, 1)
    }
    fn is_sign_negative(self) -> bool {
        if fp() {
            return self.signum() == -one();
        }
        self < c(0, 1)
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        one() / self
    }
    fn powi(self, n: i32) -> Sym {
        Sym(term::fun(Fun::Pow, vec![self.0, c(n as i128, 1).0]))
    }
    fn powf(self, n: Sym) -> Sym {
        Sym(term::fun(Fun::Pow, vec![self.0, n.0]))
    }
    fn sqrt(self) -> Sym {
        f1(Fun::Sqrt, self)
    }
    fn exp(self) -> Sym {
        f1(Fun::Exp, self)
    }
    fn exp2(self) -> Sym {
        if fp() {
            return f1(Fun::Other("exp2"), self);
        }
        c(2, 1).powf(self)
    }
    fn ln(self) -> Sym {
        f1(Fun::Ln, self)
    }
    fn log(self, b: Sym) -> Sym {
        self.ln() / b.ln()
    }
    fn log2(self) -> Sym {
        if fp() {
            return f1(Fun::Other("log2"), self);
        }
        self.ln() / c(2, 1).ln()
    }
    fn log10(self) -> Sym {
        if fp() {
            return f1(Fun::Other("log10"), self);
        }
        self.ln() / c(10, 1).ln()
    }
    fn max(self, o: Sym) -> Sym {
        if fp() && self.is_nan() {
            return o;
        }
        if self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Sym) -> Sym {
        if fp() && self.is_nan() {
            return o;
        }
        if o < self {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Sym) -> Sym {
        if self <= o {
            c(0, 1)
        } else {
            self - o
        }
    }
    fn cbrt(self) -> Sym {
        f1(Fun::Cbrt, self)
    }
    fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    fn sin(self) -> Sym {
        f1(Fun::Sin, self)
    }
    fn cos(self) -> Sym {
        f1(Fun::Cos, self)
    }
    fn tan(self) -> Sym {
        if fp() {
            return f1(Fun::Other("tan"), self);
        }
        self.sin() / self.cos()
    }
    fn asin(self) -> Sym {
        f1(Fun::Asin, self)
    }
    fn acos(self) -> Sym {
        f1(Fun::Acos, self)
    }
    fn atan(self) -> Sym {
        f1(Fun::Atan, self)
    }
    fn atan2(self, o: Sym) -> Sym {
        Sym(term::fun(Fun::Atan2, vec![self.0, o.0]))
    }
    fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    fn exp_m1(self) -> Sym {
        if fp() {
            return f1(Fun::Other("exp_m1"), self);
        }
        self.exp() - one()
    }
    fn ln_1p(self) -> Sym {
        if fp() {
            return f1(Fun::Other("ln_1p"), self);
        }
        (one() + self).ln()
    }
    fn sinh(self) -> Sym {
        if fp() {
            return f1(Fun::Other("sinh"), self);
        }
        (self.exp() - (-self).exp()) * half()
    }
    fn cosh(self) -> Sym {
        if fp() {
            return f1(Fun::Other("cosh"), self);
        }
        (self.exp() + (-self).exp()) * half()
    }
    fn tanh(self) -> Sym {
        if fp() {
            return f1(Fun::Other("tanh"), self);
        }
        self.sinh() / self.cosh()
    }
    fn asinh(self) -> Sym {
        if fp() {
            return f1(Fun::Other("asinh"), self);
        }
        (self + (self * self + one()).sqrt()).ln()
    }
    fn acosh(self) -> Sym {
        if fp() {
            return f1(Fun::Other("acosh"), self);
        }
        (self + (self * self - one()).sqrt()).ln()
    }
    fn atanh(self) -> Sym {
        if fp() {
            return f1(Fun::Other("atanh"), self);
        }
        half() * ((one() + self) / (one() - self)).ln()
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        panic!("symx: integer_decode is outside the encoded fragment")
    }
}

macro_rules! other {
    ($($m:ident($($a:ident),*)),*) => {
        $(fn $m(self $(, $a: Sym)*) -> Sym {
            Sym(term::fun(Fun::Other(stringify!($m)), vec![self.0 $(, $a.0)*]))
        })*
    };
}

impl FloatSpecial for Sym {
    other!(
        beta(b), betainc(a, b), betainc_inv(a, b), gammainc(a), gammac(a), gammac_inv(a),
        hyp1f1(a, b), hyp1f2(a, b, d), hyp2f1(a, b, d), hyp3f0(a, b, d), norm(), norm_inv(),
        besselj(v), bessely(v), besseli(v), riemann_zeta(), hurwitz_zeta(q)
    );
    fn besselk(self, n: i32) -> Sym {
        Sym(term::fun(Fun::Other("besselk"), vec![self.0, c(n as i128, 1).0]))
    }
    fn factorial(self) -> Sym {
        FloatSpecial::gamma(self + one())
    }
    fn gamma(self) -> Sym {
        f1(Fun::Gamma, self)
    }
    fn rgamma(self) -> Sym {
        one() / FloatSpecial::gamma(self)
    }
    fn loggamma(self) -> Sym {
        f1(Fun::LogGamma, self)
    }
    fn digamma(self) -> Sym {
        f1(Fun::DiGamma, self)
    }
    fn erf(self) -> Sym {
        f1(Fun::Erf, self)
    }
    fn erfc(self) -> Sym {
        one() - f1(Fun::Erf, self)
    }
}

/// Implements the library's scalar interface the way the library itself does for `f64`.
#[macro_export]
macro_rules! scalar_impl {
    ([$($g:tt)*] $F:ty) => {
        impl<$($g)*> aegir::buffers::shapes::Shaped for $F {
            type Shape = aegir::buffers::shapes::S0;
            fn shape(&self) -> Self::Shape { aegir::buffers::shapes::S0 }
        }
        impl<$($g)*> aegir::buffers::Buffer for $F {
            type Class = aegir::buffers::Scalars;
            type Field = $F;
            fn class() -> aegir::buffers::Scalars { aegir::buffers::Scalars }
            fn get_unchecked(&self, _: ()) -> $F { *self }
            fn map<A: aegir::buffers::Scalar, M: Fn($F) -> A>(self, f: M) -> A { f(self) }
            fn mutate<M: Fn($F) -> $F>(&mut self, f: M) { *self = f(*self) }
        }
        impl<$($g)*> aegir::buffers::ZipFold for $F {
            fn zip_fold<A: aegir::buffers::Scalar, M: Fn(A, ($F, $F)) -> A>(
                &self, rhs: &$F, init: A, f: M,
            ) -> Result<A, aegir::buffers::shapes::IncompatibleShapes<aegir::buffers::shapes::S0>> {
                Ok(f(init, (*self, *rhs)))
            }
        }
        impl<$($g)*> aegir::buffers::ZipMap for $F {
            type Output<A: aegir::buffers::Scalar> = A;
            fn zip_map<A: aegir::buffers::Scalar, M: Fn($F, $F) -> A>(
                self, rhs: &$F, f: M,
            ) -> Result<A, aegir::buffers::shapes::IncompatibleShapes<aegir::buffers::shapes::S0>> {
                Ok(f(self, *rhs))
            }
            fn zip_shape(
                self, _: aegir::buffers::shapes::S0,
            ) -> Result<$F, aegir::buffers::shapes::IncompatibleShapes<aegir::buffers::shapes::S0>> {
                Ok(self)
            }
        }
        impl<$($g)*> aegir::buffers::Scalar for $F {}
    };
}

scalar_impl!([] Sym);

// What every primitive float offers besides, so that changed bounds in the library still hold.
crate::more_traits!(Sym);
