//! The two worlds a case body runs in: `Sym` (decided by the solver) and `f64` (native replay).
use crate::jet::Jet;
use crate::session;
use crate::smt::{self, Formula};
use crate::sym::Sym;
use crate::term;
use aegir::buffers::Scalar;
use num_traits::{Bounded, Float, FloatConst, FromPrimitive, Inv, MulAdd, NumAssign, Pow, Signed};
use special_fun::FloatSpecial;
use std::fmt::{Debug, Display};

/// Everything the library may ask of a scalar.
pub trait Base:
    Scalar
    + Float
    + FloatSpecial
    + Pow<Self, Output = Self>
    + FromPrimitive
    + NumAssign
    + std::iter::Sum
    + std::iter::Product
    + Default
    + Bounded
    + FloatConst
    + Inv<Output = Self>
    + MulAdd<Output = Self>
    + Signed
    + Debug
    + Display
    + 'static
{
    /// Syntactically zero (never forks).
    fn surely_zero(&self) -> bool;
}

pub trait Fld: Base {
    fn inp(name: &str) -> Self;
    fn lit(n: i128, d: i128) -> Self;
    fn lt_(self, o: Self) -> Formula;
    fn le_(self, o: Self) -> Formula;
    fn eq_(self, o: Self) -> Formula;
    fn ne_(self, o: Self) -> Formula {
        self.eq_(o).not()
    }
    fn nan_(self) -> Formula;
    fn inf_(self) -> Formula;
    fn check_eq(label: &str, got: Self, want: Self);
    /// What `check_eq` asserts, as a formula.
    fn same_(self, o: Self) -> Formula;
    fn is_sym() -> bool;
}

impl Base for Sym {
    fn surely_zero(&self) -> bool {
        term::as_const(self.0).map_or(false, |c| c.0 == 0)
    }
}
impl Base for f64 {
    fn surely_zero(&self) -> bool {
        *self == 0.0
    }
}
impl<F: Base> Base for Jet<F> {
    fn surely_zero(&self) -> bool {
        self.v.surely_zero() && self.d.surely_zero()
    }
}

impl Fld for Sym {
    fn inp(name: &str) -> Sym {
        session::note_input(name);
        Sym(term::var(name))
    }
    fn lit(n: i128, d: i128) -> Sym {
        crate::sym::c(n, d)
    }
    fn lt_(self, o: Sym) -> Formula {
        smt::lt(self.0, o.0)
    }
    fn le_(self, o: Sym) -> Formula {
        smt::le(self.0, o.0)
    }
    fn eq_(self, o: Sym) -> Formula {
        smt::eq(self.0, o.0)
    }
    fn nan_(self) -> Formula {
        if term::mode() == term::Mode::Real {
            Formula::of(matches!(term::get(self.0), term::T::NaN))
        } else {
            Formula::Nan(self.0)
        }
    }
    fn inf_(self) -> Formula {
        if term::mode() == term::Mode::Real {
            Formula::of(matches!(term::get(self.0), term::T::Inf | term::T::NegInf))
        } else {
            Formula::Infinite(self.0)
        }
    }
    fn check_eq(label: &str, got: Sym, want: Sym) {
        session::obligation(label, smt::same(got.0, want.0), Some((got.0, want.0)));
    }
    fn same_(self, o: Sym) -> Formula {
        smt::same(self.0, o.0)
    }
    fn is_sym() -> bool {
        true
    }
}

impl Fld for f64 {
    fn inp(name: &str) -> f64 {
        session::native_input(name)
    }
    fn lit(n: i128, d: i128) -> f64 {
        n as f64 / d as f64
    }
    fn lt_(self, o: f64) -> Formula {
        Formula::of(self < o)
    }
    fn le_(self, o: f64) -> Formula {
        Formula::of(self <= o)
    }
    fn eq_(self, o: f64) -> Formula {
        Formula::of(self == o)
    }
    fn nan_(self) -> Formula {
        Formula::of(self.is_nan())
    }
    fn inf_(self) -> Formula {
        Formula::of(self.is_infinite())
    }
    fn check_eq(label: &str, got: f64, want: f64) {
        session::native_eq(label, got, want);
    }
    fn same_(self, o: f64) -> Formula {
        Formula::of(!session::differ(self, o))
    }
    fn is_sym() -> bool {
        false
    }
}

/// Row-major contents of a buffer, read without going through the library.
pub trait Flat {
    type E: Copy;
    fn dims(&self) -> Vec<usize>;
    fn flat(&self) -> Vec<Self::E>;
}

macro_rules! flat_leaf {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Flat for $t {
            type E = $t;
            fn dims(&self) -> Vec<usize> { vec![] }
            fn flat(&self) -> Vec<$t> { vec![*self] }
        }
    };
}
flat_leaf!([] Sym);
flat_leaf!([] f64);
flat_leaf!([F: Base] Jet<F>);

impl<T: Flat, const N: usize> Flat for [T; N] {
    type E = T::E;
    fn dims(&self) -> Vec<usize> {
        let mut d = vec![N];
        if N > 0 {
            d.extend(self[0].dims());
        }
        d
    }
    fn flat(&self) -> Vec<T::E> {
        self.iter().flat_map(|x| x.flat()).collect()
    }
}
impl<T: Flat> Flat for Vec<T> {
    type E = T::E;
    fn dims(&self) -> Vec<usize> {
        vec![self.len()]
    }
    fn flat(&self) -> Vec<T::E> {
        self.iter().flat_map(|x| x.flat()).collect()
    }
}
impl<T: Flat> Flat for (T, T) {
    type E = T::E;
    fn dims(&self) -> Vec<usize> {
        vec![2]
    }
    fn flat(&self) -> Vec<T::E> {
        let mut v = self.0.flat();
        v.extend(self.1.flat());
        v
    }
}

/// Builds fixed-size buffers by index, without going through the library.
pub trait Dense: Sized {
    type E: Copy;
    fn make(ix: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> Self::E) -> Self;
    fn by(mut f: impl FnMut(&[usize]) -> Self::E) -> Self {
        Self::make(&mut vec![], &mut f)
    }
    /// A buffer of fresh inputs `name_i_j_...`.
    fn inputs(name: &str) -> Self
    where
        Self::E: Fld,
    {
        Self::by(|ix| Self::E::inp(&subscript(name, ix)))
    }
    fn fill(x: Self::E) -> Self {
        Self::by(|_| x)
    }
    fn diag(x: Self::E) -> Self
    where
        Self::E: Base,
    {
        Self::by(|ix| if ix.windows(2).all(|w| w[0] == w[1]) { x } else { num_traits::zero() })
    }
}

pub fn subscript(name: &str, ix: &[usize]) -> String {
    ix.iter().fold(name.to_string(), |s, i| format!("{}_{}", s, i))
}

macro_rules! dense_leaf {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Dense for $t {
            type E = $t;
            fn make(ix: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> $t) -> $t { f(ix) }
        }
    };
}
dense_leaf!([] Sym);
dense_leaf!([] f64);
dense_leaf!([F: Base] Jet<F>);

impl<T: Dense, const N: usize> Dense for [T; N] {
    type E = T::E;
    fn make(ix: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> T::E) -> Self {
        std::array::from_fn(|i| {
            ix.push(i);
            let x = T::make(ix, f);
            ix.pop();
            x
        })
    }
}
impl<T: Dense> Dense for (T, T) {
    type E = T::E;
    fn make(ix: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> T::E) -> Self {
        let [a, b]: [T; 2] = Dense::make(ix, f);

        (a, b)
    }
}

/// Compare two buffers entry by entry.
pub fn check_buf<B1, B2>(label: &str, got: &B1, want: &B2)
where
    B1: Flat,
    B2: Flat<E = B1::E>,
    B1::E: Fld,
{
    let (g, w) = (got.flat(), want.flat());

    session::check(
        &format!("{} shape (got {:?}, want {:?})", label, got.dims(), want.dims()),
        Formula::of(got.dims() == want.dims()),
    );
    if g.len() == w.len() {
        for (i, (a, b)) in g.into_iter().zip(w).enumerate() {
            Fld::check_eq(&format!("{}[{}]", label, i), a, b);
        }
    }
}

/// One of two results, whole.
pub fn check_either<B, B1, B2>(label: &str, got: &B, one: &B1, two: &B2)
where
    B: Flat,
    B1: Flat<E = B::E>,
    B2: Flat<E = B::E>,
    B::E: Fld,
{
    let g = got.flat();
    let all = |d: Vec<usize>, w: Vec<B::E>| {
        let mut v: Vec<Formula> = g.iter().zip(w).map(|(a, b)| a.same_(b)).collect();
        v.push(Formula::of(got.dims() == d));
        Formula::and(v)
    };

    session::check(label, Formula::or(vec![all(one.dims(), one.flat()), all(two.dims(), two.flat())]));
}

/// Contents with explicit dimensions.
#[derive(Clone, Debug)]
pub struct Bag<F>(pub Vec<usize>, pub Vec<F>);

impl<F: Copy> Flat for Bag<F> {
    type E = F;
    fn dims(&self) -> Vec<usize> {
        self.0.clone()
    }
    fn flat(&self) -> Vec<F> {
        self.1.clone()
    }
}
impl<F: Copy> Bag<F> {
    pub fn of<B: Flat<E = F>>(b: &B) -> Bag<F> {
        Bag(b.dims(), b.flat())
    }
    pub fn map<G: Copy>(&self, f: impl FnMut(F) -> G) -> Bag<G> {
        Bag(self.0.clone(), self.1.iter().copied().map(f).collect())
    }
    /// Pair up two buffers, repeating a scalar on either side.
    pub fn zip<G: Copy, H: Copy>(&self, o: &Bag<G>, mut f: impl FnMut(F, G) -> H) -> Bag<H> {
        if o.0.is_empty() {
            Bag(self.0.clone(), self.1.iter().map(|x| f(*x, o.1[0])).collect())
        } else if self.0.is_empty() {
            Bag(o.0.clone(), o.1.iter().map(|y| f(self.1[0], *y)).collect())
        } else {
            assert_eq!(self.0, o.0);
            Bag(self.0.clone(), self.1.iter().zip(&o.1).map(|(x, y)| f(*x, *y)).collect())
        }
    }
}

/// The extents of a shape, read off its type or its run-time contents.
pub trait Extents {
    fn extents(&self) -> Vec<usize>;
}
use aegir::buffers::shapes::{SDynamic, S0, S1, S2, S3, S4, S5, S6};
impl Extents for S0 {
    fn extents(&self) -> Vec<usize> {
        vec![]
    }
}
macro_rules! extents {
    ($($s:ident<$($n:ident),+>;)*) => {
        $(impl<$(const $n: usize),+> Extents for $s<$($n),+> {
            fn extents(&self) -> Vec<usize> { vec![$($n),+] }
        })*
    };
}
extents!(S1<A>; S2<A, B>; S3<A, B, C>; S4<A, B, C, D>; S5<A, B, C, D, E>; S6<A, B, C, D, E, F>;);
impl<const N: usize> Extents for SDynamic<N> {
    fn extents(&self) -> Vec<usize> {
        self.0.to_vec()
    }
}

/// Traits of the primitive floats that aegir does not ask for today, in terms of those it does.
#[macro_export]
macro_rules! more_traits {
    ($ty:ty $(; $($g:tt)*)?) => {
        impl$(<$($g)*>)? Default for $ty {
            fn default() -> Self {
                num_traits::Zero::zero()
            }
        }
        impl$(<$($g)*>)? std::iter::Sum for $ty {
            fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
                it.fold(num_traits::Zero::zero(), |a, x| a + x)
            }
        }
        impl$(<$($g)*>)? std::iter::Product for $ty {
            fn product<I: Iterator<Item = Self>>(it: I) -> Self {
                it.fold(num_traits::One::one(), |a, x| a * x)
            }
        }
        impl$(<$($g)*>)? num_traits::Bounded for $ty {
            fn min_value() -> Self {
                <Self as num_traits::Float>::min_value()
            }
            fn max_value() -> Self {
                <Self as num_traits::Float>::max_value()
            }
        }
        impl$(<$($g)*>)? num_traits::Inv for $ty {
            type Output = Self;
            fn inv(self) -> Self {
                num_traits::Float::recip(self)
            }
        }
        impl$(<$($g)*>)? num_traits::MulAdd for $ty {
            type Output = Self;
            fn mul_add(self, a: Self, b: Self) -> Self {
                num_traits::Float::mul_add(self, a, b)
            }
        }
        impl$(<$($g)*>)? num_traits::Signed for $ty {
            fn abs(&self) -> Self {
                num_traits::Float::abs(*self)
            }
            fn abs_sub(&self, o: &Self) -> Self {
                if *self <= *o {
                    num_traits::Zero::zero()
                } else {
                    *self - *o
                }
            }
            fn signum(&self) -> Self {
                num_traits::Float::signum(*self)
            }
            fn is_positive(&self) -> bool {
                num_traits::Float::is_sign_positive(*self)
            }
            fn is_negative(&self) -> bool {
                num_traits::Float::is_sign_negative(*self)
            }
        }
        impl$(<$($g)*>)? num_traits::FloatConst for $ty {
            $crate::float_consts!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4
                FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);
        }
    };
}

#[macro_export]
macro_rules! float_consts {
    ($($k:ident)*) => {
        $(fn $k() -> Self {
            num_traits::FromPrimitive::from_f64(std::f64::consts::$k).unwrap()
        })*
    };
}
