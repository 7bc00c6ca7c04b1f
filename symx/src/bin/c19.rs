//! `aegir!` builds what the same text means in Rust.
//!
//! Every program below is expanded twice from the same tokens: by the macro, and by the compiler on
//! plain values that implement the operators, so Rust's own parser decides precedence and
//! associativity.  The macro's expression is then evaluated symbolically and compared with the
//! plain arithmetic; its adjoints with forward-mode differentiation.
#![allow(unused_variables, unused_imports, unused_parens, unused_braces)]
#[macro_use]
extern crate aegir;

use aegir::ids::{W, X, Y};
use aegir::meta::{Constant, Variable};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Differentiable, Function, Identifier, Node};
use std::any::type_name;
use symx::*;

/// Plain arithmetic with the macro's operators.
#[derive(Clone, Copy)]
struct V<F>(Jet<F>);

fn k<F: Fld>(x: f64) -> Jet<F> {
    jet(F::from_f64(x).unwrap(), F::lit(0, 1))
}

macro_rules! arith {
    ($($t:ident $m:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
        impl<F: Fld> std::ops::$t for V<F> {
            type Output = V<F>;
            fn $m(self, o: V<F>) -> V<F> {
                let ($a, $b) = (self.0, o.0);
                V($e)
            }
        }
        arith!(@lit $t $m f64 i64);
    )*};
    (@lit $t:ident $m:ident $($l:ident)*) => {$(
        impl<F: Fld> std::ops::$t<$l> for V<F> {
            type Output = V<F>;
            fn $m(self, o: $l) -> V<F> {
                std::ops::$t::$m(self, V(k(o as f64)))
            }
        }
        impl<F: Fld> std::ops::$t<V<F>> for $l {
            type Output = V<F>;
            fn $m(self, o: V<F>) -> V<F> {
                std::ops::$t::$m(V(k(self as f64)), o)
            }
        }
    )*};
}
/// Powers of positive numbers, or to a literal exponent (checked where the literal is known).
fn power<F: Fld>(a: Jet<F>, b: Jet<F>) -> Jet<F> {
    assume(F::lit(0, 1).lt_(a.v));
    num_traits::Pow::pow(a, b)
}
arith! {
    Add add |a, b| a + b;
    Sub sub |a, b| a - b;
    Mul mul |a, b| a * b;
    BitXor bitxor |a, b| power(a, b);
}

impl<F: Fld> V<F> {
    fn add(self, o: V<F>) -> V<F> {
        self + o
    }
    fn sub(self, o: V<F>) -> V<F> {
        self - o
    }
    fn mul(self, o: V<F>) -> V<F> {
        self * o
    }
    fn div(self, o: V<F>) -> V<F> {
        assume(F::lit(0, 1).ne_(o.0.v));
        V(self.0 / o.0)
    }
    fn pow(self, o: V<F>) -> V<F> {
        self ^ o
    }
    fn neg(self) -> V<F> {
        V(-self.0)
    }
    fn squared(self) -> V<F> {
        V(self.0 * self.0)
    }
    fn ln(self) -> V<F> {
        assume(F::lit(0, 1).lt_(self.0.v));
        V(num_traits::Float::ln(self.0))
    }
    fn sigmoid(self) -> V<F> {
        let one = k::<F>(1.0);
        V(one / (one + num_traits::Float::exp(-self.0)))
    }
}

/// The same expression over the symbolic field: literals become constants of that field.
trait Lift<F> {
    type Out;
    fn lift(self) -> Self::Out;
}
impl<F, I> Lift<F> for Variable<I> {
    type Out = Self;
    fn lift(self) -> Self {
        self
    }
}
impl<F: Fld> Lift<F> for Constant<f64> {
    type Out = Constant<F>;
    fn lift(self) -> Constant<F> {
        Constant(F::from_f64(self.0).unwrap())
    }
}
impl<F: Fld> Lift<F> for Constant<i64> {
    type Out = Constant<F>;
    fn lift(self) -> Constant<F> {
        Constant(F::from_i64(self.0).unwrap())
    }
}
macro_rules! lift {
    (un: $($u:ident)*; bi: $($b:ident)*) => {
        $(impl<F, N: Lift<F>> Lift<F> for $u<N> {
            type Out = $u<N::Out>;
            fn lift(self) -> Self::Out {
                $u(self.0.lift())
            }
        })*
        $(impl<F, L: Lift<F>, R: Lift<F>> Lift<F> for $b<L, R> {
            type Out = $b<L::Out, R::Out>;
            fn lift(self) -> Self::Out {
                $b(self.0.lift(), self.1.lift())
            }
        })*
    };
}
lift! {
    un: Square Double AddOne SubOne OneSub Negate Abs Sign Dirac Sum Ln XLnX Exp Sigmoid Rabbit
        Cos Sin Tan Cosh Sinh Tanh ArcCos ArcSin ArcTan Gamma LogGamma DiGamma Erf;
    bi: Add Sub Mul Div Power
}
impl<F, L: Lift<F>, R: Lift<F>, const N: usize> Lift<F> for Contract<N, L, R> {
    type Out = Contract<N, L::Out, R::Out>;
    fn lift(self) -> Self::Out {
        Contract::new(self.0.lift(), self.1.lift())
    }
}

type Vars<F> = (F, F, F);

fn vars<F: Fld>() -> Vars<F> {
    (F::inp("x"), F::inp("y"), F::inp("w"))
}
fn seed<F: Fld>(v: Vars<F>, t: usize) -> (V<F>, V<F>, V<F>) {
    let d = |i: usize| F::lit((i == t) as i128, 1);
    (V(jet(v.0, d(0))), V(jet(v.1, d(1))), V(jet(v.2, d(2))))
}

/// Values only.
macro_rules! values {
    ($v:ident ($a:ident $b:ident $c:ident) $([$($t:tt)*])*) => {
        $(case!($v, concat!("value/", stringify!($($t)*)), {
            let v = vars::<F>();
            let want: V<F> = { let ($a, $b, $c) = seed(v, 0); ($($t)*) };
            let node = { let ($a, $b, $c) = (X.into_var(), Y.into_var(), W.into_var()); aegir!($($t)*) };
            let got: F = Lift::<F>::lift(node).evaluate(Cx { x: v.0, y: v.1, w: v.2 }).unwrap();
            F::check_eq("value", got, want.0.v);
        });)*
    };
}
/// Values and the derivative by every variable.
macro_rules! derivatives {
    ($v:ident ($a:ident $b:ident $c:ident) $([$($t:tt)*])*) => {
        $(case!($v, concat!("derivative/", stringify!($($t)*)), {
            let v = vars::<F>();
            let cx = || Cx { x: v.0, y: v.1, w: v.2 };
            let want: Vec<Jet<F>> = (0..3).map(|i| { let ($a, $b, $c) = seed(v, i); let r: V<F> = ($($t)*); r.0 }).collect();
            let node = { let ($a, $b, $c) = (X.into_var(), Y.into_var(), W.into_var()); aegir!($($t)*) };
            let node = Lift::<F>::lift(node);
            let got: F = node.evaluate(cx()).unwrap();
            F::check_eq("value", got, want[0].v);
            let (dx, dy, dw): (F, F, F) = (node.adjoint(X).evaluate(cx()).unwrap(),
                node.adjoint(Y).evaluate(cx()).unwrap(), node.adjoint(W).evaluate(cx()).unwrap());
            F::check_eq("d/dx", dx, want[0].d);
            F::check_eq("d/dy", dy, want[1].d);
            F::check_eq("d/dw", dw, want[2].d);
        });)*
    };
}
/// Operands that another macro parsed.
macro_rules! captured {
    ($v:ident $n:tt $([$e:expr, $f:expr])*) => { $(captured!(@1 $v $n $e, $f);)* };
    (@1 $v:ident ($a:ident $b:ident $c:ident) $e:expr, $f:expr) => {
        derivatives! { $v ($a $b $c) [$e - $f] [$e * $f - $c] [$a - $e * $f] [($e) - ($f)] [$e + $f - $e] }
    };
}
/// Every choice of operators.
macro_rules! two {
    ($v:ident $n:tt $($p:tt)*) => { two!(@1 $v $n [+ - * ^] [+ - * ^] $($p)*); };
    (@1 $v:ident $n:tt [$($p:tt)*] $q:tt) => { $(two!(@2 $v $n $p $q);)* };
    (@2 $v:ident ($a:ident $b:ident $c:ident) $p:tt [$($q:tt)*]) => {
        derivatives! { $v ($a $b $c) $([$a $p $b $q $c] [($a $p $b) $q $c] [$a $p ($b $q $c)])* }
    };
}
macro_rules! three {
    ($v:ident $n:tt) => { three!(@1 $v $n [+ - * ^] [+ - * ^] [+ - * ^]); };
    (@1 $v:ident $n:tt [$($p:tt)*] $q:tt $r:tt) => { $(three!(@2 $v $n $p $q $r);)* };
    (@2 $v:ident $n:tt $p:tt [$($q:tt)*] $r:tt) => { $(three!(@3 $v $n $p $q $r);)* };
    (@3 $v:ident ($a:ident $b:ident $c:ident) $p:tt $q:tt [$($r:tt)*]) => {
        values! { $v ($a $b $c) $(
            [$a $p $b $q $c $r $a]
            [($a $p $b) $q ($c $r $a)]
            [$a $p ($b $q $c) $r $a]
            [$a $p $b $q ($c $r $a)]
            [$a $p ($b $q ($c $r $a))]
        )* }
    };
}

const FIRST: usize = 0;
struct Wrap<T> {
    w: T,
}

fn is<T>(_: &T) -> &'static str {
    type_name::<T>()
}

fn main() {
    let mut v: Vec<Case> = Vec::new();

    derivatives! { v (a b c) [a] [(b)] [a + b] [a - b] [a * b] [a ^ b] [b - a] [b ^ a] [a + a] [a - a] [a * a] [a ^ a] }
    two! { v (a b c) }
    three! { v (a b c) }

    // Literals, and squares.
    derivatives! { v (a b c)
        [2 * a] [2.0 * a] [a * 2] [a + 1] [1 - a] [a - 3.5] [a ^ 2] [a ^ 2.0] [a ^ 3] [a ^ 3.0] [a ^ 20] [a ^ 2.5] [a ^ 1] [a ^ 0.5]
        [2 ^ a] [2.0 ^ a] [a ^ b ^ 2] [a ^ 2 ^ b] [a ^ (2 ^ b)] [(a ^ 2) ^ 2] [a + b ^ 2] [a + (b ^ 2)] [(a + b) ^ 2] [(a - b) ^ 2]
        [a * b ^ 2] [a * (b ^ 2)] [a - (b - c) ^ 2] [(a ^ 2) + (b ^ 2)] [a ^ 2 + b] [a ^ 2 * b] [a ^ b * 2] [a ^ 1 + 1] [a ^ (1 + 1)]
        [2 * a + 3 * b - 4 * c] [2 - a - 3] [2 - (a - 3)] [7 - 2 - a] [a - 2 * 3] [2 * 3 * a + 4] [0.5 * (a + b) * c]
        [1.5 * a - 0.25 * b * c + 10] [a * a * 1e1] [1_000 * a] [0x10 - a] [a + 2i64] [a ^ 2.00]
        [((a))] [(a - (b + (c - 1)))] [((a - b) - c) - 1]
    }
    // Method calls, whose arguments and receivers are expressions of the language.
    derivatives! { v (a b c)
        [a.mul(b)] [a.mul(b + c)] [a.add(b).mul(c)] [(a + b).mul(c)] [a + b.mul(c)] [a * b.add(c)] [a.sub(b - c)] [a.sub(b) - c]
        [(a + b).squared()] [a + b.squared()] [a * (b - c).squared() - a] [a.squared().sub(b) * c] [(a * b + 1).ln()]
        [a * b.ln()] [(a * b).ln() + c] [a.neg() * b] [(a - b).neg() - c] [a.neg() ^ 2] [(a * b - c).sigmoid()] [a.sigmoid() * b.sigmoid()]
        [a.div(b) - c] [(a + b).div(c + 1)] [a.div(b.div(c))] [a.pow(b + 1)] [(a + 1).pow(b)] [a ^ b.squared()] [a.squared() ^ 2]
    }
    // Other Rust around the operators.
    values! { v (a b c)
        [{ let t = a + b; t * t - c }]
        [{ let t = a - b; let a = c; (t - a) ^ 2 }]
        [({ a - b }) * c]
        [(a - b, a * c).1 + b]
        [if true { a - b * c } else { (a - b * c) }]
        [std::convert::identity(a - b) * c]
        [match () { _ => a - b * c }]
        [*&(a - b) * c]
        [[a - b * c][FIRST]]
        [loop { break a - b * c; }]
        [unsafe { a - b * c } - b]
        [Wrap { w: a - b * c }.w * a]
        [{ let (t, u) = (a - b, b - c); t - u * c }]
        [{ let t = { let u = a - b; u * u }; t - c }]
    }
    // Operands captured by another macro before this one sees them.
    captured! { v (a b c) [a + b, c - a] [a * b, b + c] [a - b - c, a * 2] [(a - b) - c, a - (b - c)] [a.sub(b - c), b.squared()] }

    case!(v, "literal types", {
        let int = aegir!(10);
        let float = aegir!(10.0);
        check("an integer literal is an i64 constant", Formula::of(is(&int) == type_name::<Constant<i64>>()));
        check("a float literal is an f64 constant", Formula::of(is(&float) == type_name::<Constant<f64>>()));
        let (a, b) = (X.into_var(), Y.into_var());
        check("in sums", Formula::of(is(&aegir!(a + 1)) == type_name::<Add<Variable<X>, Constant<i64>>>()));
        check("in products", Formula::of(is(&aegir!(1.5 * a)) == type_name::<Mul<Constant<f64>, Variable<X>>>()));
        check("in arguments", Formula::of(is(&aegir!(a.mul(3.0))) == type_name::<Mul<Variable<X>, Constant<f64>>>()));
        check("exponents", Formula::of(is(&aegir!(a ^ 3.0)) == type_name::<Power<Variable<X>, Constant<f64>>>()
            && is(&aegir!(a ^ 3)) == type_name::<Power<Variable<X>, Constant<i64>>>()));
    });
    case!(v, "squares", {
        let (a, b) = (X.into_var(), Y.into_var());
        check("integer", Formula::of(is(&aegir!(a ^ 2)) == type_name::<Square<Variable<X>>>()));
        check("float", Formula::of(is(&aegir!(a ^ 2.0)) == type_name::<Square<Variable<X>>>()));
        check("of a bracket", Formula::of(is(&aegir!((a - b) ^ 2)) == type_name::<Square<Sub<Variable<X>, Variable<Y>>>>()));
        check("nested", Formula::of(is(&aegir!((a ^ 2) ^ 2.0)) == type_name::<Square<Square<Variable<X>>>>()));
        check("no other exponent", Formula::of(is(&aegir!(a ^ b)) == type_name::<Power<Variable<X>, Variable<Y>>>()));
        check("only as an exponent", Formula::of(is(&aegir!(a * 2)) == type_name::<Mul<Variable<X>, Constant<i64>>>()));
    });
    // The value of a literal survives unchanged.
    case!(v, "literal values", {
        macro_rules! same {
            ($($l:literal)*) => {$( check(concat!("literal ", stringify!($l)), Formula::of(aegir!($l).0 == $l)); )*};
        }
        same!(0 1 2 3 10 255 65536 4294967296 9007199254740993 9223372036854775807 0x1F 0b101 0o17 1_000_000);
        same!(0.0 1.0 2.0 0.1 0.5 3.25 1e10 1.5e-7 123456.789 1e300 5e-324 2.2250738585072014e-308 1.7976931348623157e308);
    });
    main_with("C19", v);
}
