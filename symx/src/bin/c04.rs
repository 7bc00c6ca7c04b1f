//! Every operator computes its documented function, entry by entry, over every buffer kind.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Spec};
use aegir::ids::{W, X, Y, Z};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Differentiable, Function, Identifier, Node};
use num_traits::Float;
use symx::*;

// The documented functions, written on scalars.
fn k<F: Fld>(n: i128) -> F {
    F::lit(n, 1)
}
fn sign<F: Fld>(x: F) -> F {
    if x > k::<F>(0) {
        k::<F>(1)
    } else if x < k::<F>(0) {
        k::<F>(-1)
    } else {
        k::<F>(0)
    }
}
fn abs<F: Fld>(x: F) -> F {
    if x < k::<F>(0) {
        k::<F>(0) - x
    } else {
        x
    }
}
fn dirac<F: Fld>(x: F) -> F {
    if x == k::<F>(0) {
        F::infinity()
    } else {
        k::<F>(0)
    }
}
fn xlnx<F: Fld>(x: F) -> F {
    if x == k::<F>(0) {
        k::<F>(0)
    } else {
        x * Float::ln(x)
    }
}
fn sigmoid<F: Fld>(x: F) -> F {
    k::<F>(1) / (k::<F>(1) + Float::exp(k::<F>(0) - x))
}

macro_rules! unaries {
    ($m:ident; $($args:tt)*) => {
        $m!($($args)*;
            "sub_one" |n| SubOne(n), |x| x - k::<F>(1);
            "one_sub" |n| OneSub(n), |x| k::<F>(1) - x;
            "add_one" |n| AddOne(n), |x| x + k::<F>(1);
            "square" |n| Square(n), |x| x * x;
            "double" |n| Double(n), |x| x + x;
            "negate" |n| Negate(n), |x| k::<F>(0) - x;
            "sign" |n| Sign(n), |x| sign(x);
            "abs" |n| Abs(n), |x| abs(x);
            "dirac" |n| Dirac(n), |x| dirac(x);
            "ln" |n| Ln(n), |x| Float::ln(x);
            "xlnx" |n| XLnX(n), |x| xlnx(x);
            "exp" |n| Exp(n), |x| Float::exp(x);
            "rabbit" |n| Rabbit(n), |x| x * (k::<F>(1) - x);
            "sigmoid" |n| Sigmoid(n), |x| sigmoid(x);
            "cos" |n| Cos(n), |x| Float::cos(x);
            "cosh" |n| Cosh(n), |x| (Float::exp(x) + Float::exp(-x)) / k::<F>(2);
            "acos" |n| ArcCos(n), |x| Float::acos(x);
            "acosh" |n| ArcCosh(n), |x| Float::acosh(x);
            "sin" |n| Sin(n), |x| Float::sin(x);
            "sinh" |n| Sinh(n), |x| (Float::exp(x) - Float::exp(-x)) / k::<F>(2);
            "asin" |n| ArcSin(n), |x| Float::asin(x);
            "asinh" |n| ArcSinh(n), |x| Float::asinh(x);
            "tan" |n| Tan(n), |x| Float::sin(x) / Float::cos(x);
            "tanh" |n| Tanh(n), |x| (Float::exp(x) - Float::exp(-x)) / (Float::exp(x) + Float::exp(-x));
            "atan" |n| ArcTan(n), |x| Float::atan(x);
            "atanh" |n| ArcTanh(n), |x| Float::atanh(x);
            "gamma" |n| Gamma(n), |x| special_fun::FloatSpecial::gamma(x);
            "digamma" |n| DiGamma(n), |x| x.digamma();
            "loggamma" |n| LogGamma(n), |x| x.loggamma();
            "factorial" |n| Factorial::factorial(n), |x| special_fun::FloatSpecial::gamma(x + k::<F>(1));
            "erf" |n| Erf(n), |x| x.erf();
            "erfc" |n| Erfc::erfc(n), |x| k::<F>(1) - x.erf();
            "complement" |n| Erf(n).complement(), |x| k::<F>(1) - x.erf();
            "neg method" |n| n.neg(), |x| k::<F>(0) - x;
            "abs method" |n| n.abs(), |x| abs(x);
            "ln method" |n| n.ln(), |x| Float::ln(x);
            "squared method" |n| n.squared(), |x| x * x;
            "sigmoid method" |n| n.sigmoid(), |x| sigmoid(x);
        );
    };
}
macro_rules! few_unaries {
    ($m:ident; $($args:tt)*) => {
        $m!($($args)*;
            "one_sub" |n| OneSub(n), |x| k::<F>(1) - x;
            "square" |n| Square(n), |x| x * x;
            "negate" |n| Negate(n), |x| k::<F>(0) - x;
            "sub_one" |n| SubOne(n), |x| x - k::<F>(1);
            "abs" |n| Abs(n), |x| abs(x);
            "exp" |n| Exp(n), |x| Float::exp(x);
        );
    };
}

/// For long buffers: functions without branches.
macro_rules! long_unaries {
    ($m:ident; $($args:tt)*) => {
        $m!($($args)*;
            "one_sub" |n| OneSub(n), |x| k::<F>(1) - x;
            "square" |n| Square(n), |x| x * x;
            "negate" |n| Negate(n), |x| k::<F>(0) - x;
            "exp" |n| Exp(n), |x| Float::exp(x);
        );
    };
}

macro_rules! fixed {
    ($v:ident $tag:literal $t:tt; $($id:literal |$n:ident| $node:expr, |$x:ident| $want:expr;)*) => {
        $(case!($v, format!("unary/{}/{}", $tag, $id), {
            use special_fun::FloatSpecial;
            type T<S> = tyf!(S; $t);
            let $n: Lf<T<F>> = leaf("n");
            let want = Bag::of(&$n.raw).map(|$x: F| -> F { $want });
            let f = $node;
            check_buf("value", &ev(&f), &want);
            check_buf("structured", &expand(&ev_spec(&f)), &want);
        });)*
    };
}
macro_rules! dynamic {
    ($v:ident; $($id:literal |$n:ident| $node:expr, |$x:ident| $want:expr;)*) => {
        $(case!($v, format!("unary/vec/{}", $id), {
            use special_fun::FloatSpecial;
            let $n: Lf<Vec<F>> = vleaf("n", pick("len", 4));
            let want = Bag::of(&$n.raw).map(|$x: F| -> F { $want });
            let f = $node;
            check_buf("value", &ev(&f), &want);
            check_buf("structured", &vexpand(&ev_spec(&f)), &want);
        });)*
    };
}
macro_rules! small {
    ($v:ident; $($tag:literal $t:tt,)*) => { $( few_unaries!(fixed; $v $tag $t); )* };
}

macro_rules! long {
    ($v:ident; $($tag:literal $t:tt,)*) => { $( long_unaries!(fixed; $v $tag $t); )* };
}

macro_rules! bin_case {
    ($v:ident, $tag:expr, $l:tt $r:tt $o:tt; $($id:literal |$a:ident, $b:ident| $node:expr, |$x:ident, $y:ident| $want:expr;)*) => {
        $(case!($v, format!("binary/{}/{}", $tag, $id), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            type O<S> = tyf!(S; $o);
            let ($a, $b): (Lf<L<F>>, Lf<R<F>>) = (leaf("l"), leaf("r"));
            let want = Bag::of(&$a.raw).zip(&Bag::of(&$b.raw), |$x: F, $y: F| -> F { $want });
            let f = $node;
            let got: O<F> = ev(&f);
            check_buf("value", &got, &want);
            check_buf("structured", &expand(&ev_spec(&f)), &want);
        });)*
    };
}
macro_rules! binaries {
    ($v:ident; $($tag:literal $l:tt $r:tt $o:tt,)*) => { $(
        bin_case!($v, $tag, $l $r $o;
            "add" |l, r| Add(l, r), |x, y| x + y;
            "sub" |l, r| Sub(l, r), |x, y| x - y;
            "mul" |l, r| Mul(l, r), |x, y| x * y;
            "div" |l, r| Div(l, r), |x, y| x / y;
        );
    )* };
}
macro_rules! methods {
    ($v:ident; $($tag:literal $l:tt $r:tt $o:tt,)*) => { $(
        bin_case!($v, $tag, $l $r $o;
            "add method" |l, r| l.add(r), |x, y| x + y;
            "sub method" |l, r| l.sub(r), |x, y| x - y;
            "mul method" |l, r| l.mul(r), |x, y| x * y;
            "div method" |l, r| l.div(r), |x, y| x / y;
        );
    )* };
}
macro_rules! dyn_bin {
    ($v:ident; $($id:literal |$a:ident, $b:ident| $node:expr, |$x:ident, $y:ident| $want:expr;)*) => {
        $(case!($v, format!("binary/vec,vec/{}", $id), {
            let n = pick("len", 4);
            let ($a, $b): (Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", n), vleaf("r", n));
            let want = Bag::of(&$a.raw).zip(&Bag::of(&$b.raw), |$x: F, $y: F| -> F { $want });
            let f = $node;
            check_buf("value", &ev(&f), &want);
            check_buf("structured", &vexpand(&ev_spec(&f)), &want);
        });
        case!($v, format!("binary/vec,s/{}", $id), {
            let n = pick("len", 4);
            let ($a, $b): (Lf<Vec<F>>, Lf<F>) = (vleaf("l", n), leaf("r"));
            let want = Bag::of(&$a.raw).zip(&Bag::of(&$b.raw), |$x: F, $y: F| -> F { $want });
            let f = $node;
            check_buf("value", &ev(&f), &want);
            check_buf("structured", &vexpand(&ev_spec(&f)), &want);
        });
        case!($v, format!("binary/s,vec/{}", $id), {
            let n = pick("len", 4);
            let ($a, $b): (Lf<F>, Lf<Vec<F>>) = (leaf("l"), vleaf("r", n));
            let want = Bag::of(&$a.raw).zip(&Bag::of(&$b.raw), |$x: F, $y: F| -> F { $want });
            let f = $node;
            check_buf("value", &ev(&f), &want);
            check_buf("structured", &vexpand(&ev_spec(&f)), &want);
        });)*
    };
}

macro_rules! sums {
    ($v:ident; $($tag:literal $t:tt,)*) => { $(
        case!($v, concat!("sum/", $tag), {
            type T<S> = tyf!(S; $t);
            let n: Lf<T<F>> = leaf("n");
            let want = n.raw.flat().into_iter().fold(k::<F>(0), |a, x| a + x);
            check_buf("value", &ev(&Sum(n.clone())), &want);
            check_buf("method", &ev(&n.clone().sum()), &want);
            check_buf("structured", &expand(&ev_spec(&Sum(n.clone()))), &want);
        });
    )* };
}

fn main() {
    let mut v = vec![];

    unaries!(fixed; v "s" [s]);
    unaries!(fixed; v "3" [3]);
    unaries!(dynamic; v);
    small!(v; "t" [t], "1" [1], "2x3" [2 3], "2x1x2" [2 1 2], "1x2x1x2" [1 2 1 2], "1x2x1x1x2" [1 2 1 1 2],);

    long!(v; "17" [17], "33" [33], "9x2" [9 2], "2x9" [2 9], "1x2x9" [1 2 9],);
    sums!(v; "9" [9], "17" [17], "33" [33], "257" [257], "9x2" [9 2], "17x16" [17 16], "2x1x9" [2 1 9],);
    binaries!(v; "17,17" [17] [17] [17], "33,s" [33] [s] [33], "s,33" [s] [33] [33], "9x2,9x2" [9 2] [9 2] [9 2], "2x9,s" [2 9] [s] [2 9], "s,2x9" [s] [2 9] [2 9],);
    binaries!(v;
        "s,s" [s] [s] [s], "t,t" [t] [t] [t],
        "3,3" [3] [3] [3], "3,s" [3] [s] [3], "s,3" [s] [3] [3], "1,1" [1] [1] [1],
        "2x3,2x3" [2 3] [2 3] [2 3], "3x2,s" [3 2] [s] [3 2], "s,2x3" [s] [2 3] [2 3], "2x2,2x2" [2 2] [2 2] [2 2],
        "2x1x3,2x1x3" [2 1 3] [2 1 3] [2 1 3], "2x1x3,s" [2 1 3] [s] [2 1 3], "s,2x1x3" [s] [2 1 3] [2 1 3],
        "1x2x1x3,1x2x1x3" [1 2 1 3] [1 2 1 3] [1 2 1 3], "1x2x1x3,s" [1 2 1 3] [s] [1 2 1 3], "s,1x2x1x3" [s] [1 2 1 3] [1 2 1 3],
        "2x1x1x2x3,2x1x1x2x3" [2 1 1 2 3] [2 1 1 2 3] [2 1 1 2 3], "2x1x1x2x3,s" [2 1 1 2 3] [s] [2 1 1 2 3],
        "s,2x1x1x2x3" [s] [2 1 1 2 3] [2 1 1 2 3],
    );
    methods!(v; "s,s" [s] [s] [s], "2,2" [2] [2] [2], "s,2" [s] [2] [2], "2x1,s" [2 1] [s] [2 1],);
    dyn_bin!(v;
        "add" |l, r| Add(l, r), |x, y| x + y;
        "sub" |l, r| Sub(l, r), |x, y| x - y;
        "mul" |l, r| Mul(l, r), |x, y| x * y;
        "div" |l, r| Div(l, r), |x, y| x / y;
    );

    case!(v, "binary/s,s/pow", {
        let (l, r): (Lf<F>, Lf<F>) = (leaf("l"), leaf("r"));
        let want = if r.raw == k::<F>(0) {
            k::<F>(1)
        } else if r.raw == k::<F>(1) {
            l.raw
        } else {
            Float::powf(l.raw, r.raw)
        };
        for (what, f) in [("value", Power(l.clone(), r.clone())), ("method", l.clone().pow(r.clone()))] {
            check_buf(what, &ev(&f), &want);
            check_buf("structured", &expand(&ev_spec(&f)), &want);
        }
    });
    // integer exponents: the base may have any sign
    macro_rules! powers {
        ($($e:literal)*) => { $(
            case!(v, concat!("power/", $e), {
                let l: Lf<F> = leaf("l");
                let e = k::<F>($e);
                let mut p = k::<F>(1);
                for _ in 0..($e as i32).abs() {
                    p = p * l.raw;
                }
                let want = if $e < 0 { k::<F>(1) / p } else { p };
                for s in [Spec::Raw(e), Spec::Full(S0, e), Spec::Diagonal(S0, e)] {
                    let f = Power(l.clone(), Lf { raw: e, spec: s });
                    check_buf("value", &ev(&f), &want);
                    check_buf("structured", &expand(&ev_spec(&f)), &want);
                }
            });
        )* };
    }
    powers!(0 1 2 3 4 -1 -2 -3);

    sums!(v; "s" [s], "t" [t], "1" [1], "4" [4], "2x3" [2 3], "2x2" [2 2], "3x1x2" [3 1 2], "2x1x2x2" [2 1 2 2], "1x2x1x2x2" [1 2 1 2 2],);
    case!(v, "sum/vec", {
        let n: Lf<Vec<F>> = vleaf("n", pick("len", 5));
        let want = n.raw.iter().fold(k::<F>(0), |a, x| a + *x);
        check_buf("value", &ev(&Sum(n.clone())), &want);
        check_buf("structured", &expand(&ev_spec(&Sum(n))), &want);
    });

    case!(v, "vec, long", {
        let n = [9, 17, 33, 129, 257][pick("len", 4)];
        let (l, r, s): (Lf<Vec<F>>, Lf<Vec<F>>, Lf<F>) = (vleaf("l", n), vleaf("r", n), leaf("s"));
        let (bl, br) = (Bag::of(&l.raw), Bag::of(&r.raw));
        check_buf("one_sub", &ev(&OneSub(l.clone())), &bl.map(|x| k::<F>(1) - x));
        check_buf("exp", &ev(&Exp(l.clone())), &bl.map(|x| Float::exp(x)));
        check_buf("sub", &ev(&Sub(l.clone(), r.clone())), &bl.zip(&br, |x, y| x - y));
        check_buf("mul", &ev(&Mul(l.clone(), s.clone())), &bl.map(|x| x * s.raw));
        check_buf("sub from scalar", &ev(&Sub(s.clone(), r.clone())), &br.map(|x| s.raw - x));
        check_buf("sum", &ev(&Sum(l.clone())), &l.raw.iter().fold(k::<F>(0), |a, x| a + *x));
    });

    exprs(&mut v);
    main_with("C04", v);
}

/// Whole expressions over variables held by a context, against the same formula on scalars.
fn exprs(v: &mut Vec<Case>) {
    macro_rules! expr {
        ($t:tt; $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr, |$a:ident, $b:ident, $c:ident| $want:expr;)*) => {
            $(case!(v, format!("expr/{}{}", $id, stringify!($t)), {
                type T<S> = tyf!(S; $t);
                let (vx, vy): (T<F>, T<F>) = (Dense::inputs("x"), Dense::inputs("y"));
                let vw = F::inp("w");
                let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
                let $c = vw;
                let want = Bag::of(&vx).zip(&Bag::of(&vy), |$a: F, $b: F| -> F { $want });
                check_buf("value", &$node.evaluate(Cx { x: vx, y: vy, w: vw }).unwrap(), &want);
                check_buf("structured", &expand(&$node.evaluate_spec(Cx { x: vx, y: vy, w: vw }).unwrap()), &want);
            });)*
        };
    }
    macro_rules! all {
        ($($t:tt)*) => { $(expr!($t;
            "(x-y)*w" |x, y, w| x.sub(y).mul(w), |a, b, c| (a - b) * c;
            "w-(x/y)" |x, y, w| w.sub(x.div(y)), |a, b, c| c - a / b;
            "x-(y-w)" |x, y, w| x.sub(y.sub(w)), |a, b, c| a - (b - c);
            "(w/x)-y" |x, y, w| w.div(x).sub(y), |a, b, c| c / a - b;
            "x*y+w" |x, y, w| x.mul(y).add(w), |a, b, c| a * b + c;
            "exp(x)-sin(y)" |x, y, w| Exp(x).sub(Sin(y)), |a, b, c| Float::exp(a) - Float::sin(b);
            "-(w-x^2)*y" |x, y, w| w.sub(x.squared()).neg().mul(y), |a, b, c| (a * a - c) * b;
            "1-(2x-1)(y+1)" |x, y, w| OneSub(SubOne(Double(x)).mul(AddOne(y))), |a, b, c| k::<F>(1) - (a + a - k::<F>(1)) * (b + k::<F>(1));
            "rabbit(x/w)-y" |x, y, w| Rabbit(x.div(w)).sub(y), |a, b, c| a / c * (k::<F>(1) - a / c) - b;
        );)* };
    }
    all!([s] [1] [3] [2 3] [2 1 2] [1 2 1 2]);
}
