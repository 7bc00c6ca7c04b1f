//! IEEE double arithmetic at the edges of each operator's domain, bit by bit.
//!
//! Inputs range over every double: both zeros, infinities, NaN, subnormals.  The transcendental
//! functions are constrained by what IEEE recommends for them (`symx::smt`, `fp_axioms`) and
//! otherwise left free.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Contract as CTrait, Spec};
use aegir::ids::{X, Y};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Differentiable, Function, Identifier, Node};
use symx::*;

fn z<F: Fld>() -> F {
    F::lit(0, 1)
}
fn o<F: Fld>() -> F {
    F::lit(1, 1)
}
fn all(v: Vec<Formula>) -> Formula {
    Formula::and(v)
}
fn some(v: Vec<Formula>) -> Formula {
    Formula::or(v)
}
fn implies(a: Formula, b: Formula) -> Formula {
    Formula::or(vec![a.not(), b])
}
fn num<F: Fld>(x: F) -> Formula {
    x.nan_().not()
}
fn finite<F: Fld>(x: F) -> Formula {
    all(vec![num(x), x.inf_().not()])
}
fn within<F: Fld>(lo: F, x: F, hi: F) -> Formula {
    all(vec![lo.le_(x), x.le_(hi)])
}
/// The same number, or both not a number.
fn alike<F: Fld>(a: F, b: F) -> Formula {
    some(vec![a.eq_(b), all(vec![a.nan_(), b.nan_()])])
}
/// The same special value: NaN, an infinity of the same sign, or any number on both sides.
fn class<F: Fld>(a: F, b: F) -> Formula {
    some(vec![
        all(vec![a.nan_(), b.nan_()]),
        all(vec![a.inf_(), a.eq_(b)]),
        all(vec![finite(a), finite(b)]),
    ])
}

/// What an operator must satisfy at every double, for a scalar and in every representation of an
/// array, a pair and a run-time sized vector.
macro_rules! pointwise {
    ($v:ident, $($id:literal |$n:ident| $node:expr, |$x:ident, $r:ident| [$($l:literal: $f:expr;)*];)*) => {$(
        case!($v, concat!("pointwise/", $id, "/s"), Mode::Fp, {
            let $x = F::inp("x");
            let $n = Lf::raw($x);
            let $r: F = ev(&$node);
            $(check($l, $f);)*
        });
        pointwise!(@ $v, concat!("pointwise/", $id, "/r"), leaf::<F>("n"), $n, $node);
        pointwise!(@ $v, concat!("pointwise/", $id, "/2"), leaf::<[F; 2]>("n"), $n, $node);
        pointwise!(@ $v, concat!("pointwise/", $id, "/t"), leaf::<(F, F)>("n"), $n, $node);
        pointwise!(@ $v, concat!("pointwise/", $id, "/v"), vleaf::<F>("n", 2), $n, $node);
    )*};
    (@ $v:ident, $id:expr, $leaf:expr, $n:ident, $node:expr) => {
        case!($v, $id, Mode::Fp, {
            let leaf = $leaf;
            let inputs = leaf.raw.flat();
            let wants: Vec<F> = inputs.iter().map(|x| { let $n = Lf::raw(*x); ev(&$node) }).collect();
            let $n = leaf.clone();
            let node = $node;
            for (label, out) in [("value", ev(&node).flat()), ("structured value", ev_spec(&node).unwrap().flat())] {
                check("as many entries", Formula::of(out.len() == inputs.len()));
                for (want, out) in wants.iter().zip(out) {
                    F::check_eq(label, out, *want);
                }
            }
        });
    };
}

/// A structured operand and its dense expansion give the same value at every double.
macro_rules! sparse1 {
    ($v:ident; $($id:literal |$n:ident| $node:expr;)*) => {$(
        sparse1!(@ $v, concat!("sparse/", $id, "/2"), leaf::<[F; 2]>("n"), $n, $node);
        sparse1!(@ $v, concat!("sparse/", $id, "/s"), leaf::<F>("n"), $n, $node);
        sparse1!(@ $v, concat!("sparse/", $id, "/v"), vleaf::<F>("n", 2), $n, $node);
    )*};
    (@ $v:ident, $id:expr, $leaf:expr, $n:ident, $node:expr) => {
        case!($v, $id, Mode::Fp, {
            let l = $leaf;
            let want = { let $n = Lf::raw(l.raw.clone()); ev(&$node) };
            let $n = l.clone();
            let node = $node;
            check_buf("value", &ev(&node), &want);
            check_buf("structured value", &ev_spec(&node).unwrap(), &want);
        });
    };
}
macro_rules! sparse2 {
    ($v:ident; $($id:literal |$l:ident, $r:ident| $node:expr, $ok:expr;)*) => {$(
        sparse2!(@ $v, concat!("sparse/", $id, "/2,2"), leaf::<[F; 2]>("l"), leaf::<[F; 2]>("r"), $l, $r, $node, $ok);
        sparse2!(@ $v, concat!("sparse/", $id, "/s,2"), leaf::<F>("l"), leaf::<[F; 2]>("r"), $l, $r, $node, $ok);
        sparse2!(@ $v, concat!("sparse/", $id, "/2,s"), leaf::<[F; 2]>("l"), leaf::<F>("r"), $l, $r, $node, $ok);
        sparse2!(@ $v, concat!("sparse/", $id, "/s,s"), leaf::<F>("l"), leaf::<F>("r"), $l, $r, $node, $ok);
        sparse2!(@ $v, concat!("sparse/", $id, "/v,v"), vleaf::<F>("l", 1), vleaf::<F>("r", 1), $l, $r, $node, $ok);
    )*};
    (@ $v:ident, $id:expr, $ll:expr, $rr:expr, $l:ident, $r:ident, $node:expr, $ok:expr) => {
        case!($v, $id, Mode::Fp, {
            let (a, b) = ($ll, $rr);
            let ok: fn(&[F], &[F]) -> Formula = $ok;
            assume(ok(&a.raw.flat(), &b.raw.flat()));
            let want = { let ($l, $r) = (Lf::raw(a.raw.clone()), Lf::raw(b.raw.clone())); ev(&$node) };
            let ($l, $r) = (a.clone(), b.clone());
            let node = $node;
            check_buf("value", &ev(&node), &want);
            check_buf("structured value", &ev_spec(&node).unwrap(), &want);
        });
    };
}
fn anything<F: Fld>(_: &[F], _: &[F]) -> Formula {
    Formula::True
}
/// A known zero annihilates: it only meets finite factors here.
fn no_zero_times_infinity<F: Fld>(a: &[F], b: &[F]) -> Formula {
    let zero = |v: &[F]| some(v.iter().map(|x| x.eq_(z())).collect());
    let fin = |v: &[F]| all(v.iter().map(|x| finite(*x)).collect());
    all(vec![implies(zero(a), fin(b)), implies(zero(b), fin(a))])
}

/// Contractions add in another order for constants: the special values must still agree.
macro_rules! contraction {
    ($v:ident; $($id:literal $axes:literal $l:ty, $r:ty;)*) => {$(
        case!($v, concat!("contraction/", $id), Mode::Fp, {
            type P = F;
            let (a, b): (Lf<$l>, Lf<$r>) = (leaf("l"), leaf("r"));
            assume(no_zero_times_infinity(&a.raw.flat(), &b.raw.flat()));
            let want = <$l as CTrait<$r, $axes>>::contract(a.raw.clone(), b.raw.clone()).unwrap().flat();
            let got = <$l as CTrait<$r, $axes>>::contract_spec(a.spec.clone(), b.spec.clone()).unwrap().unwrap().flat();
            for (g, w) in got.iter().zip(&want) {
                check("special value", class(*g, *w));
            }
        });
    )*};
}

fn main() {
    let mut v: Vec<Case> = Vec::new();

    pointwise! { v,
        "sigmoid" |n| Sigmoid(n), |x, r| [
            "never NaN for a number": implies(num(x), num(r));
            "in [0, 1]": implies(num(x), within(z(), r, o()));
            "1 at +inf": implies(all(vec![x.inf_(), z::<F>().lt_(x)]), r.eq_(o()));
            "0 at -inf": implies(all(vec![x.inf_(), x.lt_(z())]), r.eq_(z()));
            "1/2 at zero": implies(x.eq_(z()), r.eq_(F::lit(1, 2)));
            "NaN for NaN": implies(x.nan_(), r.nan_());
        ];
        "xlnx" |n| XLnX(n), |x, r| [
            "zero at zero": implies(x.eq_(z()), r.eq_(z()));
            "never NaN where x >= 0": implies(z::<F>().le_(x), num(r));
            "zero at one": implies(x.eq_(o()), r.eq_(z()));
            "+inf at +inf": implies(all(vec![x.inf_(), z::<F>().lt_(x)]), r.eq_(x));
            "no sign change in (0, 1)": implies(within(z(), x, o()), r.le_(z()));
            "NaN for NaN": implies(x.nan_(), r.nan_());
        ];
        "sign" |n| Sign(n), |x, r| [
            "positive": implies(z::<F>().lt_(x), r.eq_(o()));
            "negative": implies(x.lt_(z()), r.eq_(F::lit(-1, 1)));
            "zero": implies(x.eq_(z()), r.eq_(z()));
            "NaN for NaN": implies(x.nan_(), r.nan_());
        ];
        "dirac" |n| Dirac(n), |x, r| [
            "pole at either zero": implies(x.eq_(z()), all(vec![r.inf_(), z::<F>().lt_(r)]));
            "zero elsewhere": implies(all(vec![num(x), x.ne_(z())]), r.eq_(z()));
        ];
        "abs" |n| Abs(n), |x, r| [
            "non-negative": implies(num(x), z::<F>().le_(r));
            "magnitude": implies(num(x), some(vec![r.eq_(x), r.eq_(-x)]));
            "NaN for NaN": implies(x.nan_(), r.nan_());
        ];
        "negate" |n| Negate(n), |x, r| [
            "opposite": alike(r, -x);
        ];
        "rabbit" |n| Rabbit(n), |x, r| [
            "zero at 0 and 1": implies(some(vec![x.eq_(z()), x.eq_(o())]), r.eq_(z()));
            "-inf at infinity": implies(x.inf_(), all(vec![r.inf_(), r.lt_(z())]));
            "never NaN for a number": implies(num(x), num(r));
        ];
        "exp" |n| Exp(n), |x, r| [
            "non-negative": implies(num(x), z::<F>().le_(r));
            "0 at -inf": implies(all(vec![x.inf_(), x.lt_(z())]), r.eq_(z()));
            "+inf at +inf": implies(all(vec![x.inf_(), z::<F>().lt_(x)]), r.eq_(x));
            "1 at zero": implies(x.eq_(z()), r.eq_(o()));
        ];
        "ln" |n| Ln(n), |x, r| [
            "-inf at zero": implies(x.eq_(z()), all(vec![r.inf_(), r.lt_(z())]));
            "zero at one": implies(x.eq_(o()), r.eq_(z()));
            "NaN below zero": implies(x.lt_(z()), r.nan_());
            "finite on positive numbers": implies(all(vec![z::<F>().lt_(x), x.inf_().not()]), finite(r));
        ];
        "square" |n| Square(n), |x, r| [
            "non-negative": implies(num(x), z::<F>().le_(r));
            "zero at zero": implies(x.eq_(z()), r.eq_(z()));
        ];
        "double" |n| Double(n), |x, r| [
            "x + x": alike(r, x + x);
        ];
        "add_one" |n| AddOne(n), |x, r| [
            "x + 1": alike(r, x + o::<F>());
        ];
        "sub_one" |n| SubOne(n), |x, r| [
            "x - 1": alike(r, x - o::<F>());
        ];
        "one_sub" |n| OneSub(n), |x, r| [
            "1 - x": alike(r, o::<F>() - x);
        ];
    }
    case!(v, "sigmoid/function", Mode::Fp, {
        let x = F::inp("x");
        let r = sigmoid(x);
        check("never NaN for a number", implies(num(x), num(r)));
        check("in [0, 1]", implies(num(x), within(z(), r, o())));
        check("at least 1/2 for x >= 0", implies(z::<F>().le_(x), F::lit(1, 2).le_(r)));
        check("at most 1/2 for x <= 0", implies(x.le_(z()), r.le_(F::lit(1, 2))));
    });
    case!(v, "sigmoid/derivative", Mode::Fp, {
        let x = F::inp("x");
        assume(num(x));
        let d: F = Sigmoid(X.into_var()).adjoint(X).evaluate(ctx!{X = x}).unwrap();
        check("never NaN", num(d));
        check("never negative", z::<F>().le_(d));
        check("at most one", d.le_(o()));
        check("zero at infinity", implies(x.inf_(), d.eq_(z())));
    });
    case!(v, "xlnx/derivative", Mode::Fp, {
        let x = F::inp("x");
        assume(z::<F>().le_(x));
        let d: F = XLnX(X.into_var()).adjoint(X).evaluate(ctx!{X = x}).unwrap();
        check("never NaN where x >= 0", num(d));
        check("-inf at zero", implies(x.eq_(z()), all(vec![d.inf_(), d.lt_(z())])));
        check("one at one", implies(x.eq_(o()), d.eq_(o())));
    });
    case!(v, "entropy", Mode::Fp, {
        let x = F::inp("x");
        assume(within(z(), x, o()));
        let n = Negate(XLnX(X.into_var()).add(XLnX(OneSub(X.into_var()))));
        let h: F = n.evaluate(ctx!{X = x}).unwrap();
        check("never NaN on [0, 1]", num(h));
        check("never negative on [0, 1]", z::<F>().le_(h));
        check("zero at the ends", implies(some(vec![x.eq_(z()), x.eq_(o())]), h.eq_(z())));
    });
    case!(v, "sign/derivative", Mode::Fp, {
        let x = F::inp("x");
        assume(num(x));
        let d: F = Sign(X.into_var()).adjoint(X).evaluate(ctx!{X = x}).unwrap();
        check("pole at either zero", implies(x.eq_(z()), all(vec![d.inf_(), z::<F>().lt_(d)])));
        check("zero elsewhere", implies(x.ne_(z()), d.eq_(z())));
    });
    case!(v, "abs/derivative", Mode::Fp, {
        let x = F::inp("x");
        assume(num(x));
        let d: F = Abs(X.into_var()).adjoint(X).evaluate(ctx!{X = x}).unwrap();
        check("1", implies(z::<F>().lt_(x), d.eq_(o())));
        check("-1", implies(x.lt_(z()), d.eq_(F::lit(-1, 1))));
        check("zero at either zero", implies(x.eq_(z()), d.eq_(z())));
    });
    case!(v, "power/exponent zero", Mode::Fp, {
        let (l, r): (Lf<F>, Lf<F>) = (leaf("l"), leaf("r"));
        assume(r.raw.eq_(z()));
        for p in [ev(&Power(l.clone(), r.clone())), ev_spec(&Power(l.clone(), r.clone())).unwrap()] {
            check("x^0 is one for every x", p.eq_(o()));
        }
    });
    case!(v, "power/base one", Mode::Fp, {
        let (l, r): (Lf<F>, Lf<F>) = (leaf("l"), leaf("r"));
        assume(l.raw.eq_(o()));
        for p in [ev(&Power(l.clone(), r.clone())), ev_spec(&Power(l.clone(), r.clone())).unwrap()] {
            check("1^y is one for every y", p.eq_(o()));
        }
    });
    case!(v, "power/base zero", Mode::Fp, {
        let (l, r): (Lf<F>, Lf<F>) = (leaf("l"), leaf("r"));
        assume(all(vec![l.raw.eq_(z()), num(r.raw), r.raw.ne_(z())]));
        for p in [ev(&Power(l.clone(), r.clone())), ev_spec(&Power(l.clone(), r.clone())).unwrap()] {
            check("0^y for y > 0", implies(z::<F>().lt_(r.raw), p.eq_(z())));
            check("0^y for y < 0", implies(r.raw.lt_(z()), p.inf_()));
        }
    });
    case!(v, "power/derivative at zero", Mode::Fp, {
        let (x, y) = (F::inp("x"), F::inp("y"));
        assume(all(vec![x.eq_(z()), o::<F>().le_(y), finite(y)]));
        let n = Power(X.into_var(), Y.into_var());
        let (dx, dy): (F, F) = (n.adjoint(X).evaluate(ctx!{X = x, Y = y}).unwrap(), n.adjoint(Y).evaluate(ctx!{X = x, Y = y}).unwrap());
        check("d/dx is a number", finite(dx));
        check("d/dx is zero for y > 1", implies(o::<F>().lt_(y), dx.eq_(z())));
        check("d/dx is one for y = 1", implies(y.eq_(o()), dx.eq_(o())));
        check("d/dy is zero", dy.eq_(z()));
    });
    case!(v, "div/poles", Mode::Fp, {
        let (l, r): (Lf<F>, Lf<F>) = (leaf("l"), leaf("r"));
        let (x, y) = (l.raw, r.raw);
        for q in [ev(&Div(l.clone(), r.clone())), ev_spec(&Div(l.clone(), r.clone())).unwrap()] {
            check("number over zero", implies(all(vec![num(x), x.ne_(z()), y.eq_(z())]), q.inf_()));
            check("zero over zero", implies(all(vec![x.eq_(z()), y.eq_(z())]), q.nan_()));
            check("number over infinity", implies(all(vec![finite(x), y.inf_()]), q.eq_(z())));
            check("NaN", implies(some(vec![x.nan_(), y.nan_()]), q.nan_()));
        }
    });

    sparse1! { v;
        "sigmoid" |n| Sigmoid(n);
        "xlnx" |n| XLnX(n);
        "sign" |n| Sign(n);
        "dirac" |n| Dirac(n);
        "abs" |n| Abs(n);
        "ln" |n| Ln(n);
        "exp" |n| Exp(n);
        "square" |n| Square(n);
        "rabbit" |n| Rabbit(n);
        "one_sub" |n| OneSub(n);
        "cos" |n| Cos(n);
        "tanh" |n| Tanh(n);
        "gamma" |n| Gamma(n);
        "erfc" |n| OneSub(Erf(n));
        "sum" |n| Sum(n);
    }
    sparse2! { v;
        "add" |l, r| Add(l, r), anything;
        "sub" |l, r| Sub(l, r), anything;
        "div" |l, r| Div(l, r), anything;
        "mul" |l, r| Mul(l, r), no_zero_times_infinity;
    }
    case!(v, "sparse/power", Mode::Fp, {
        let (l, r): (Lf<F>, Lf<F>) = (leaf("l"), leaf("r"));
        let want: F = ev(&Power(Lf::raw(l.raw), Lf::raw(r.raw)));
        check_buf("value", &ev(&Power(l.clone(), r.clone())), &want);
        check_buf("structured value", &ev_spec(&Power(l, r)).unwrap(), &want);
    });
    contraction! { v;
        "dot 1" 1 [P; 1], [P; 1];
        "dot 2" 1 [P; 2], [P; 2];
        "matvec" 1 [[P; 2]; 2], [P; 2];
        "vecmat" 1 [P; 2], [[P; 2]; 2];
        "matmat" 1 [[P; 2]; 2], [[P; 2]; 2];
        "scalars" 1 P, P;
        "outer" 0 [P; 2], [P; 2];
        "scaled vector" 0 P, [P; 2];
        "vector scaled" 0 [P; 2], P;
        "scaled matrix" 0 P, [[P; 2]; 2];
    }
    main_with("C20", v);
}
