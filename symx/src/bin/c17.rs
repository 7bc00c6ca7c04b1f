//! Dual numbers form the algebra of first-order derivatives.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, IntoSpec, Spec};
use aegir::ids::{A, W, X, Y, Z};
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Context, Differentiable, Dual, Function, Identifier, Node, Read};
use symx::*;

fn same<F: Fld>(label: &str, got: Dual<F>, value: F, adjoint: F) {
    Fld::check_eq(&format!("{}, value", label), got.value, value);
    Fld::check_eq(&format!("{}, adjoint", label), got.adjoint, adjoint);
}

fn main() {
    let mut v = vec![];

    // Each operation, with every form of right operand.
    case!(v, "operations", {
        let (a, p, b, q) = (F::inp("a"), F::inp("da"), F::inp("b"), F::inp("db"));
        let (x, y) = (dual!(a, p), dual!(b, q));
        same("-x", -x, -a, -p);
        same("x + y", x + y, a + b, p + q);
        same("x + &y", x + &y, a + b, p + q);
        same("x + b", x + b, a + b, p);
        same("x + &b", x + &b, a + b, p);
        same("x - y", x - y, a - b, p - q);
        same("x - &y", x - &y, a - b, p - q);
        same("x - b", x - b, a - b, p);
        same("x - &b", x - &b, a - b, p);
        same("x * y", x * y, a * b, p * b + a * q);
        same("x * &y", x * &y, a * b, p * b + a * q);
        same("x * b", x * b, a * b, p * b);
        same("x * &b", x * &b, a * b, p * b);
        same("conj", x.conj(), a, -p);
        same("variable", Dual::variable(a), a, F::lit(1, 1));
        same("constant", Dual::constant(a), a, F::lit(0, 1));
        same("dual!(a)", dual!(a), a, F::lit(0, 1));
        same("dual!(a, p)", dual!(a, p), a, p);
        same("from", Dual::from((a, p)), a, p);
    });
    // Adjoints that differ in kind from the value.
    case!(v, "adjoints of other kinds", {
        let (a, b) = (F::inp("a"), F::inp("b"));
        let g = <[F; 3]>::inputs("g");
        let d: Dual<F, [F; 3]> = Dual::from((a, g));
        check_buf("from", &d.adjoint, &g);
        Fld::check_eq("from, value", d.value, a);
        let e = d + b;
        Fld::check_eq("d + b", e.value, a + b);
        check_buf("d + b, adjoint", &e.adjoint, &g);
        let e = d + &b;
        Fld::check_eq("d + &b", e.value, a + b);
        check_buf("d + &b, adjoint", &e.adjoint, &g);
        let e = d - b;
        Fld::check_eq("d - b", e.value, a - b);
        check_buf("d - b, adjoint", &e.adjoint, &g);
        let e = d - &b;
        Fld::check_eq("d - &b", e.value, a - b);
        check_buf("d - &b, adjoint", &e.adjoint, &g);
        let c = d.conj();
        Fld::check_eq("conj, value", c.value, a);
        check_buf("conj, adjoint", &c.adjoint, &Bag::of(&g).map(|x| -x));
        let c = dual!(g, <[[F; 2]; 3]>::inputs("m")).conj();
        check_buf("conj of an array, value", &c.value, &g);
        check_buf("conj of an array, adjoint", &c.adjoint, &Bag::of(&<[[F; 2]; 3]>::inputs("m")).map(|x| -x));
    });
    macro_rules! kinds { ($tag:literal, $t:tt) => {
        case!(v, concat!("variable and constant/", $tag), {
            type T<S> = tyf!(S; $t);
            let b = T::<F>::inputs("b");
            let (d, c) = (Dual::variable(b), Dual::constant(b));
            check_buf("variable, value", &d.value, &b);
            check_buf("variable, adjoint", &d.adjoint, &Bag::of(&b).map(|_| F::lit(1, 1)));
            check_buf("constant, value", &c.value, &b);
            check_buf("constant, adjoint", &c.adjoint, &Bag::of(&b).map(|_| F::lit(0, 1)));
            check_buf("dual!", &dual!(b).adjoint, &Bag::of(&b).map(|_| F::lit(0, 1)));
        });
    } }
    kinds!("s", [s]);
    kinds!("1", [1]);
    kinds!("3", [3]);
    kinds!("2x3", [2 3]);
    kinds!("2x1x2", [2 1 2]);
    kinds!("1x2x1x2", [1 2 1 2]);
    kinds!("t", [t]);
    case!(v, "variable and constant/vec", {
        let b = vleaf::<F>("b", pick("n", 5)).raw;
        let (d, c) = (Dual::variable(b.clone()), Dual::constant(b.clone()));
        check_buf("variable, value", &d.value, &b);
        check_buf("variable, adjoint", &d.adjoint, &b.iter().map(|_| F::lit(1, 1)).collect::<Vec<F>>());
        check_buf("constant, value", &c.value, &b);
        check_buf("constant, adjoint", &c.adjoint, &b.iter().map(|_| F::lit(0, 1)).collect::<Vec<F>>());
    });
    // Every program of three operations, against forward differentiation.
    case!(v, "programs", {
        let mut d = dual!(F::inp("a"), F::inp("da"));
        let mut j = jet(F::inp("a"), F::inp("da"));
        for step in 0..if thorough() { 4 } else { 3 } {
            let (b, q) = (F::inp(&format!("b{}", step)), F::inp(&format!("db{}", step)));
            let (e, k, c) = (dual!(b, q), jet(b, q), jet(b, F::lit(0, 1)));
            match pick(&format!("op{}", step), 14) {
                0 => { d = d + e; j = j + k; },
                1 => { d = d + &e; j = j + k; },
                2 => { d = d + b; j = j + c; },
                3 => { d = d + &b; j = j + c; },
                4 => { d = d - e; j = j - k; },
                5 => { d = d - &e; j = j - k; },
                6 => { d = d - b; j = j - c; },
                7 => { d = d - &b; j = j - c; },
                8 => { d = d * e; j = j * k; },
                9 => { d = d * &e; j = j * k; },
                10 => { d = d * b; j = j * c; },
                11 => { d = d * &b; j = j * c; },
                12 => { d = -d; j = -j; },
                _ => { d = d * d; j = j * j; },
            }
        }
        same("result", d, j.v, j.d);
    });
    // The laws of the algebra.
    case!(v, "laws", {
        let d = |n: &str| dual!(F::inp(n), F::inp(&format!("d{}", n)));
        let (x, y, z) = (d("x"), d("y"), d("z"));
        macro_rules! law { ($l:literal, $a:expr, $b:expr) => { let (a, b) = ($a, $b); same($l, a, b.value, b.adjoint); } }
        law!("associative +", (x + y) + z, x + (y + z));
        law!("commutative +", x + y, y + x);
        law!("associative *", (x * y) * z, x * (y * z));
        law!("commutative *", x * y, y * x);
        law!("distributive", x * (y + z), x * y + x * z);
        law!("negation", x - y, x + (-y));
        law!("inverse", x - x, Dual::constant(F::lit(0, 1)));
        law!("unit", x * Dual::constant(F::lit(1, 1)), x);
        law!("zero", x + Dual::constant(F::lit(0, 1)), x);
        law!("conj twice", x.conj().conj(), x);
        law!("conj +", (x + y).conj(), x.conj() + y.conj());
        law!("conj *", (x * y).conj(), x.conj() * y.conj());
        law!("x * conj x", x * x.conj(), Dual::constant(x.value * x.value));
        law!("nilpotent", dual!(F::lit(0, 1), x.adjoint) * dual!(F::lit(0, 1), y.adjoint), Dual::constant(F::lit(0, 1)));
        law!("plain and dual +", x + y.value, x + Dual::constant(y.value));
        law!("plain and dual *", x * y.value, x * Dual::constant(y.value));
    });

    // evaluate_dual pairs the value with the adjoint, for arbitrary sub-expressions.
    macro_rules! pairs { ($tag:literal, $t:tt $a:tt) => {
        case!(v, concat!("evaluate_dual/any/", $tag), {
            type T<S> = tyf!(S; $t);
            type U<S> = tyf!(S; $a);
            let node = opaque::<T<F>, U<F>>("n");
            let d = Differentiable::<X>::evaluate_dual(&node, X, Nil).unwrap();
            check_buf("value", &d.value, &node.v.raw);
            check_buf("adjoint", &d.adjoint, &node.a.raw);
            let a = Differentiable::<X>::evaluate_adjoint(&node, X, Nil).unwrap();
            check_buf("evaluate_adjoint", &a, &node.a.raw);
        });
    } }
    pairs!("s,s", [s] [s]);
    pairs!("s,3", [s] [3]);
    pairs!("2,2x3", [2] [2 3]);
    pairs!("t,t", [t] [t]);
    pairs!("2x2,2x2x1", [2 2] [2 2 1]);
    macro_rules! duals { ($tag:literal, $p:tt $q:tt $r:tt; $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr;)*) => { $(
        case!(v, concat!("evaluate_dual/", $tag, "/", $id), {
            type P<S> = tyf!(S; $p);
            type Q<S> = tyf!(S; $q);
            type R<S> = tyf!(S; $r);
            let c = Cx { x: P::<F>::inputs("x"), y: Q::<F>::inputs("y"), w: R::<F>::inputs("w") };
            for e in c.x.flat().into_iter().chain(c.y.flat()).chain(c.w.flat()) {
                assume(Fld::lt_(F::lit(0, 1), e));
            }
            let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
            let node = $node;
            macro_rules! by { ($k:ident) => {
                let d = node.evaluate_dual($k, c.clone()).unwrap();
                check_buf(concat!("by ", stringify!($k), ", value"), &d.value, &node.evaluate(c.clone()).unwrap());
                check_buf(concat!("by ", stringify!($k), ", adjoint"), &d.adjoint, &node.adjoint($k).evaluate(c.clone()).unwrap());
                let mut m = c.clone();
                let e = node.evaluate_dual($k, &mut m).unwrap();
                check_buf(concat!("by ", stringify!($k), ", by reference"), &e.value, &d.value);
                check_buf(concat!("by ", stringify!($k), ", by reference, adjoint"), &e.adjoint, &d.adjoint);
            } }
            by!(X); by!(Y);
        });
    )* } }
    duals!("s", [s] [s] [s];
        "x" |x, y, w| x;
        "x+y" |x, y, w| x.add(y);
        "w-y" |x, y, w| w.sub(y);
        "x*y" |x, y, w| x.mul(y);
        "x^y" |x, y, w| x.pow(y);
        "x^2*w" |x, y, w| x.squared().mul(w);
        "exp(x*w)-y" |x, y, w| Exp(x.mul(w)).sub(y);
        "cos(sin(x))" |x, y, w| Cos(Sin(x));
        "sigmoid(x)*y" |x, y, w| Sigmoid(x).mul(y);
        "ln(y)" |x, y, w| y.ln();
        "x.y" |x, y, w| x.dot(y);
        "2*x" |x, y, w| F::lit(2, 1).into_constant().mul(x);
    );
    duals!("3,3,s", [3] [3] [s];
        "x.y" |x, y, w| x.dot(y);
        "x-y" |x, y, w| x.sub(y);
        "y" |x, y, w| y;
    );
    duals!("s,s,2", [s] [s] [2];
        "x*w" |x, y, w| x.mul(w);
        "exp(y)*w" |x, y, w| Exp(y).mul(w);
    );
    // Dual arithmetic on evaluated duals is evaluation of the arithmetic.
    case!(v, "agreement", {
        let c = Cx { x: F::inp("x"), y: F::inp("y"), w: F::inp("w") };
        let (l, r) = (X.into_var().mul(Y.into_var()), Y.into_var().sub(W.into_var()));
        let (a, b) = (l.evaluate_dual(Y, c.clone()).unwrap(), r.evaluate_dual(Y, c.clone()).unwrap());
        let d = |x: Dual<F>, l: &str, y: Dual<F>| same(l, x, y.value, y.adjoint);
        d(l.add(r).evaluate_dual(Y, c.clone()).unwrap(), "+", a + b);
        d(l.sub(r).evaluate_dual(Y, c.clone()).unwrap(), "-", a - b);
        d(l.mul(r).evaluate_dual(Y, c.clone()).unwrap(), "*", a * b);
        d(l.neg().evaluate_dual(Y, c.clone()).unwrap(), "neg", -a);
        d(Y.into_var().evaluate_dual(Y, c.clone()).unwrap(), "variable", Dual::variable(F::inp("y")));
        d(X.into_var().evaluate_dual(Y, c.clone()).unwrap(), "another variable", Dual::constant(F::inp("x")));
        d(F::inp("k").into_constant().evaluate_dual(Y, c.clone()).unwrap(), "constant", Dual::constant(F::inp("k")));
    });
    main_with("C17", v);
}
