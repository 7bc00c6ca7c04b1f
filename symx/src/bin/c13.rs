//! A missing variable is reported precisely; a defined one never is.
//!
//! The presence of every variable is a symbolic choice, contents are symbolic.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, IntoSpec, Spec};
use aegir::errors::{BinaryError, NoError, UnaryError};
use aegir::ids::{Lambda, A, W, X, Y, Z};
use aegir::meta::{Constant, SourceError};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Context, Differentiable, Function, Identifier, Node, Read};
use symx::*;

/// What an error says: the way down to the failing operand, and the name of the variable.
trait Told {
    fn told(&self) -> (String, String);
}
impl<I: std::fmt::Debug> Told for SourceError<I> {
    fn told(&self) -> (String, String) {
        match self {
            SourceError::Undefined(i) => (String::new(), format!("{:?}", i)),
        }
    }
}
impl Told for NoError {
    fn told(&self) -> (String, String) {
        match *self {}
    }
}
impl<L: Shape, R: Shape> Told for IncompatibleShapes<L, R> {
    fn told(&self) -> (String, String) {
        (String::new(), "incompatible shapes".into())
    }
}
fn below<E: Told>(step: char, e: &E) -> (String, String) {
    let (p, n) = e.told();
    (format!("{}{}", step, p), n)
}
impl<L: Told, R: Told, O: Told> Told for BinaryError<L, R, O> {
    fn told(&self) -> (String, String) {
        match self {
            BinaryError::Left(e) => below('L', e),
            BinaryError::Right(e) => below('R', e),
            BinaryError::Output(e) => below('O', e),
        }
    }
}
impl<I: Told, O: Told> Told for UnaryError<I, O> {
    fn told(&self) -> (String, String) {
        match self {
            UnaryError::Inner(e) => e.told(),
            UnaryError::Output(e) => below('O', e),
        }
    }
}

type Fault = Option<(String, String)>;

fn verdict<T, E: Told + std::fmt::Display>(label: &str, got: &Result<T, E>, want: &Fault) {
    match (got, want) {
        (Ok(_), w) => check(&format!("{}: succeeds without {:?}", label, w), Formula::of(w.is_none())),
        (Err(e), None) => check(&format!("{}: every variable is defined, yet {:?}", label, e.told()), Formula::of(false)),
        (Err(e), Some(w)) => {
            check(&format!("{}: tells {:?}, expected {:?}", label, e.told(), w), Formula::of(e.told() == *w));
            let text = e.to_string();
            check(&format!("{}: message {:?} names the variable", label, text), Formula::of(text.contains(&format!(" {}", w.1))));
        },
    }
}
/// Only which variable is named matters, not where: the layout of an adjoint is its own business.
fn named<T, E: Told>(label: &str, got: &Result<T, E>, missing: &[String]) {
    match got {
        Ok(_) => check(&format!("{}: succeeds without {:?}", label, missing), Formula::of(missing.is_empty())),
        Err(e) => check(&format!("{}: blames {:?}, missing are {:?}", label, e.told(), missing), Formula::of(missing.contains(&e.told().1))),
    }
}

/// The variables of an expression in evaluation order, each with the way down to it.
fn first(present: &[(&str, bool)], vars: &[(&str, &str)]) -> Fault {
    vars.iter().find(|(_, v)| !present.iter().find(|p| p.0 == *v).unwrap().1).map(|(p, v)| (p.to_string(), v.to_string()))
}
fn absent(present: &[(&str, bool)], vars: &[(&str, &str)], target: &str) -> Vec<String> {
    present.iter().filter(|p| !p.1 && (p.0 == target || vars.iter().any(|v| v.1 == p.0))).map(|p| p.0.to_string()).collect()
}

macro_rules! exprs {
    ($v:ident, $tag:literal, $p:tt $q:tt $r:tt; $($id:literal $exact:literal |$x:ident, $y:ident, $w:ident| $node:expr, $vars:expr;)*) => {
        $(case!($v, concat!("value/", $tag, "/", $id), {
            type P<S> = tyf!(S; $p);
            type Q<S> = tyf!(S; $q);
            type R<S> = tyf!(S; $r);
            let ctx = Ox::any(P::<F>::inputs("x"), Q::<F>::inputs("y"), R::<F>::inputs("w"));
            let present = [("X", ctx.x.is_some()), ("Y", ctx.y.is_some()), ("W", ctx.w.is_some())];
            let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
            let node = $node;
            let want = first(&present, &$vars);
            verdict("evaluate", &node.evaluate(ctx.clone()), &want);
            verdict("evaluate_spec", &node.evaluate_spec(ctx.clone()), &want);
            let h = node.evaluate_shape(ctx.clone());
            if $exact {
                verdict("evaluate_shape", &h, &want);
            } else if h.is_err() {
                named("evaluate_shape", &h, &absent(&present, &$vars, ""));
            }
            // again, through a reference
            let mut again = ctx;
            verdict("evaluate by reference", &node.evaluate(&mut again), &want);
        });)*
    };
}
macro_rules! adjoints {
    ($v:ident, $tag:literal, $p:tt $q:tt $r:tt; $($id:literal $exact:literal |$x:ident, $y:ident, $w:ident| $node:expr, $vars:expr;)*) => {
        $(case!($v, concat!("derivative/", $tag, "/", $id), {
            type P<S> = tyf!(S; $p);
            type Q<S> = tyf!(S; $q);
            type R<S> = tyf!(S; $r);
            let ctx = Ox::any(P::<F>::inputs("x"), Q::<F>::inputs("y"), R::<F>::inputs("w"));
            let present = [("X", ctx.x.is_some()), ("Y", ctx.y.is_some()), ("W", ctx.w.is_some())];
            let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
            let node = $node;
            let vars = $vars;
            macro_rules! by { ($t:ident, $n:literal) => {
                let missing = absent(&present, &vars, $n);
                let a = node.adjoint($t);
                named(concat!("adjoint by ", $n), &a.evaluate(ctx.clone()), &missing);
                named(concat!("adjoint by ", $n, ", structured"), &a.evaluate_spec(ctx.clone()), &missing);
                let h = a.evaluate_shape(ctx.clone());
                if $exact || h.is_err() {
                    named(concat!("adjoint by ", $n, ", shape"), &h, &missing);
                }
                named(concat!("evaluate_adjoint by ", $n), &node.evaluate_adjoint($t, ctx.clone()), &missing);
                let dual = node.evaluate_dual($t, ctx.clone());
                match (&dual, first(&present, &vars)) {
                    (Err(BinaryError::Left(e)), Some(w)) => check("dual: value error", Formula::of(e.told() == w)),
                    (Err(BinaryError::Right(e)), None) => check("dual: adjoint error", Formula::of(missing.contains(&e.told().1))),
                    (Ok(_), None) => check("dual succeeds", Formula::of(missing.is_empty())),
                    (_, w) => check(&format!("dual: fails on the wrong side (missing {:?})", w), Formula::of(false)),
                }
            } }
            by!(X, "X");
            by!(Y, "Y");
        });)*
    };
}

fn main() {
    let mut v = vec![];

    // Every unary operator passes the error of its operand on.
    macro_rules! unaries {
        ($v:ident, $tag:literal, $t:tt; $($id:literal |$n:ident| $node:expr;)*) => { $(
            case!($v, concat!("unary/", $tag, "/", $id), {
                type T<S> = tyf!(S; $t);
                let ctx = Ox::any(T::<F>::inputs("x"), T::<F>::inputs("y"), F::inp("w"));
                let present = [("X", ctx.x.is_some()), ("Y", ctx.y.is_some()), ("W", ctx.w.is_some())];
                { let $n = X.into_var();
                  let node = $node;
                  let want = first(&present, &[("", "X")]);
                  verdict("evaluate", &node.evaluate(ctx.clone()), &want);
                  verdict("evaluate_spec", &node.evaluate_spec(ctx.clone()), &want);
                  verdict("evaluate_shape", &node.evaluate_shape(ctx.clone()), &want); }
                { let $n = X.into_var().sub(Y.into_var());
                  let node = Mul(W.into_var(), $node);
                  let want = first(&present, &[("L", "W"), ("RL", "X"), ("RR", "Y")]);
                  verdict("evaluate", &node.evaluate(ctx.clone()), &want);
                  verdict("evaluate_spec", &node.evaluate_spec(ctx.clone()), &want);
                  verdict("evaluate_shape", &node.evaluate_shape(ctx.clone()), &want); }
            });
        )* };
    }
    macro_rules! every_unary { ($v:ident, $tag:literal, $t:tt) => {
        unaries!($v, $tag, $t;
            "sub_one" |n| SubOne(n);
            "one_sub" |n| OneSub(n);
            "add_one" |n| AddOne(n);
            "square" |n| Square(n);
            "double" |n| Double(n);
            "negate" |n| Negate(n);
            "sign" |n| Sign(n);
            "abs" |n| Abs(n);
            "dirac" |n| Dirac(n);
            "ln" |n| Ln(n);
            "xlnx" |n| XLnX(n);
            "exp" |n| Exp(n);
            "rabbit" |n| Rabbit(n);
            "sigmoid" |n| Sigmoid(n);
            "cos" |n| Cos(n);
            "cosh" |n| Cosh(n);
            "acos" |n| ArcCos(n);
            "acosh" |n| ArcCosh(n);
            "sin" |n| Sin(n);
            "sinh" |n| Sinh(n);
            "asin" |n| ArcSin(n);
            "asinh" |n| ArcSinh(n);
            "tan" |n| Tan(n);
            "tanh" |n| Tanh(n);
            "atan" |n| ArcTan(n);
            "atanh" |n| ArcTanh(n);
            "gamma" |n| Gamma(n);
            "digamma" |n| DiGamma(n);
            "loggamma" |n| LogGamma(n);
            "factorial" |n| Factorial::factorial(n);
            "erf" |n| Erf(n);
            "erfc" |n| Erfc::erfc(n);
        );
    } }
    every_unary!(v, "s", [s]);
    every_unary!(v, "2", [2]);

    macro_rules! all { ($m:ident, $v:ident, $tag:literal, $p:tt $q:tt $r:tt) => { $m!($v, $tag, $p $q $r;
        "x" true |x, y, w| x, [("", "X")];
        "y" true |x, y, w| y, [("", "Y")];
        "x+y" true |x, y, w| x.add(y), [("L", "X"), ("R", "Y")];
        "y-x" true |x, y, w| y.sub(x), [("L", "Y"), ("R", "X")];
        "x*y" true |x, y, w| x.mul(y), [("L", "X"), ("R", "Y")];
        "x/y" true |x, y, w| x.div(y), [("L", "X"), ("R", "Y")];
        "y/x" true |x, y, w| y.div(x), [("L", "Y"), ("R", "X")];
        "x-y*w" true |x, y, w| x.sub(y.mul(w)), [("L", "X"), ("RL", "Y"), ("RR", "W")];
        "(w+y)*x" true |x, y, w| w.add(y).mul(x), [("LL", "W"), ("LR", "Y"), ("R", "X")];
        "(x/y)-(y+w)" true |x, y, w| x.div(y).sub(y.add(w)), [("LL", "X"), ("LR", "Y"), ("RL", "Y"), ("RR", "W")];
        "((x*y)+w)/x" true |x, y, w| x.mul(y).add(w).div(x), [("LLL", "X"), ("LLR", "Y"), ("LR", "W"), ("R", "X")];
        "x*x" true |x, y, w| x.mul(x), [("L", "X"), ("R", "X")];
        "-(y*x)" true |x, y, w| y.mul(x).neg(), [("L", "Y"), ("R", "X")];
        "sigmoid(x*w)" true |x, y, w| Sigmoid(x.mul(w)), [("L", "X"), ("R", "W")];
        "exp(x)*w" true |x, y, w| Exp(x).mul(w), [("L", "X"), ("R", "W")];
        "cos(w)-y^2" true |x, y, w| Cos(w).sub(y.squared()), [("L", "W"), ("R", "Y")];
        "ln(y)+x" true |x, y, w| y.ln().add(x), [("L", "Y"), ("R", "X")];
    ); } }
    all!(exprs, v, "s", [s] [s] [s]);
    all!(exprs, v, "2", [2] [2] [2]);
    all!(exprs, v, "t", [t] [t] [t]);
    all!(exprs, v, "2x1", [2 1] [2 1] [2 1]);
    all!(adjoints, v, "s", [s] [s] [s]);
    macro_rules! scalars { ($m:ident, $v:ident) => { $m!($v, "s", [s] [s] [s];
        "x^y" false |x, y, w| x.pow(y), [("L", "X"), ("R", "Y")];
        "w*x^(y+w)" false |x, y, w| w.mul(x.pow(y.add(w))), [("L", "W"), ("RL", "X"), ("RRL", "Y"), ("RRR", "W")];
        "x . y" true |x, y, w| x.dot(y), [("L", "X"), ("R", "Y")];
        "x + 2" true |x, y, w| x.add(F::lit(2, 1).into_constant()), [("L", "X")];
        "3 * (y - x)" true |x, y, w| F::lit(3, 1).into_constant().mul(y.sub(x)), [("RL", "Y"), ("RR", "X")];
        "2" true |x, y, w| F::lit(2, 1).into_constant(), [] as [(&str, &str); 0];
    ); } }
    scalars!(exprs, v);
    scalars!(adjoints, v);
    exprs!(v, "3,3,s", [3] [3] [s];
        "sum(x*y)" false |x, y, w| x.mul(y).sum(), [("L", "X"), ("R", "Y")];
        "w*sum(y)+x" false |x, y, w| w.mul(y.sum()).add(x), [("LL", "W"), ("LR", "Y"), ("R", "X")];
        "x.y" true |x, y, w| x.dot(y), [("L", "X"), ("R", "Y")];
        "(y.x)*w" true |x, y, w| y.dot(x).mul(w), [("LL", "Y"), ("LR", "X"), ("R", "W")];
        "x ⊗ y" true |x, y, w| TensorProduct::new(x, y), [("L", "X"), ("R", "Y")];
        "w ⊗ y" true |x, y, w| TensorProduct::new(w, y), [("L", "W"), ("R", "Y")];
    );
    exprs!(v, "2,2x3,3x1", [2] [2 3] [3 1];
        "x.y.w" true |x, y, w| x.dot(y).dot(w), [("LL", "X"), ("LR", "Y"), ("R", "W")];
        "x.(y.w)" true |x, y, w| x.dot(y.dot(w)), [("L", "X"), ("RL", "Y"), ("RR", "W")];
    );
    adjoints!(v, "2,2,s", [2] [2] [s];
        "x.y" true |x, y, w| x.dot(y), [("L", "X"), ("R", "Y")];
        "x+y" true |x, y, w| x.add(y), [("L", "X"), ("R", "Y")];
        "-(y-x)" true |x, y, w| y.sub(x).neg(), [("L", "Y"), ("R", "X")];
        "x" true |x, y, w| x, [("", "X")];
    );
    adjoints!(v, "s,s,2", [s] [s] [2];
        "w*x-w*y" true |x, y, w| w.mul(x).sub(w.mul(y)), [("LL", "W"), ("LR", "X"), ("RL", "W"), ("RR", "Y")];
        "exp(y)*w" true |x, y, w| Exp(y).mul(w), [("L", "Y"), ("R", "W")];
    );
    // beside an operand in any representation, with any value (exactly zero and one among them):
    // no short cut hides what the other operand lacks
    exprs!(v, "any,3,3", [3] [3] [s];
        "c*sum(x)" false |x, y, w| leaf::<F>("c").mul(x.sum()), [("R", "X")];
        "sum(x)*c" false |x, y, w| x.sum().mul(leaf::<F>("c")), [("L", "X")];
        "c+sum(x)" false |x, y, w| leaf::<F>("c").add(x.sum()), [("R", "X")];
        "sum(x)+c" false |x, y, w| x.sum().add(leaf::<F>("c")), [("L", "X")];
        "c-sum(x)" false |x, y, w| leaf::<F>("c").sub(x.sum()), [("R", "X")];
        "sum(x)-c" false |x, y, w| x.sum().sub(leaf::<F>("c")), [("L", "X")];
        "c/sum(x)" false |x, y, w| leaf::<F>("c").div(x.sum()), [("R", "X")];
        "sum(x)/c" false |x, y, w| x.sum().div(leaf::<F>("c")), [("L", "X")];
        "c^sum(x)" false |x, y, w| leaf::<F>("c").pow(x.sum()), [("R", "X")];
        "sum(x)^c" false |x, y, w| x.sum().pow(leaf::<F>("c")), [("L", "X")];
        "c*w^c" false |x, y, w| leaf::<F>("c").mul(w.pow(leaf::<F>("d"))), [("RL", "W")];
        "c ⊗ sum(x)" false |x, y, w| TensorProduct::new(leaf::<F>("c"), x.sum()), [("R", "X")];
        "sum(x) ⊗ c" false |x, y, w| TensorProduct::new(x.sum(), leaf::<F>("c")), [("L", "X")];
        "c . sum(x)" false |x, y, w| leaf::<F>("c").dot(x.sum()), [("R", "X")];
        "sum(x) . c" false |x, y, w| x.sum().dot(leaf::<F>("c")), [("L", "X")];
        "c3*sum(x)" false |x, y, w| leaf::<[F; 3]>("c").mul(x.sum()), [("R", "X")];
        "c3 . x sum(y)" false |x, y, w| leaf::<[F; 3]>("c").dot(x.mul(y.sum())), [("RL", "X"), ("RR", "Y")];
        "x sum(y) . c3" false |x, y, w| x.mul(y.sum()).dot(leaf::<[F; 3]>("c")), [("LL", "X"), ("LR", "Y")];
        "c ⊗ x sum(y)" false |x, y, w| TensorProduct::new(leaf::<F>("c"), x.mul(y.sum())), [("RL", "X"), ("RR", "Y")];
        "c3 ⊗ x" true |x, y, w| TensorProduct::new(leaf::<[F; 3]>("c"), x), [("R", "X")];
        "x ⊗ c3" true |x, y, w| TensorProduct::new(x, leaf::<[F; 3]>("c")), [("L", "X")];
        "c33 . x" true |x, y, w| leaf::<[[F; 3]; 3]>("c").dot(x), [("R", "X")];
        "x . c33" true |x, y, w| x.dot(leaf::<[[F; 3]; 3]>("c")), [("L", "X")];
        "c33*x . y" true |x, y, w| leaf::<[[F; 3]; 3]>("c").mul(w).dot(x), [("LR", "W"), ("R", "X")];
    );
    // second derivatives, of variables and of products
    case!(v, "derivative/second", {
        let ctx = Ox::any(F::inp("x"), F::inp("y"), F::inp("w"));
        let present = [("X", ctx.x.is_some()), ("Y", ctx.y.is_some()), ("W", ctx.w.is_some())];
        let (x, y) = (X.into_var(), Y.into_var());
        let of = |vars: &[&str]| -> Vec<String> {
            present.iter().filter(|p| !p.1 && vars.contains(&p.0)).map(|p| p.0.to_string()).collect()
        };
        named("x by X by X", &x.adjoint(X).adjoint(X).evaluate(ctx.clone()), &of(&["X"]));
        named("x by X by Y", &x.adjoint(X).adjoint(Y).evaluate(ctx.clone()), &of(&["X", "Y"]));
        named("x by Y by X", &x.adjoint(Y).adjoint(X).evaluate(ctx.clone()), &of(&["X", "Y"]));
        named("x by W by Y, structured", &x.adjoint(W).adjoint(Y).evaluate_spec(ctx.clone()), &of(&["X", "Y", "W"]));
        named("x by W by Y, shape", &x.adjoint(W).adjoint(Y).evaluate_shape(ctx.clone()), &of(&["X", "Y", "W"]));
        named("xy by X by Y", &x.mul(y).adjoint(X).adjoint(Y).evaluate(ctx.clone()), &of(&["X", "Y"]));
        named("xy by X by W", &x.mul(y).adjoint(X).adjoint(W).evaluate(ctx.clone()), &of(&["X", "Y", "W"]));
    });
    // the adjoint nodes themselves say which of value and target is missing
    case!(v, "derivative/where", {
        let ctx = Ox::any(F::inp("x"), F::inp("y"), F::inp("w"));
        let present = [("X", ctx.x.is_some()), ("Y", ctx.y.is_some()), ("W", ctx.w.is_some())];
        let want = first(&present, &[("L", "X"), ("R", "Y")]);
        let a = X.into_var().adjoint(Y);
        verdict("value", &a.evaluate(ctx.clone()), &want);
        verdict("structured", &a.evaluate_spec(ctx.clone()), &want);
        verdict("shape", &a.evaluate_shape(ctx.clone()), &want);
        let want = first(&present, &[("LL", "X"), ("LR", "Y"), ("R", "W")]);
        let a = a.adjoint(W);
        verdict("second, value", &a.evaluate(ctx.clone()), &want);
        verdict("second, structured", &a.evaluate_spec(ctx.clone()), &want);
        verdict("second, shape", &a.evaluate_shape(ctx.clone()), &want);
        let want = first(&present, &[("R", "W")]);
        let a = F::lit(2, 1).into_constant().adjoint(W);
        verdict("constant", &a.evaluate(ctx.clone()), &want);
        verdict("constant, structured", &a.evaluate_spec(ctx.clone()), &want);
        verdict("constant, shape", &a.evaluate_shape(ctx.clone()), &want);
    });
    // run-time vectors: a missing variable is found before shapes are compared within an operand,
    // and the left operand fails first
    case!(v, "value/vec", {
        let (n, m, k) = (pick("n", 2), pick("m", 2), pick("k", 2));
        let ctx = Ox::any(vleaf::<F>("x", n).raw, vleaf::<F>("y", m).raw, vleaf::<F>("w", k).raw);
        let present = [("X", ctx.x.is_some()), ("Y", ctx.y.is_some()), ("W", ctx.w.is_some())];
        let node = X.into_var().add(Y.into_var()).mul(W.into_var());
        let bad = |p: &str| Some((p.to_string(), "incompatible shapes".to_string()));
        let want = first(&present, &[("LL", "X"), ("LR", "Y")])
            .or(if n != m { bad("LO") } else { None })
            .or(first(&present, &[("R", "W")]))
            .or(if n != k { bad("O") } else { None });
        macro_rules! told { ($l:literal, $e:expr) => {
            let t = $e.as_ref().err().map(|e| e.told());
            check(&format!(concat!($l, ": {:?}, expected {:?}"), t, want), Formula::of(t == want));
        } }
        told!("evaluate", node.evaluate(ctx.clone()));
        told!("evaluate_spec", node.evaluate_spec(ctx.clone()));
        told!("evaluate_shape", node.evaluate_shape(ctx.clone()));
    });
    // a cached node needs its variables only while the cache is empty
    case!(v, "cached", {
        let ctx = Ox::any(F::inp("x"), F::inp("y"), F::inp("w"));
        let present = [("X", ctx.x.is_some()), ("Y", ctx.y.is_some()), ("W", ctx.w.is_some())];
        let node = X.into_var().mul(Y.into_var()).cached(W);
        let inner: &[(&str, &str)] = if ctx.w.is_some() { &[] } else { &[("L", "X"), ("R", "Y")] };
        let want = first(&present, inner);
        verdict("evaluate", &node.evaluate(ctx.clone()), &want);
        verdict("evaluate_spec", &node.evaluate_spec(ctx.clone()), &want);
        verdict("evaluate_shape", &node.evaluate_shape(ctx.clone()), &want);
        let outer: Vec<(String, &str)> = inner.iter().map(|(p, n)| (format!("R{}", p), *n)).collect();
        let outer: Vec<(&str, &str)> = outer.iter().map(|(p, n)| (p.as_str(), *n)).collect();
        verdict("evaluate within", &F::lit(2, 1).into_constant().mul(node).evaluate(ctx.clone()), &first(&present, &outer));
    });
    // the messages and the plumbing of the error types
    case!(v, "errors", {
        let e = SourceError::Undefined(X);
        let wrapped: [BinaryError<SourceError<X>, SourceError<X>, SourceError<X>>; 3] =
            [BinaryError::Left(e), BinaryError::Right(e), BinaryError::Output(e)];
        for w in &wrapped {
            check("binary error keeps the message", Formula::of(w.to_string() == e.to_string()));
        }
        let wrapped: [UnaryError<SourceError<X>, SourceError<X>>; 2] = [UnaryError::Inner(e), UnaryError::Output(e)];
        for w in &wrapped {
            check("unary error keeps the message", Formula::of(w.to_string() == e.to_string()));
        }
        check("message names X", Formula::of(e.to_string().contains(" X")));
        check("message names Lambda", Formula::of(SourceError::Undefined(Lambda).to_string().contains(" Lambda")));
    });
    main_with("C13", v);
}
