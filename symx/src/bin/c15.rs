//! Caching and repeated evaluation are transparent.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, IntoSpec, Spec};
use aegir::ids::{Lambda, A, W, X, Y, Z};
use aegir::meta::{Cached, Constant};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Context, Contains, Differentiable, Function, Identifier, Node, Read, Write};
use std::cell::Cell;
use std::rc::Rc;
use symx::*;

/// A node that counts how often it is asked for its value.
#[derive(Clone)]
struct Count<N>(N, Rc<Cell<usize>>);

impl<N> Count<N> {
    fn new(n: N) -> (Self, Rc<Cell<usize>>) {
        let c = Rc::new(Cell::new(0));
        (Count(n, c.clone()), c)
    }
}
impl<N> Node for Count<N> {}
impl<C: Context, N: Function<C>> Function<C> for Count<N> {
    type Value = N::Value;
    type Error = N::Error;
    fn evaluate<CR: AsMut<C>>(&self, c: CR) -> Result<N::Value, N::Error> {
        self.1.set(self.1.get() + 1);
        self.0.evaluate(c)
    }
    fn evaluate_spec<CR: AsMut<C>>(&self, c: CR) -> Result<Spec<N::Value>, N::Error> {
        self.1.set(self.1.get() + 1);
        self.0.evaluate_spec(c)
    }
    fn evaluate_shape<CR: AsMut<C>>(&self, c: CR) -> Result<ShapeOf<N::Value>, N::Error> {
        self.0.evaluate_shape(c)
    }
}
impl<T: Identifier, N: Differentiable<T>> Differentiable<T> for Count<N> {
    type Adjoint = N::Adjoint;
    fn adjoint(&self, t: T) -> N::Adjoint {
        self.0.adjoint(t)
    }
}

fn same<B: Flat>(label: &str, got: &Option<B>, want: &Option<B>)
where
    B::E: Fld,
{
    check(&format!("{}: presence", label), Formula::of(got.is_some() == want.is_some()));
    if let (Some(g), Some(w)) = (got, want) {
        check_buf(label, g, w);
    }
}

fn from_bag<R: Dense>(b: &Bag<R::E>) -> R {
    let mut i = 0;
    R::by(|_| {
        i += 1;
        b.1[i - 1]
    })
}

fn main() {
    let mut v = vec![];

    // Evaluating changes no variable, and evaluating again gives the same.
    macro_rules! pure {
        ($v:ident, $tag:literal, $t:tt; $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr;)*) => { $(
            case!($v, concat!("pure/", $tag, "/", $id), {
                type T<S> = tyf!(S; $t);
                let (a, b, c) = (T::<F>::inputs("x"), T::<F>::inputs("y"), T::<F>::inputs("w"));
                // some operators are only defined (and total in the encoding) on positive numbers
                for e in a.flat().into_iter().chain(b.flat()).chain(c.flat()) {
                    assume(Fld::lt_(F::lit(0, 1), e));
                }
                let mut ctx = Cx { x: a, y: b, w: c };
                let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
                let node = $node;
                let first = node.evaluate(&mut ctx).unwrap();
                let s = node.evaluate_spec(&mut ctx).unwrap();
                let h = node.evaluate_shape(&mut ctx).unwrap();
                let s2 = node.evaluate_spec(&mut ctx).unwrap();
                let again = node.evaluate(&mut ctx).unwrap();
                check_buf("again", &again, &first);
                check_buf("structured", &s.unwrap(), &first);
                check_buf("structured, again", &s2.unwrap(), &first);
                check("shape", Formula::of(h == first.shape()));
                check_buf("x", &ctx.x, &a);
                check_buf("y", &ctx.y, &b);
                check_buf("w", &ctx.w, &c);
                // a copy of the expression in a copy of the context
                check_buf("copy", &node.clone().evaluate(ctx.clone()).unwrap(), &first);
                check_buf("fresh", &node.evaluate(Cx { x: a, y: b, w: c }).unwrap(), &first);
            });
        )* };
    }
    macro_rules! everywhere { ($tag:literal, $t:tt) => { pure!(v, $tag, $t;
        "x" |x, y, w| x;
        "sub_one" |x, y, w| SubOne(x);
        "one_sub" |x, y, w| OneSub(x);
        "add_one" |x, y, w| AddOne(x);
        "square" |x, y, w| Square(x);
        "double" |x, y, w| Double(x);
        "negate" |x, y, w| Negate(x);
        "sign" |x, y, w| Sign(x);
        "abs" |x, y, w| Abs(x);
        "dirac" |x, y, w| Dirac(x);
        "ln" |x, y, w| Ln(x);
        "xlnx" |x, y, w| XLnX(x);
        "exp" |x, y, w| Exp(x);
        "rabbit" |x, y, w| Rabbit(x);
        "sigmoid" |x, y, w| Sigmoid(x);
        "cos" |x, y, w| Cos(x);
        "cosh" |x, y, w| Cosh(x);
        "sin" |x, y, w| Sin(x);
        "sinh" |x, y, w| Sinh(x);
        "tan" |x, y, w| Tan(x);
        "tanh" |x, y, w| Tanh(x);
        "atan" |x, y, w| ArcTan(x);
        "asinh" |x, y, w| ArcSinh(x);
        "gamma" |x, y, w| Gamma(x);
        "digamma" |x, y, w| DiGamma(x);
        "loggamma" |x, y, w| LogGamma(x);
        "factorial" |x, y, w| Factorial::factorial(x);
        "erf" |x, y, w| Erf(x);
        "x+y" |x, y, w| x.add(y);
        "y-x" |x, y, w| y.sub(x);
        "x*y" |x, y, w| x.mul(y);
        "x/y" |x, y, w| x.div(y);
        "(x/y)-(y+w)" |x, y, w| x.div(y).sub(y.add(w));
        "((x*y)+w)*x" |x, y, w| x.mul(y).add(w).mul(x);
        "sigmoid(x*w)*w" |x, y, w| Sigmoid(x.mul(w)).mul(w);
    ); } }
    everywhere!("s", [s]);
    everywhere!("2", [2]);
    pure!(v, "s", [s];
        "x^y" |x, y, w| x.pow(y);
        "x.y" |x, y, w| x.dot(y);
        "d(xy)/dx" |x, y, w| x.mul(y).adjoint(X);
        "d(exp(xy)w)/dy" |x, y, w| Exp(x.mul(y)).mul(w).adjoint(Y);
        "d(x^y)/dy" |x, y, w| x.pow(y).adjoint(Y);
        "d2(xxy)/dx2" |x, y, w| x.mul(x).mul(y).adjoint(X).adjoint(X);
    );
    pure!(v, "3", [3];
        "sum(x*y)" |x, y, w| x.mul(y).sum();
        "x.y" |x, y, w| x.dot(y);
        "x ⊗ y" |x, y, w| TensorProduct::new(x, y);
        "d(x.y)/dy" |x, y, w| x.dot(y).adjoint(Y);
        "d(x+y)/dx" |x, y, w| x.add(y).adjoint(X);
    );
    pure!(v, "2x2", [2 2];
        "x.y.w" |x, y, w| x.dot(y).dot(w);
        "x*y-w" |x, y, w| x.mul(y).sub(w);
    );
    pure!(v, "t", [t];
        "x*y-w" |x, y, w| x.mul(y).sub(w);
        "sum" |x, y, w| x.sub(w).sum();
    );
    // also through the shortcuts on expressions
    case!(v, "pure/shortcuts", {
        let (a, b, c) = (F::inp("x"), F::inp("y"), F::inp("w"));
        let mut ctx = Cx { x: a, y: b, w: c };
        let node = X.into_var().mul(Y.into_var()).sub(W.into_var());
        let d = node.evaluate_dual(X, &mut ctx).unwrap();
        let e = node.evaluate_adjoint(X, &mut ctx).unwrap();
        let d2 = node.evaluate_dual(X, &mut ctx).unwrap();
        Fld::check_eq("value", d.value, a * b - c);
        Fld::check_eq("adjoint", d.adjoint, e);
        Fld::check_eq("value, again", d2.value, d.value);
        Fld::check_eq("adjoint, again", d2.adjoint, d.adjoint);
        Fld::check_eq("x", ctx.x, a);
        Fld::check_eq("y", ctx.y, b);
        Fld::check_eq("w", ctx.w, c);
    });

    // Every sequence of evaluations and writes around a cached node.
    macro_rules! histories {
        ($v:ident, $tag:literal, $t:tt, $r:tt, $quick:literal $deep:literal; $($id:literal |$x:ident, $y:ident| $node:expr, |$a:ident, $b:ident| $want:expr;)*) => { $(
            case!($v, concat!("history/", $tag, "/", $id), {
                type T<S> = tyf!(S; $t);
                type R<S> = tyf!(S; $r);
                let (mut $a, mut $b) = (Some(T::<F>::inputs("x")), Some(T::<F>::inputs("y")));
                let mut cache: Option<R<F>> = if choice("filled") { Some(R::<F>::inputs("w")) } else { None };
                let mut ctx = Ox { x: $a, y: $b, w: cache };
                let (inner, n) = Count::new({ let ($x, $y) = (X.into_var(), Y.into_var()); $node });
                let node = inner.clone().cached(W);
                for step in 0..if thorough() { $deep } else { $quick } {
                    let fresh = format!("s{}", step);
                    let before = n.get();
                    let value: R<F> = match cache {
                        Some(w) => w,
                        None => { let ($a, $b) = (Bag::of(&$a.unwrap()), Bag::of(&$b.unwrap())); from_bag::<R<F>>(&$want) },
                    };
                    let fill = |got: R<F>, l: &str| {
                        check_buf(l, &got, &value);
                        check(&format!("{}: evaluates the node {} times", l, n.get() - before),
                            Formula::of(n.get() - before == if cache.is_none() { 1 } else { 0 }));
                    };
                    match pick(&format!("what{}", step), 6) {
                        0 => { fill(node.evaluate(&mut ctx).unwrap(), "evaluate"); cache = Some(value); },
                        1 => { fill(expand(&node.evaluate_spec(&mut ctx).unwrap()), "evaluate_spec"); cache = Some(value); },
                        2 => {
                            let h = node.evaluate_shape(&mut ctx).unwrap();
                            check("shape", Formula::of(h == value.shape()));
                            check("shape: evaluates at most once", Formula::of(n.get() - before <= if cache.is_none() { 1 } else { 0 }));
                            // whether asking for the shape fills the cache is left open
                            cache = if cache.is_some() || ctx.w.is_some() { Some(value) } else { None };
                        },
                        3 => {
                            // twice within one expression
                            let twice = node.clone().sub(node.clone().neg());
                            let got = twice.evaluate(&mut ctx).unwrap();
                            let want = Bag::of(&value).map(|e| e - (-e));
                            check_buf("twice", &got, &want);
                            check("twice: evaluates the node once", Formula::of(n.get() - before == if cache.is_none() { 1 } else { 0 }));
                            cache = Some(value);
                        },
                        4 => { let z = R::<F>::inputs(&fresh); ctx.write(W, z); cache = Some(z); },
                        _ => {
                            let z = T::<F>::inputs(&fresh);
                            if choice(&format!("x{}", step)) { ctx.write(X, z); $a = Some(z); } else { ctx.write(Y, z); $b = Some(z); }
                        },
                    }
                    same("cache", &ctx.w, &cache);
                    same("x", &ctx.x, &$a);
                    same("y", &ctx.y, &$b);
                }
            });
        )* };
    }
    histories!(v, "s", [s], [s], 3 4;
        "x*y" |x, y| x.mul(y), |a, b| a.zip(&b, |p, q| p * q);
        "x-y" |x, y| x.sub(y), |a, b| a.zip(&b, |p, q| p - q);
        "y" |x, y| y, |a, b| b;
        "-(x+y)" |x, y| x.add(y).neg(), |a, b| a.zip(&b, |p, q| -(p + q));
    );
    histories!(v, "2", [2], [2], 3 3;
        "x*y" |x, y| x.mul(y), |a, b| a.zip(&b, |p, q| p * q);
        "(x-y)^2" |x, y| x.sub(y).squared(), |a, b| a.zip(&b, |p, q| (p - q) * (p - q));
    );
    histories!(v, "2 to s", [2], [s], 3 3;
        "x.y" |x, y| x.dot(y), |a, b| Bag(vec![], vec![a.1[0] * b.1[0] + a.1[1] * b.1[1]]);
        "sum(x)" |x, y| x.sum(), |a, b| Bag(vec![], vec![a.1[0] + a.1[1]]);
    );
    histories!(v, "2x2", [2 2], [2 2], 2 3;
        "x-y" |x, y| x.sub(y), |a, b| a.zip(&b, |p, q| p - q);
    );
    histories!(v, "t", [t], [t], 2 3;
        "x-y" |x, y| x.sub(y), |a, b| a.zip(&b, |p, q| p - q);
    );

    // A cached node over an arbitrary sub-expression, in any representation, whatever the cache holds.
    macro_rules! leaves { ($tag:literal, $t:tt) => {
        case!(v, concat!("any/", $tag), {
            type T<S> = tyf!(S; $t);
            let l = leaf::<T<F>>("x");
            let filled = choice("filled");
            let w = T::<F>::inputs("w");
            let want = if filled { w } else { l.raw };
            let mk = || Ox { x: None::<F>, y: None::<F>, w: if filled { Some(w) } else { None } };
            let (inner, n) = Count::new(l.clone());
            let node = inner.cached(W);
            let (mut c, mut d, mut e) = (mk(), mk(), mk());
            check_buf("evaluate", &node.evaluate(&mut c).unwrap(), &want);
            check_buf("stored", &c.w.unwrap(), &want);
            check_buf("again", &node.evaluate(&mut c).unwrap(), &want);
            check("once", Formula::of(n.get() == if filled { 0 } else { 1 }));
            check_buf("structured", &expand(&node.evaluate_spec(&mut d).unwrap()), &want);
            check_buf("structured, stored", &d.w.unwrap(), &want);
            check("structured, once", Formula::of(n.get() == if filled { 0 } else { 2 }));
            check("shape", Formula::of(node.evaluate_shape(&mut e).unwrap() == want.shape()));
            check_buf("after the shape", &node.evaluate(&mut e).unwrap(), &want);
            check("after the shape, once", Formula::of(n.get() == if filled { 0 } else { 3 }));
        });
    } }
    leaves!("s", [s]);
    leaves!("3", [3]);
    leaves!("2x3", [2 3]);
    leaves!("2x1x2", [2 1 2]);
    leaves!("t", [t]);
    case!(v, "any/vec", {
        let l = vleaf::<F>("x", pick("n", 4));
        let filled = choice("filled");
        let w: Vec<F> = (0..pick("m", 3)).map(|i| F::inp(&fld::subscript("w", &[i]))).collect();
        let want = if filled { w.clone() } else { l.raw.clone() };
        let (inner, n) = Count::new(l.clone());
        let node = inner.cached(W);
        let mut c = Ox { x: None::<F>, y: None::<F>, w: if filled { Some(w) } else { None } };
        check_buf("evaluate", &node.evaluate(&mut c).unwrap(), &want);
        check_buf("stored", c.w.as_ref().unwrap(), &want);
        check_buf("again", &vexpand(&node.evaluate_spec(&mut c).unwrap()), &want);
        check("shape", Formula::of(node.evaluate_shape(&mut c).unwrap() == want.shape()));
        check("once", Formula::of(n.get() == if filled { 0 } else { 1 }));
    });

    // Two caches: one inside the other, two side by side, the same identifier twice.
    case!(v, "several caches", {
        let (a, b) = (F::inp("x"), F::inp("y"));
        // Y caches the inner product, W the outer sum
        let mk = || Ox { x: Some(a), y: if choice("y_filled") { Some(b) } else { None }, w: if choice("w_filled") { Some(F::inp("w")) } else { None } };
        let (inner, n) = Count::new(X.into_var().mul(X.into_var()));
        let (outer, m) = Count::new(inner.clone().cached(Y).add(X.into_var()));
        let node = outer.cached(W);
        let mut c = mk();
        let (yf, wf) = (c.y.is_some(), c.w.is_some());
        let iv = if yf { b } else { a * a };
        let ov = if wf { F::inp("w") } else { iv + a };
        for _ in 0..2 {
            Fld::check_eq("nested", node.evaluate(&mut c).unwrap(), ov);
            check("nested, outer at most once", Formula::of(m.get() == if wf { 0 } else { 1 }));
            check("nested, inner at most once", Formula::of(n.get() == if wf || yf { 0 } else { 1 }));
        }
        Fld::check_eq("nested, stored", c.w.unwrap(), ov);
        same("nested, inner stored", &c.y, &if yf || !wf { Some(iv) } else { None });
        Fld::check_eq("x", c.x.unwrap(), a);

        // side by side, with different identifiers
        let (p, n) = Count::new(X.into_var().mul(X.into_var()));
        let (q, m) = Count::new(X.into_var().add(X.into_var()));
        let node = p.cached(Y).sub(q.cached(W));
        let mut c = mk();
        let want = (if yf { b } else { a * a }) - (if wf { F::inp("w") } else { a + a });
        for _ in 0..2 {
            Fld::check_eq("side by side", node.evaluate(&mut c).unwrap(), want);
            check("side by side, once each", Formula::of(n.get() == if yf { 0 } else { 1 } && m.get() == if wf { 0 } else { 1 }));
        }
        // the same expression under the same identifier: evaluated once
        let (p, n) = Count::new(X.into_var().mul(X.into_var()));
        let node = p.clone().cached(W).mul(p.cached(W));
        let mut c = mk();
        let w = if wf { F::inp("w") } else { a * a };
        Fld::check_eq("shared", node.evaluate(&mut c).unwrap(), w * w);
        check("shared, once", Formula::of(n.get() == if wf { 0 } else { 1 }));
    });
    // An error leaves the cache as it was, and a later success fills it.
    case!(v, "errors", {
        let (a, b) = (F::inp("x"), F::inp("y"));
        let mut c = Ox { x: if choice("x_present") { Some(a) } else { None }, y: None::<F>, w: if choice("filled") { Some(F::inp("w")) } else { None } };
        let filled = c.w.is_some();
        let (inner, n) = Count::new(X.into_var().mul(Y.into_var()));
        let node = inner.cached(W);
        check("evaluate", Formula::of(node.evaluate(&mut c).is_ok() == filled));
        check("evaluate_spec", Formula::of(node.evaluate_spec(&mut c).is_ok() == filled));
        check("evaluate_shape", Formula::of(node.evaluate_shape(&mut c).is_ok() == filled));
        check("cache untouched", Formula::of(c.w.is_some() == filled));
        c.write(X, a);
        c.write(Y, b);
        Fld::check_eq("later", node.evaluate(&mut c).unwrap(), if filled { F::inp("w") } else { a * b });
        Fld::check_eq("stored", c.w.unwrap(), if filled { F::inp("w") } else { a * b });
    });
    // The derivative is the derivative of the node, and leaves the cache alone.
    case!(v, "derivative", {
        let (val, adj) = (leaf::<F>("v"), leaf::<F>("d"));
        let filled = choice("filled");
        let mut c = Ox { x: None::<F>, y: None::<F>, w: if filled { Some(F::inp("w")) } else { None } };
        let node = Opq { v: val.clone(), a: adj.clone() }.cached(W);
        Fld::check_eq("adjoint", node.adjoint(W).evaluate(&mut c).unwrap(), adj.raw);
        Fld::check_eq("adjoint, structured", expand(&node.adjoint(W).evaluate_spec(&mut c).unwrap()), adj.raw);
        Fld::check_eq("evaluate_adjoint", node.evaluate_adjoint(W, &mut c).unwrap(), adj.raw);
        check("cache untouched", Formula::of(c.w.is_some() == filled));
        let want = if filled { F::inp("w") } else { val.raw };
        let d = node.evaluate_dual(W, &mut c).unwrap();
        Fld::check_eq("dual, value", d.value, want);
        Fld::check_eq("dual, adjoint", d.adjoint, adj.raw);
        Fld::check_eq("stored", c.w.unwrap(), want);
        // inside an expression
        let sq = node.clone().mul(node.clone());
        Fld::check_eq("product rule", sq.adjoint(W).evaluate(&mut Ox { x: None::<F>, y: None::<F>, w: None::<F> }).unwrap(), adj.raw * val.raw + val.raw * adj.raw);
    });
    main_with("C15", v);
}
