//! The predicted shape is the shape of the value.
//!
//! Run-time lengths and the presence of each variable are symbolic choices; contents are symbolic.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, IntoSpec, Spec};
use aegir::ids::{W, X, Y, Z};
use aegir::meta::Constant;
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Differentiable, Function, Identifier, Node};
use symx::*;

/// Value, structured value and shape of one node in one context.  `exact`: the shape query must
/// fail where evaluation does; otherwise it may succeed (the type alone fixes the shape).
macro_rules! agree {
    ($node:expr, $ctx:expr) => { agree!($node, $ctx, true) };
    ($node:expr, $ctx:expr, $exact:expr) => {{
        let (node, ctx) = ($node, $ctx);
        let v = node.evaluate(ctx.clone());
        let s = node.evaluate_spec(ctx.clone());
        let h = node.evaluate_shape(ctx.clone());
        check("value and structured value succeed together", Formula::of(v.is_ok() == s.is_ok()));
        check("the shape is known where the value is", Formula::of(h.is_ok() || v.is_err()));
        if $exact {
            check("no shape where there is no value", Formula::of(v.is_ok() || h.is_err()));
        }
        if let (Ok(v), Ok(h)) = (&v, &h) {
            check(&format!("shape {:?} of the value {:?}", h.extents(), v.dims()), Formula::of(h.extents() == v.dims()));
            check("shape of the buffer", Formula::of(v.shape() == *h));
        }
        if let (Ok(s), Ok(h)) = (&s, &h) {
            check("shape of the structured value", Formula::of(s.shape().extents() == h.extents()));
            check("shape of the unwrapped value", Formula::of(s.clone().unwrap().dims() == h.extents()));
        }
        (v.is_ok(), h.ok().map(|h| h.extents()))
    }};
}
/// As `agree!`, with the outcome known independently.
macro_rules! expect {
    ($node:expr, $ctx:expr, $want:expr) => {{
        let (ok, dims) = agree!($node, $ctx);
        let want: Option<Vec<usize>> = $want;
        check("evaluation succeeds exactly when it should", Formula::of(ok == want.is_some()));
        check(&format!("shape {:?}, expected {:?}", dims, want), Formula::of(dims == want));
    }};
}

macro_rules! unary {
    ($v:ident, $tag:expr, $t:tt; $($id:literal |$n:ident| $node:expr;)*) => {
        $(case!($v, format!("unary/{}/{}", $tag, $id), {
            type T<S> = tyf!(S; $t);
            let $n: Lf<T<F>> = leaf("n");
            let dims = $n.raw.dims();
            expect!($node, Nil, Some(dims));
        });)*
    };
}
macro_rules! vunary {
    ($v:ident; $($id:literal |$n:ident| $node:expr;)*) => {
        $(case!($v, format!("unary/vec/{}", $id), {
            let n = pick("len", if thorough() { 6 } else { 4 });
            let $n: Lf<Vec<F>> = vleaf("n", n);
            expect!($node, Nil, Some(vec![n]));
        });)*
    };
}
macro_rules! unaries {
    ($m:ident!($($args:tt)*)) => {
        $m!($($args)*;
            "sub_one" |n| SubOne(n);
            "one_sub" |n| OneSub(n);
            "add_one" |n| AddOne(n);
            "square" |n| Square(n);
            "double" |n| Double(n);
            "negate" |n| Negate(n);
            "sign" |n| Sign(n);
            "abs" |n| Abs(n);
            "dirac" |n| Dirac(n);
            "ln" |n| Ln(n);
            "xlnx" |n| XLnX(n);
            "exp" |n| Exp(n);
            "rabbit" |n| Rabbit(n);
            "sigmoid" |n| Sigmoid(n);
            "cos" |n| Cos(n);
            "cosh" |n| Cosh(n);
            "acos" |n| ArcCos(n);
            "acosh" |n| ArcCosh(n);
            "sin" |n| Sin(n);
            "sinh" |n| Sinh(n);
            "asin" |n| ArcSin(n);
            "asinh" |n| ArcSinh(n);
            "tan" |n| Tan(n);
            "tanh" |n| Tanh(n);
            "atan" |n| ArcTan(n);
            "atanh" |n| ArcTanh(n);
            "gamma" |n| Gamma(n);
            "digamma" |n| DiGamma(n);
            "loggamma" |n| LogGamma(n);
            "factorial" |n| Factorial::factorial(n);
            "erf" |n| Erf(n);
            "erfc" |n| Erfc::erfc(n);
        );
    };
}

macro_rules! binary {
    ($v:ident; $($tag:literal $l:tt $r:tt,)*) => { $( binary!($v, $tag, $l $r;
        "add" |l, r| Add(l, r);
        "sub" |l, r| Sub(l, r);
        "mul" |l, r| Mul(l, r);
        "div" |l, r| Div(l, r);
        "nested" |l, r| Sub(Mul(l.clone(), OneSub(r)), AddOne(l));
    ); )* };
    ($v:ident, $tag:expr, $l:tt $r:tt; $($id:literal |$a:ident, $b:ident| $node:expr;)*) => {
        $(case!($v, format!("binary/{}/{}", $tag, $id), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            let ($a, $b): (Lf<L<F>>, Lf<R<F>>) = (leaf("l"), leaf("r"));
            let (ld, rd) = ($a.raw.dims(), $b.raw.dims());
            expect!($node, Nil, Some(if ld.is_empty() { rd } else { ld }));
        });)*
    };
}
// Vectors of any two lengths: the shape is that of both operands, or there is none.
macro_rules! vbinary {
    ($v:ident; $($id:literal |$a:ident, $b:ident| $node:expr;)*) => {
        $(case!($v, format!("binary/vec,vec/{}", $id), {
            let k = if thorough() { 5 } else { 3 };
            let (n, m) = (pick("n", k), pick("m", k));
            let ($a, $b): (Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", n), vleaf("r", m));
            expect!($node, Nil, if n == m { Some(vec![n]) } else { None });
        });
        case!($v, format!("binary/vec,s/{}", $id), {
            let n = pick("n", 4);
            let ($a, $b): (Lf<Vec<F>>, Lf<F>) = (vleaf("l", n), leaf("r"));
            expect!($node, Nil, Some(vec![n]));
        });
        case!($v, format!("binary/s,vec/{}", $id), {
            let n = pick("n", 4);
            let ($a, $b): (Lf<F>, Lf<Vec<F>>) = (leaf("l"), vleaf("r", n));
            expect!($node, Nil, Some(vec![n]));
        });)*
    };
}
macro_rules! contractions {
    ($v:ident; $($axes:literal $tag:literal $l:tt $r:tt,)*) => { $(
        case!($v, concat!("contract/", $axes, ":", $tag), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            let (l, r): (Lf<L<F>>, Lf<R<F>>) = (leaf("l"), leaf("r"));
            let (ld, rd) = (l.raw.dims(), r.raw.dims());
            let want = if ld.is_empty() || rd.is_empty() {
                [ld, rd].concat()
            } else {
                [&ld[..ld.len() - $axes], &rd[$axes..]].concat()
            };
            expect!(Contract::<$axes, _, _>::new(l, r), Nil, Some(want));
        });
    )* };
}

// Whole expressions over a context in which any variable may be missing.
macro_rules! exprs {
    ($v:ident, $tag:literal, $p:tt $q:tt $r:tt; $($id:literal $exact:literal |$x:ident, $y:ident, $w:ident| $node:expr;)*) => {
        $(case!($v, concat!("context/", $tag, "/", $id), {
            type P<S> = tyf!(S; $p);
            type Q<S> = tyf!(S; $q);
            type R<S> = tyf!(S; $r);
            let ctx = Ox::any(P::<F>::inputs("x"), Q::<F>::inputs("y"), R::<F>::inputs("w"));
            let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
            agree!($node, ctx, $exact);
        });)*
    };
}
macro_rules! adjoints {
    ($v:ident, $tag:literal, $p:tt $q:tt $r:tt; $($id:literal $exact:literal |$x:ident, $y:ident, $w:ident| $node:expr;)*) => {
        $(case!($v, concat!("adjoint/", $tag, "/", $id), {
            type P<S> = tyf!(S; $p);
            type Q<S> = tyf!(S; $q);
            type R<S> = tyf!(S; $r);
            let ctx = Ox::any(P::<F>::inputs("x"), Q::<F>::inputs("y"), R::<F>::inputs("w"));
            let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
            agree!($node.adjoint(X), ctx.clone(), $exact);
            agree!($node.adjoint(Y), ctx.clone(), $exact);
        });)*
    };
}

fn main() {
    let mut v = vec![];

    unaries!(unary!(v, "s", [s]));
    unaries!(vunary!(v));
    unary!(v, "t", [t]; "neg" |n| Negate(n); "abs" |n| Abs(n););
    unary!(v, "3", [3]; "neg" |n| Negate(n); "ln" |n| Ln(n); "one_sub of cos" |n| OneSub(Cos(n)););
    unary!(v, "2x3", [2 3]; "neg" |n| Negate(n); "ln" |n| Ln(n); "square" |n| Square(n););
    unary!(v, "3x1", [3 1]; "neg" |n| Negate(n); "gamma" |n| Gamma(n););
    unary!(v, "2x1x3", [2 1 3]; "neg" |n| Negate(n); "add_one" |n| AddOne(n););
    unary!(v, "1x2x1x2", [1 2 1 2]; "neg" |n| Negate(n););
    unary!(v, "1x2x1x1x3", [1 2 1 1 3]; "neg" |n| Negate(n););
    macro_rules! sums {
        ($v:ident; $($tag:literal $t:tt,)*) => { $(
            case!($v, concat!("sum/", $tag), {
                type T<S> = tyf!(S; $t);
                let n: Lf<T<F>> = leaf("n");
                expect!(Sum(n.clone()), Nil, Some(vec![]));
                expect!(AddOne(Sum(Negate(n))), Nil, Some(vec![]));
            });
        )* };
    }
    sums!(v; "s" [s], "t" [t], "1" [1], "3" [3], "2x3" [2 3], "2x1x2" [2 1 2],);
    case!(v, "sum/vec", {
        let n: Lf<Vec<F>> = vleaf("n", pick("len", 4));
        expect!(Sum(n.clone()), Nil, Some(vec![]));
        expect!(Mul(Sum(n.clone()), n.clone()), Nil, Some(vec![n.raw.len()]));
    });
    case!(v, "power/s", {
        let (l, r): (Lf<F>, Lf<F>) = (leaf("l"), leaf("r"));
        expect!(Power(l, r), Nil, Some(vec![]));
    });

    binary!(v;
        "s,s" [s] [s], "t,t" [t] [t], "3,3" [3] [3], "3,s" [3] [s], "s,3" [s] [3], "1,1" [1] [1], "1,s" [1] [s],
        "2x3,2x3" [2 3] [2 3], "3x2,s" [3 2] [s], "s,2x3" [s] [2 3], "s,1x3" [s] [1 3],
        "2x1x2,2x1x2" [2 1 2] [2 1 2], "2x1x3,s" [2 1 3] [s], "s,2x1x3" [s] [2 1 3],
        "1x2x1x2,1x2x1x2" [1 2 1 2] [1 2 1 2], "s,1x2x1x3" [s] [1 2 1 3],
    );
    vbinary!(v;
        "add" |l, r| Add(l, r);
        "sub" |l, r| Sub(l, r);
        "mul" |l, r| Mul(l, r);
        "div" |l, r| Div(l, r);
        "(l+r)*l" |l, r| Mul(Add(l.clone(), r), l);
        "r-(l/r)" |l, r| Sub(r.clone(), Div(l, r));
        "-(l*r)+1" |l, r| AddOne(Negate(Mul(l, r)));
    );
    case!(v, "binary/vec,vec,vec/(l+r)*s", {
        let (a, b, c) = (pick("a", 3), pick("b", 3), pick("c", 3));
        let (l, r, s): (Lf<Vec<F>>, Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", a), vleaf("r", b), vleaf("s", c));
        expect!(Mul(Add(l, r), s), Nil, if a == b && b == c { Some(vec![a]) } else { None });
    });
    contractions!(v;
        0 "s,s" [s] [s], 0 "3,s" [3] [s], 0 "s,2x3" [s] [2 3], 0 "2,3" [2] [3],
        1 "s,s" [s] [s], 1 "3,3" [3] [3], 1 "1,1" [1] [1], 1 "2x2,2" [2 2] [2], 1 "2,2x3" [2] [2 3], 1 "1,1x3" [1] [1 3],
        1 "2x3,3x2" [2 3] [3 2], 1 "3x1,1x2" [3 1] [1 2], 1 "1x3,3x1" [1 3] [3 1],
    );
    // constants hold a buffer or a representation
    macro_rules! constants {
        ($v:ident; $($tag:literal $t:tt,)*) => { $(
            case!($v, concat!("constant/", $tag), {
                type T<S> = tyf!(S; $t);
                let l: Lf<T<F>> = leaf("l");
                let dims = l.raw.dims();
                expect!(Constant(l.raw.clone()), Nil, Some(dims.clone()));
                expect!(Constant(l.spec.clone()), Nil, Some(dims.clone()));
                expect!(l.raw.clone().into_constant(), Nil, Some(dims.clone()));
                expect!(Negate(Constant(l.spec.clone())), Nil, Some(dims.clone()));
            });
            case!($v, concat!("constant adjoint/", $tag), {
                type T<S> = tyf!(S; $t);
                let l: Lf<T<F>> = dense("l");
                let (dims, x) = (l.raw.dims(), F::inp("x"));
                let ctx = Cx { x: x, y: [x, x], w: [[x; 3]; 2] };
                expect!(Constant(l.raw.clone()).adjoint(X), ctx.clone(), Some(dims.clone()));
                expect!(Constant(l.raw.clone()).adjoint(Y), ctx.clone(), Some([dims.clone(), vec![2]].concat()));
                expect!(Constant(l.raw.clone()).adjoint(W), ctx.clone(), Some([dims.clone(), vec![2, 3]].concat()));
            });
        )* };
    }
    constants!(v; "s" [s], "t" [t], "1" [1], "3" [3], "2x3" [2 3], "2x1x3" [2 1 3],);
    case!(v, "constant/vec", {
        let n = pick("n", 4);
        let l: Lf<Vec<F>> = vleaf("l", n);
        expect!(Constant(l.raw.clone()), Nil, Some(vec![n]));
        expect!(Constant(l.spec.clone()), Nil, Some(vec![n]));
    });
    // variables of every kind, by variables of every kind
    macro_rules! variables {
        ($v:ident; $($tag:literal $p:tt $q:tt,)*) => { $(
            case!($v, concat!("variable adjoint/", $tag), {
                type P<S> = tyf!(S; $p);
                type Q<S> = tyf!(S; $q);
                let ctx = Ox::any(P::<F>::inputs("x"), Q::<F>::inputs("y"), F::inp("w"));
                let (has_x, has_y) = (ctx.x.is_some(), ctx.y.is_some());
                let (pd, qd) = (P::<F>::fill(F::lit(0, 1)).dims(), Q::<F>::fill(F::lit(0, 1)).dims());
                expect!(X.into_var(), ctx.clone(), if has_x { Some(pd.clone()) } else { None });
                expect!(Y.into_var(), ctx.clone(), if has_y { Some(qd.clone()) } else { None });
                expect!(X.into_var().adjoint(Y), ctx.clone(), if has_x && has_y { Some([pd.clone(), qd.clone()].concat()) } else { None });
                expect!(Y.into_var().adjoint(X), ctx.clone(), if has_x && has_y { Some([qd.clone(), pd.clone()].concat()) } else { None });
                expect!(X.into_var().adjoint(X), ctx.clone(), if has_x { Some([pd.clone(), pd.clone()].concat()) } else { None });
                let wx = ctx.w.is_some() && has_x;
                expect!(X.into_var().adjoint(X).adjoint(W), ctx.clone(), if wx { Some([pd.clone(), pd.clone()].concat()) } else { None });
                expect!(X.into_var().adjoint(Y).adjoint(W), ctx.clone(), if wx && has_y { Some([pd.clone(), qd.clone()].concat()) } else { None });
            });
        )* };
    }
    variables!(v;
        "s,s" [s] [s], "s,3" [s] [3], "3,s" [3] [s], "2,3" [2] [3], "2,2x3" [2] [2 3],
        "2x3,3x1" [2 3] [3 1], "s,2x3" [s] [2 3], "1x2,2" [1 2] [2],
    );
    macro_rules! rank3 {
        ($v:ident; $($tag:literal $p:tt $q:tt,)*) => { $(
            case!($v, concat!("variable adjoint/", $tag), {
                type P<S> = tyf!(S; $p);
                type Q<S> = tyf!(S; $q);
                let ctx = Ox::any(P::<F>::inputs("x"), Q::<F>::inputs("y"), F::inp("w"));
                let both = ctx.x.is_some() && ctx.y.is_some();
                let (pd, qd) = (P::<F>::fill(F::lit(0, 1)).dims(), Q::<F>::fill(F::lit(0, 1)).dims());
                expect!(X.into_var(), ctx.clone(), if ctx.x.is_some() { Some(pd.clone()) } else { None });
                expect!(X.into_var().adjoint(Y), ctx.clone(), if both { Some([pd.clone(), qd.clone()].concat()) } else { None });
                expect!(Y.into_var().adjoint(X), ctx.clone(), if both { Some([qd.clone(), pd.clone()].concat()) } else { None });
            });
        )* };
    }
    rank3!(v; "t,2" [t] [2], "t,s" [t] [s], "2x1,t" [2 1] [t], "2x1x2,s" [2 1 2] [s], "1x2x1,2" [1 2 1] [2], "1x1x2,1x2" [1 1 2] [1 2],);
    case!(v, "variable/vec", {
        let n = pick("n", 4);
        let ctx = Ox::any(vleaf::<F>("x", n).raw, F::inp("y"), F::inp("w"));
        let has = ctx.x.is_some();
        expect!(X.into_var(), ctx.clone(), if has { Some(vec![n]) } else { None });
        expect!(AddOne(X.into_var()), ctx.clone(), if has { Some(vec![n]) } else { None });
    });
    // run-time lengths meeting only inside an expression
    macro_rules! lengths {
        ($v:ident; $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr, |$a:ident, $b:ident, $c:ident| $want:expr;)*) => { $(
            case!($v, concat!("lengths/", $id), {
                let ($a, $b, $c) = (pick("a", 3), pick("b", 3), pick("c", 3));
                let d = |n: &str, k: usize| -> Vec<F> { (0..k).map(|i| F::inp(&format!("{}{}", n, i))).collect() };
                let ctx = Ox::any(d("x", $a), d("y", $b), d("w", $c));
                let all = ctx.x.is_some() && ctx.y.is_some() && ctx.w.is_some();
                let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
                expect!($node, ctx, if all { $want } else { None });
            });
        )* };
    }
    lengths!(v;
        "x+y*w" |x, y, w| x.add(y.mul(w)), |a, b, c| if a == b && b == c { Some(vec![a]) } else { None };
        "(x-y)/w" |x, y, w| x.sub(y).div(w), |a, b, c| if a == b && b == c { Some(vec![a]) } else { None };
        "w-x*y" |x, y, w| w.sub(x.mul(y)), |a, b, c| if a == b && b == c { Some(vec![a]) } else { None };
    );

    macro_rules! all { ($m:ident, $v:ident, $tag:literal, $p:tt $q:tt $r:tt) => { $m!($v, $tag, $p $q $r;
        "x" true |x, y, w| x;
        "x+y" true |x, y, w| x.add(y);
        "x-y*w" true |x, y, w| x.sub(y.mul(w));
        "x*(y-w)" true |x, y, w| x.mul(y.sub(w));
        "x/w" true |x, y, w| x.div(w);
        "-(y*x)" true |x, y, w| y.mul(x).neg();
        "sigmoid" true |x, y, w| Sigmoid(x.mul(w));
        "exp(x)*w" true |x, y, w| Exp(x).mul(w);
        "cos(x)-y^2" true |x, y, w| Cos(x).sub(y.squared());
        "2x+1" true |x, y, w| AddOne(Double(x)).add(y);
        "rabbit" true |x, y, w| Rabbit(x);
    ); } }
    all!(exprs, v, "s", [s] [s] [s]);
    all!(exprs, v, "2", [2] [2] [2]);
    all!(exprs, v, "1x2", [1 2] [1 2] [1 2]);
    all!(adjoints, v, "s", [s] [s] [s]);
    exprs!(v, "s", [s] [s] [s];
        "x^y" false |x, y, w| x.pow(y);
        "x*w^y" false |x, y, w| x.mul(w.pow(y));
        "ln x" true |x, y, w| XLnX(x).add(w.ln());
    );
    exprs!(v, "3,3,s", [3] [3] [s];
        "sum" false |x, y, w| x.mul(y).sum();
        "x+sum" false |x, y, w| x.add(y.sum());
        "dot" true |x, y, w| x.dot(y).mul(w);
        "wx" true |x, y, w| w.mul(x).sub(y);
    );
    adjoints!(v, "2,2,s", [2] [2] [s];
        "dot" true |x, y, w| x.dot(y);
        "x+y" true |x, y, w| x.add(y);
        "x-y" true |x, y, w| x.sub(y);
    );
    adjoints!(v, "s", [s] [s] [2];
        "x*w" true |x, y, w| w.mul(x).add(w.mul(y));
        "w/x" true |x, y, w| w.div(x);
        "w exp(y)" true |x, y, w| w.mul(Exp(y));
    );
    exprs!(v, "2x3,3x1,3", [2 3] [3 1] [3];
        "x.y" true |x, y, w| x.dot(y);
        "outer" true |x, y, w| TensorProduct::new(w, w);
    );
    // a cached node
    case!(v, "cached/s", {
        let ctx = Ox::any(F::inp("x"), F::inp("y"), F::inp("w"));
        let node = X.into_var().mul(Y.into_var()).cached(W);
        agree!(node, ctx);
    });
    case!(v, "cached/vec", {
        let (n, m, k) = (pick("n", 3), pick("m", 3), pick("k", 3));
        let ctx = Ox::any(vleaf::<F>("x", n).raw, vleaf::<F>("y", m).raw, vleaf::<F>("w", k).raw);
        let node = X.into_var().mul(Y.into_var()).cached(W);
        agree!(node, ctx.clone());
        agree!(node.neg(), ctx);
    });
    main_with("C11", v);
}
