//! Gradients and Jacobians over arrays: entries and index layout.
//!
//! The oracle evaluates the same expression on jets, one unit direction of the target at a time:
//! direction k gives the derivative of every output entry with respect to the k-th target entry.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Spec};
use aegir::ids::{A, B, W, X, Y, Z};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Differentiable, Function, Identifier, Node};
use symx::*;

fn any() -> Formula {
    Formula::True
}
fn pos<B: Flat>(b: &B) -> Formula
where
    B::E: Fld,
{
    Formula::and(b.flat().into_iter().map(|x| B::E::lit(0, 1).lt_(x)).collect())
}
fn nz<B: Flat>(b: &B) -> Formula
where
    B::E: Fld,
{
    Formula::and(b.flat().into_iter().map(|x| x.ne_(B::E::lit(0, 1))).collect())
}

/// Unit direction k (row-major) of a buffer shape.
fn unit<V: Dense + Flat>(k: usize) -> V
where
    <V as Dense>::E: Fld,
{
    let mut n = 0;
    V::by(|_| {
        n += 1;
        <V as Dense>::E::lit((n - 1 == k) as i128, 1)
    })
}

/// The same contents as jets: value from `v`, derivative from `d`.
fn lift<VJ, F, V>(v: &V, d: &V) -> VJ
where
    F: Fld,
    V: Flat<E = F>,
    VJ: Dense<E = Jet<F>>,
{
    let (a, b) = (v.flat(), d.flat());
    let mut n = 0;
    VJ::by(|_| {
        n += 1;
        jet(a[n - 1], b[n - 1])
    })
}
fn konst<VJ, F, V>(v: &V) -> VJ
where
    F: Fld,
    V: Flat<E = F>,
    VJ: Dense<E = Jet<F>>,
{
    let a = v.flat();
    let mut n = 0;
    VJ::by(|_| {
        n += 1;
        jet(a[n - 1], F::lit(0, 1))
    })
}

/// `got` has shape value ++ target; `cols[k]` is the derivative of the value along direction k.
fn check_jac<G, F>(label: &str, got: &G, vdims: Vec<usize>, tdims: Vec<usize>, cols: Vec<Vec<F>>)
where
    F: Fld,
    G: Flat<E = F>,
{
    let mut want = vdims.clone();
    want.extend(tdims);
    check(
        &format!("{} shape (got {:?}, want {:?})", label, got.dims(), want),
        Formula::of(got.dims() == want),
    );
    let g = got.flat();
    let (n, m) = (vdims.iter().product::<usize>(), cols.len());
    if g.len() == n * m {
        for i in 0..n {
            for k in 0..m {
                F::check_eq(&format!("{}[{} / {}]", label, i, k), g[i * m + k], cols[k][i]);
            }
        }
    }
}

// Expressions over the variables X, Y, W of the given types, differentiated with respect to X.
macro_rules! jac {
    ($v:ident, $tag:expr, $xt:tt, $yt:tt, $wt:tt;
     $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr, $dom:expr;)*) => {
        $(case!($v, format!("{}/{}", $tag, $id), {
            type XT<S> = tyf!(S; $xt);
            type YT<S> = tyf!(S; $yt);
            type WT<S> = tyf!(S; $wt);
            let (vx, vy, vw): (XT<F>, YT<F>, WT<F>) = (Dense::inputs("x"), Dense::inputs("y"), Dense::inputs("w"));
            {
                let ($x, $y, $w) = (&vx, &vy, &vw);
                assume($dom);
            }
            let m = vx.flat().len();
            let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
            let mut cols = vec![];
            let mut vdims = vec![];
            for k in 0..m {
                let jx: XT<J> = lift(&vx, &unit::<XT<F>>(k));
                let (jy, jw): (YT<J>, WT<J>) = (konst(&vy), konst(&vw));
                let out = $node.evaluate(Cx { x: jx, y: jy, w: jw }).unwrap();
                vdims = out.dims();
                cols.push(out.flat().into_iter().map(|j| j.d).collect::<Vec<F>>());
            }
            let n = || $node;
            let got = n().adjoint(X).evaluate(Cx { x: vx, y: vy, w: vw }).unwrap();
            check_jac("d/dX", &got, vdims.clone(), vx.dims(), cols.clone());
            let spec = n().adjoint(X).evaluate_spec(Cx { x: vx, y: vy, w: vw }).unwrap();
            check_jac("d/dX via spec", &expand(&spec), vdims.clone(), vx.dims(), cols.clone());
            let got = n().evaluate_adjoint(X, Cx { x: vx, y: vy, w: vw }).unwrap();
            check_jac("evaluate_adjoint", &got, vdims, vx.dims(), cols);
        });)*
    };
}

// Scalar-valued expressions of two vectors and a scalar, by vector.
macro_rules! grads {
    ($v:ident, $($n:literal)*) => { $(
        jac!($v, concat!("grad/", $n), [$n], [$n], [s];
            "x.y" |x, y, w| x.dot(y), any();
            "y.x" |x, y, w| y.dot(x), any();
            "x.x" |x, y, w| x.dot(x), any();
            "y.y" |x, y, w| y.dot(y), any();
            "(x-y).(x-y)" |x, y, w| x.sub(y).dot(x.sub(y)), any();
            "(y-x).(x+y)" |x, y, w| y.sub(x).dot(x.add(y)), any();
            "2x.(1-y)" |x, y, w| Double(x).dot(OneSub(y)), any();
            "(x-1).(-x)" |x, y, w| SubOne(x).dot(x.neg()), any();
            "(x+1).(1-x)" |x, y, w| AddOne(x).dot(OneSub(x)), any();
            "-(2(x-y)).(x+1)" |x, y, w| Double(x.sub(y)).neg().dot(AddOne(x)), any();
            "(x.y-w)^2" |x, y, w| x.dot(y).sub(w).squared(), any();
            "(w-y.x)^2" |x, y, w| w.sub(y.dot(x)).squared(), any();
            "sigmoid(x.y)" |x, y, w| x.dot(y).sigmoid(), any();
            "sin(x.y)*w" |x, y, w| Sin(x.dot(y)).mul(w), any();
            "w*cos(y.x)" |x, y, w| w.mul(Cos(y.dot(x))), any();
            "exp(x.x)" |x, y, w| Exp(x.dot(x)), any();
            "x.y/w" |x, y, w| x.dot(y).div(w), nz(w);
            "w/(1+x.x)" |x, y, w| w.div(AddOne(x.dot(x))), any();
            "x.y⊗w" |x, y, w| TensorProduct::new(x.dot(y), w), any();
            "w⊗x.y" |x, y, w| TensorProduct::new(w, x.dot(y)), any();
            "(x.y)(x.x)" |x, y, w| x.dot(y).mul(x.dot(x)), any();
            "rabbit(x.y)" |x, y, w| Rabbit(x.dot(y)), any();
            "ln(1+(x.y)^2)" |x, y, w| AddOne(x.dot(y).squared()).ln(), any();
            "w" |x, y, w| w.squared(), any();
            "likelihood" |x, y, w| {
                let model = x.dot(y).sigmoid();
                model.mul(w).add(OneSub(model).mul(OneSub(w)))
            }, any();
        );
    )* };
}

// Vector-valued expressions, by vector.
macro_rules! jacs {
    ($v:ident, $($n:literal $m:literal,)*) => { $(
        jac!($v, concat!("jac/", $n, "x", $m), [$n], [$n], [s];
            "x" |x, y, w| x, any();
            "y" |x, y, w| y, any();
            "w" |x, y, w| w, any();
            "x+y" |x, y, w| x.add(y), any();
            "y+x" |x, y, w| y.add(x), any();
            "x-y" |x, y, w| x.sub(y), any();
            "y-x" |x, y, w| y.sub(x), any();
            "x+x" |x, y, w| x.add(x), any();
            "x-x" |x, y, w| x.sub(x), any();
            "-x" |x, y, w| x.neg(), any();
            "2x" |x, y, w| Double(x), any();
            "x-1" |x, y, w| SubOne(x), any();
            "x+1" |x, y, w| AddOne(x), any();
            "1-x" |x, y, w| OneSub(x), any();
            "2(1-(x-y))" |x, y, w| Double(OneSub(x.sub(y))), any();
            "-(2x)+y" |x, y, w| Double(x).neg().add(y), any();
            "x⊗w" |x, y, w| TensorProduct::new(x, w), any();
            "y⊗w" |x, y, w| TensorProduct::new(y, w), any();
            "w⊗x" |x, y, w| TensorProduct::new(w, x), any();
            "(x-y)⊗w" |x, y, w| TensorProduct::new(x.sub(y), w), any();
            "x⊗(x.y)" |x, y, w| TensorProduct::new(x, x.dot(y)), any();
            "y⊗(x.y)" |x, y, w| TensorProduct::new(y, x.dot(y)), any();
            "y⊗(w-x.x)" |x, y, w| TensorProduct::new(y, w.sub(x.dot(x))), any();
        );
        // the target has its own length
        jac!($v, concat!("jac-other/", $n, "x", $m), [$n], [$m], [$n];
            "y" |x, y, w| y, any();
            "y+y" |x, y, w| y.add(y), any();
            "2y" |x, y, w| Double(y), any();
            "y.y" |x, y, w| y.sub(y).add(y), any();
            "y⊗(x.w)" |x, y, w| TensorProduct::new(y, x.dot(w)), any();
            "-y⊗(x.x)" |x, y, w| TensorProduct::new(y.neg(), x.dot(x)), any();
        );
    )* };
}

// Higher ranks: Jacobian blocks of the variables themselves and their linear combinations.
macro_rules! blocks {
    ($v:ident, $($tag:literal $x:tt $y:tt,)*) => { $(
        jac!($v, concat!("block/", $tag), $x, $y, [s];
            "x" |x, y, w| x, any();
            "y" |x, y, w| y, any();
            "w" |x, y, w| w, any();
            "x+x" |x, y, w| x.add(x), any();
            "2x" |x, y, w| Double(x), any();
            "-x" |x, y, w| x.neg(), any();
            "y-y" |x, y, w| y.sub(y), any();
            "x-1" |x, y, w| SubOne(x), any();
            "w^2" |x, y, w| w.squared(), any();
        );
    )* };
}

// Anything by a scalar target: X scalar, Y and W arbitrary buffers.
macro_rules! by_scalar {
    ($v:ident, $($tag:literal $y:tt,)*) => { $(
        jac!($v, concat!("by scalar/", $tag), [s], $y, $y;
            "y" |x, y, w| y, any();
            "y*x" |x, y, w| y.mul(x), any();
            "x*y" |x, y, w| x.mul(y), any();
            "x+y" |x, y, w| x.add(y), any();
            "y+x" |x, y, w| y.add(x), any();
            "x-y" |x, y, w| x.sub(y), any();
            "y-x" |x, y, w| y.sub(x), any();
            "x*y*w" |x, y, w| x.mul(y).mul(w), any();
            "(x*y)(x+w)" |x, y, w| x.mul(y).mul(x.add(w)), any();
            "y/x" |x, y, w| y.div(x), nz(x);
            "x/y" |x, y, w| x.div(y), nz(y);
            "(x*y)/w" |x, y, w| x.mul(y).div(w), nz(w);
            "exp(xy)" |x, y, w| Exp(x.mul(y)), any();
            "sigmoid(y*x+w)" |x, y, w| y.mul(x).add(w).sigmoid(), any();
            "sin(xy)" |x, y, w| Sin(x.mul(y)), any();
            "cos(x-y)" |x, y, w| Cos(x.sub(y)), any();
            "(y-x)^2" |x, y, w| y.sub(x).squared(), any();
            "rabbit(xy)" |x, y, w| Rabbit(x.mul(y)), any();
            "1-2(y-x)" |x, y, w| OneSub(Double(y.sub(x))), any();
            "(x^2 y - 1)" |x, y, w| SubOne(x.squared().mul(y)).neg(), any();
            "ln(1+(xy)^2)" |x, y, w| AddOne(x.mul(y).squared()).ln(), any();
            "y sin(x)" |x, y, w| y.mul(Sin(x)), any();
            "xlnx" |x, y, w| XLnX(y.mul(x)), Formula::and(vec![pos(x), pos(y)]);
            "|y-x|" |x, y, w| y.sub(x).abs(), Formula::and(y.flat().into_iter().map(|e| x.ne_(e)).collect());
        );
    )* };
}
macro_rules! contract_by_scalar {
    ($v:ident, $($n:literal $m:literal $k:literal,)*) => { $(
        jac!($v, concat!("contract by scalar/", $n, "x", $m, "x", $k), [s], [$n $m], [$m $k];
            "(xY)W" |x, y, w| x.mul(y).dot(w), any();
            "Y(xW)" |x, y, w| y.dot(w.mul(x)), any();
            "(xY)(W-x)" |x, y, w| x.mul(y).dot(w.sub(x)), any();
            "Y⊗x" |x, y, w| TensorProduct::new(y, x), any();
            "x⊗Y" |x, y, w| TensorProduct::new(x, y), any();
            "exp(x)⊗(xY)" |x, y, w| TensorProduct::new(Exp(x), y.mul(x)), any();
        );
        jac!($v, concat!("vec-mat by scalar/", $n, "x", $m, "x", $k), [s], [$n], [$n $m];
            "(xy)W" |x, y, w| x.mul(y).dot(w), any();
            "y(xW)" |x, y, w| y.dot(w.mul(x)), any();
            "(y-x)(sin(xW))" |x, y, w| y.sub(x).dot(Sin(w.mul(x))), any();
        );
        jac!($v, concat!("mat-vec by scalar/", $n, "x", $m, "x", $k), [s], [$n $n], [$n];
            "(xY)w" |x, y, w| x.mul(y).dot(w), any();
            "Y(xw)" |x, y, w| y.dot(w.mul(x)), any();
            "(Y-x)(sin(xw))" |x, y, w| y.sub(x).dot(Sin(w.mul(x))), any();
        );
        jac!($v, concat!("outer by scalar/", $n, "x", $m, "x", $k), [s], [$n], [$m];
            "(xy)⊗w" |x, y, w| TensorProduct::new(y.mul(x), w), any();
            "y⊗(x-w)" |x, y, w| TensorProduct::new(y, x.sub(w)), any();
            "(xy)⊗exp(xw)" |x, y, w| TensorProduct::new(x.mul(y), Exp(x.mul(w))), any();
            "x⊗y" |x, y, w| TensorProduct::new(x, y), any();
            "y⊗x" |x, y, w| TensorProduct::new(y, x), any();
            "(x⊗y)⊗w" |x, y, w| TensorProduct::new(TensorProduct::new(x, y), w), any();
        );
        jac!($v, concat!("dot by scalar/", $n, "x", $m, "x", $k), [s], [$n], [$n];
            "(xy).w" |x, y, w| x.mul(y).dot(w), any();
            "y.(x-w)" |x, y, w| y.dot(x.sub(w)), any();
            "(xy).exp(xw)" |x, y, w| x.mul(y).dot(Exp(x.mul(w))), any();
        );
    )* };
}

// One operator at a time over opaque operands: every representation of value and adjoint.
macro_rules! opq_unary {
    ($v:ident, $tag:literal $t:tt; $($id:literal $op:ident |$x:ident| $dom:expr;)*) => {
        $(case!($v, concat!("step/", $tag, "/", $id), {
            type T<S> = tyf!(S; $t);
            let n = opaque::<T<F>, T<F>>("n");
            let $x = &n.v.raw;
            assume($dom);
            let got = $op(n.clone()).adjoint(X);
            let want: Vec<F> = ev(&$op(Lf::raw(lift::<T<J>, F, T<F>>(&n.v.raw, &n.a.raw)))).flat().into_iter().map(|j| j.d).collect();
            check_buf("d", &V_(n.v.raw.dims(), ev(&got).flat()), &V_(n.v.raw.dims(), want.clone()));
            check_buf("d via spec", &V_(n.v.raw.dims(), expand(&ev_spec(&got)).flat()), &V_(n.v.raw.dims(), want));
        });)*
    };
}
/// Contents with explicit dimensions.
struct V_<F>(Vec<usize>, Vec<F>);
impl<F: Copy> Flat for V_<F> {
    type E = F;
    fn dims(&self) -> Vec<usize> {
        self.0.clone()
    }
    fn flat(&self) -> Vec<F> {
        self.1.clone()
    }
}
macro_rules! opq_unaries {
    ($v:ident; $($tag:literal $t:tt,)*) => { $(
        opq_unary!($v, $tag $t;
            "sub_one" SubOne |_x| any();
            "one_sub" OneSub |_x| any();
            "add_one" AddOne |_x| any();
            "square" Square |_x| any();
            "double" Double |_x| any();
            "negate" Negate |_x| any();
            "sign" Sign |x| nz(x);
            "abs" Abs |x| nz(x);
            "ln" Ln |x| pos(x);
            "xlnx" XLnX |x| pos(x);
            "exp" Exp |_x| any();
            "rabbit" Rabbit |_x| any();
            "sigmoid" Sigmoid |_x| any();
            "cos" Cos |_x| any();
            "sin" Sin |_x| any();
            "gamma" Gamma |x| pos(x);
            "loggamma" LogGamma |x| pos(x);
        );
    )* };
}
macro_rules! opq_binary {
    ($v:ident, $tag:literal $l:tt $r:tt; $($id:literal |$a:ident, $b:ident| $node:expr, $dom:expr;)*) => {
        $(case!($v, concat!("step/", $tag, "/", $id), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            let (l, r) = (opaque::<L<F>, L<F>>("l"), opaque::<R<F>, R<F>>("r"));
            {
                let ($a, $b) = (&l.v.raw, &r.v.raw);
                assume($dom);
            }
            let out = {
                let ($a, $b) = (
                    Lf::raw(lift::<L<J>, F, L<F>>(&l.v.raw, &l.a.raw)),
                    Lf::raw(lift::<R<J>, F, R<F>>(&r.v.raw, &r.a.raw)),
                );
                ev(&$node)
            };
            let want: Vec<F> = out.flat().into_iter().map(|j| j.d).collect();
            let ($a, $b) = (l, r);
            let got = $node.adjoint(X);
            check_buf("d", &ev(&got), &V_(out.dims(), want.clone()));
            check_buf("d via spec", &expand(&ev_spec(&got)), &V_(out.dims(), want));
        });)*
    };
}
macro_rules! opq_binaries {
    ($v:ident; $($tag:literal $l:tt $r:tt,)*) => { $(
        opq_binary!($v, $tag $l $r;
            "add" |l, r| Add(l, r), any();
            "sub" |l, r| Sub(l, r), any();
            "mul" |l, r| Mul(l, r), any();
            "div" |l, r| Div(l, r), nz(r);
        );
    )* };
}
macro_rules! opq_contracts {
    ($v:ident; $($axes:literal $tag:literal $l:tt $r:tt,)*) => { $(
        opq_binary!($v, $tag $l $r;
            "contract" |l, r| Contract::<$axes, _, _>::new(l, r), any();
        );
    )* };
}

// A vector dot product by a vector: values of length N, Jacobians N x N, the left one symmetric.
macro_rules! dot_step {
    ($v:ident, $($n:literal)*) => {
        $(case!($v, concat!("step/dot by vector/", $n), {
            let (l, r): (Lf<[F; $n]>, Lf<[F; $n]>) = (leaf("l"), leaf("r"));
            let dl: [[F; $n]; $n] = match pick("dl_kind", 3) {
                0 => Dense::by(|ix| F::inp(&format!("dl_{}_{}", ix[0].min(ix[1]), ix[0].max(ix[1])))),
                1 => Dense::fill(F::inp("dl")),
                _ => Dense::diag(F::inp("dl")),
            };
            let sl = match pick("dl_spec", 2) {
                0 => Spec::Raw(dl),
                // structured only where the contents really are
                _ => {
                    let (a, b) = (dl[0][0], dl[0][$n - 1]);
                    let full = dl.flat().iter().all(|x| syn_eq(*x, a));
                    let diag = dl.flat().iter().enumerate().all(|(i, x)| if i % ($n + 1) == 0 { syn_eq(*x, a) } else { x.surely_zero() });
                    if full { Spec::Full(S2, a) } else if diag { Spec::Diagonal(S2, a) } else { Spec::Raw(dl) }
                },
            };
            let dr: Lf<[[F; $n]; $n]> = leaf("dr");
            let lo = Opq { v: l.clone(), a: Lf { raw: dl, spec: sl } };
            let ro = Opq { v: r.clone(), a: dr.clone() };
            let got = TensorDot::new(lo, ro).adjoint(X);
            let want: [F; $n] = std::array::from_fn(|j| {
                (0..$n).fold(F::lit(0, 1), |acc, i| acc + dl[i][j] * r.raw[i] + l.raw[i] * dr.raw[i][j])
            });
            check_buf("d", &ev(&got), &want);
            check_buf("d via spec", &expand(&ev_spec(&got)), &want);
        });)*
    };
}
fn syn_eq<F: Fld>(a: F, b: F) -> bool {
    matches!(a.eq_(b), Formula::True)
}

fn main() {
    let mut v = vec![];

    grads!(v, 1 2 3 5);
    jacs!(v, 1 2, 2 3, 3 2, 4 1,);
    blocks!(v,
        "2x3" [2 3] [3 2], "3x2" [3 2] [2], "vec-mat" [3] [2 4], "mat-vec" [2 2] [3], "1x4" [1 4] [1 1],
    );
    by_scalar!(v,
        "s" [s], "1" [1], "3" [3], "2x3" [2 3], "3x1x2" [3 1 2],
    );
    contract_by_scalar!(v, 2 3 4, 1 3 2, 3 1 3,);
    opq_unaries!(v; "3" [3], "2x3" [2 3],);
    opq_binaries!(v;
        "2+2" [2] [2], "s+2" [s] [2], "2+s" [2] [s], "2x3+2x3" [2 3] [2 3], "s+2x1" [s] [2 1], "2x1+s" [2 1] [s],
        "2x1x2+2x1x2" [2 1 2] [2 1 2],
    );
    opq_contracts!(v;
        0 "0:s,s" [s] [s], 0 "0:2,s" [2] [s], 0 "0:s,2" [s] [2], 0 "0:2x3,s" [2 3] [s], 0 "0:s,2x3" [s] [2 3],
        0 "0:2,3" [2] [3], 0 "0:3,2" [3] [2],
        1 "1:s,s" [s] [s], 1 "1:3,3" [3] [3], 1 "1:2x2,2" [2 2] [2], 1 "1:3x3,3" [3 3] [3],
        1 "1:2,2x3" [2] [2 3], 1 "1:3,3x2" [3] [3 2], 1 "1:2x2,2x2" [2 2] [2 2],
        1 "1:2x3,3x1" [2 3] [3 1], 1 "1:1x2,2x3" [1 2] [2 3],
    );
    dot_step!(v, 1 2 3 4);
    sources(&mut v);
    knowns(&mut v);
    main_with("C02", v);
}

/// Adjoints of sources whose kinds differ: the class with precedence holds the result.
fn sources(v: &mut Vec<Case>) {
    case!(v, "source/tuples", {
        let t: (F, F) = Dense::inputs("t");
        let x: [F; 3] = Dense::inputs("x");
        let (z, w) = (F::inp("z"), F::inp("w"));
        let c = || ctx!{X = x, Y = t, Z = z, W = w};
        let o = F::lit(0, 1);
        check_buf("dt/dz", &Y.into_var().adjoint(Z).evaluate(c()).unwrap(), &(o, o));
        check_buf("dz/dt", &Z.into_var().adjoint(Y).evaluate(c()).unwrap(), &(o, o));
        check_buf("dz/dw", &Z.into_var().adjoint(W).evaluate(c()).unwrap(), &o);
        check_buf("dt/dx", &Y.into_var().adjoint(X).evaluate(c()).unwrap(), &[[o; 3]; 2]);
        check_buf("dx/dt", &X.into_var().adjoint(Y).evaluate(c()).unwrap(), &[[o; 2]; 3]);
        check_buf("d(t*t)/dz", &Y.into_var().mul(Y.into_var()).adjoint(Z).evaluate(c()).unwrap(), &(o, o));
        check_buf("dt-t/dz", &Y.into_var().sub(Y.into_var()).adjoint(Z).evaluate(c()).unwrap(), &(o, o));
    });
    case!(v, "source/constants", {
        let k: [F; 3] = Dense::inputs("k");
        let m: [[F; 2]; 3] = Dense::inputs("m");
        let x: [F; 4] = Dense::inputs("x");
        let y: [[F; 3]; 2] = Dense::inputs("y");
        let z = F::inp("z");
        let c = || ctx!{X = x, Y = y, Z = z};
        let o = F::lit(0, 1);
        check_buf("dk/dx", &k.into_constant().adjoint(X).evaluate(c()).unwrap(), &[[o; 4]; 3]);
        check_buf("dk/dy", &k.into_constant().adjoint(Y).evaluate(c()).unwrap(), &[[[o; 3]; 2]; 3]);
        check_buf("dk/dz", &k.into_constant().adjoint(Z).evaluate(c()).unwrap(), &[o; 3]);
        check_buf("dm/dx", &m.into_constant().adjoint(X).evaluate(c()).unwrap(), &[[[o; 4]; 2]; 3]);
        check_buf("dm/dy", &m.into_constant().adjoint(Y).evaluate(c()).unwrap(), &[[[[o; 3]; 2]; 2]; 3]);
        check_buf("dm/dz", &m.into_constant().adjoint(Z).evaluate(c()).unwrap(), &[[o; 2]; 3]);
        check_buf("dz/dy", &z.into_constant().adjoint(Y).evaluate(c()).unwrap(), &[[o; 3]; 2]);
        check_buf("d2x/dxdz", &X.into_var().adjoint(X).adjoint(Z).evaluate(c()).unwrap(), &[[o; 4]; 4]);
        check_buf("d2x/dzdx", &X.into_var().adjoint(Z).adjoint(X).evaluate(c()).unwrap(), &[[o; 4]; 4]);
        check_buf("d2z/dzdx", &Z.into_var().adjoint(Z).adjoint(X).evaluate(c()).unwrap(), &[o; 4]);
    });
}

/// Known findings (see known-findings.txt): each violated statement has a case of its own, and a
/// `pinned` twin which states what the library does instead (or what it ought to), so that any
/// other result is still reported, and a repair is not.
fn knowns(v: &mut Vec<Case>) {
    case!(v, "known/sum by vector", {
        let x: [F; 3] = Dense::inputs("x");
        let o = F::lit(1, 1);
        let got = X.into_var().sum().adjoint(X).evaluate(ctx!{X = x}).unwrap();
        check_buf("d/dX", &got, &[o; 3]);
    });
    case!(v, "pinned/sum by vector", {
        let (x, y): ([F; 3], [F; 3]) = (Dense::inputs("x"), Dense::inputs("y"));
        let w = F::inp("w");
        let c = || ctx!{X = x, Y = y, W = w};
        let f = X.into_var().sub(Y.into_var());
        let o = F::lit(1, 1);
        check_either("d/dX", &f.sum().adjoint(X).evaluate(c()).unwrap(), &f.adjoint(X).evaluate(c()).unwrap(), &[o; 3]);
        check_either("d/dY", &f.sum().adjoint(Y).evaluate(c()).unwrap(), &f.adjoint(Y).evaluate(c()).unwrap(), &[-o; 3]);
        let g = X.into_var().mul(W.into_var());
        check_either("d/dW", &g.sum().adjoint(W).evaluate(c()).unwrap(), &x, &(x[0] + x[1] + x[2]));
        let h = X.into_var().dot(Y.into_var());
        check_buf("sum of a scalar", &h.sum().adjoint(X).evaluate(c()).unwrap(), &y);
    });
    case!(v, "known/dot of a non-symmetric left Jacobian", {
        let (x, y, w): ([F; 2], [F; 2], [F; 2]) = (Dense::inputs("x"), Dense::inputs("y"), Dense::inputs("w"));
        let (vx, vy, vw) = (X.into_var(), Y.into_var(), W.into_var());
        // sum_i x_i (x.y) w_i
        let f = TensorProduct::new(vx, vx.dot(vy)).dot(vw);
        let got = f.adjoint(X).evaluate(ctx!{X = x, Y = y, W = w}).unwrap();
        let (xy, xw) = (x[0] * y[0] + x[1] * y[1], x[0] * w[0] + x[1] * w[1]);
        check_buf("d/dX", &got, &[w[0] * xy + xw * y[0], w[1] * xy + xw * y[1]]);
    });
    case!(v, "pinned/dot of a non-symmetric left Jacobian", {
        let (x, y, w): ([F; 2], [F; 2], [F; 2]) = (Dense::inputs("x"), Dense::inputs("y"), Dense::inputs("w"));
        let (vx, vy, vw) = (X.into_var(), Y.into_var(), W.into_var());
        let f = TensorProduct::new(vx, vx.dot(vy)).dot(vw);
        let got = f.adjoint(X).evaluate(ctx!{X = x, Y = y, W = w}).unwrap();
        let (xy, yw) = (x[0] * y[0] + x[1] * y[1], y[0] * w[0] + y[1] * w[1]);
        let xw = x[0] * w[0] + x[1] * w[1];
        check_either(
            "J.w instead of w.J",
            &got,
            &[w[0] * xy + x[0] * yw, w[1] * xy + x[1] * yw],
            &[w[0] * xy + xw * y[0], w[1] * xy + xw * y[1]],
        );
    });
    case!(v, "known/scalar times vector", {
        let (x, y): ([F; 2], [F; 2]) = (Dense::inputs("x"), Dense::inputs("y"));
        let (vx, vy) = (X.into_var(), Y.into_var());
        let f = TensorProduct::new(vx.dot(vy), vx);
        let got = f.adjoint(X).evaluate(ctx!{X = x, Y = y}).unwrap();
        let xy = x[0] * y[0] + x[1] * y[1];
        check_buf("d/dX", &got, &[[x[0] * y[0] + xy, x[0] * y[1]], [x[1] * y[0], x[1] * y[1] + xy]]);
    });
    case!(v, "pinned/scalar times vector", {
        let (x, y): ([F; 2], [F; 2]) = (Dense::inputs("x"), Dense::inputs("y"));
        let (vx, vy) = (X.into_var(), Y.into_var());
        let f = TensorProduct::new(vx.dot(vy), vx);
        let got = f.adjoint(X).evaluate(ctx!{X = x, Y = y}).unwrap();
        let xy = x[0] * y[0] + x[1] * y[1];
        check_either(
            "transposed",
            &got,
            &[[y[0] * x[0] + xy, y[0] * x[1]], [y[1] * x[0], y[1] * x[1] + xy]],
            &[[x[0] * y[0] + xy, x[0] * y[1]], [x[1] * y[0], x[1] * y[1] + xy]],
        );
    });
}
