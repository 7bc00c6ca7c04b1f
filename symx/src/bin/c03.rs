//! Second-order adjoints are second derivatives; mixed partials agree in either order.
//!
//! The oracle evaluates the original node on jets of jets.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Spec};
use aegir::errors::NoError;
use aegir::ids::{W, X, Y, Z};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Context, Differentiable, Function, Identifier, Node};
use symx::*;

/// Any twice differentiable sub-expression: value, both first derivatives, mixed second derivative.
#[derive(Clone)]
struct Op2<V: Buffer> {
    v: Lf<V>,
    x: Lf<V>,
    y: Lf<V>,
    xy: Lf<V>,
}
impl<V: Buffer> Node for Op2<V> {}
impl<V: Buffer, C: Context> Function<C> for Op2<V> {
    type Value = V;
    type Error = NoError;
    fn evaluate<CR: AsMut<C>>(&self, c: CR) -> Result<V, NoError> {
        Function::<C>::evaluate(&self.v, c)
    }
    fn evaluate_spec<CR: AsMut<C>>(&self, c: CR) -> Result<Spec<V>, NoError> {
        Function::<C>::evaluate_spec(&self.v, c)
    }
    fn evaluate_shape<CR: AsMut<C>>(&self, c: CR) -> Result<ShapeOf<V>, NoError> {
        Function::<C>::evaluate_shape(&self.v, c)
    }
}
impl<V: Buffer> Differentiable<X> for Op2<V> {
    type Adjoint = Opq<V, V>;
    fn adjoint(&self, _: X) -> Opq<V, V> {
        Opq { v: self.x.clone(), a: self.xy.clone() }
    }
}
impl<V: Buffer> Differentiable<Y> for Op2<V> {
    type Adjoint = Opq<V, V>;
    fn adjoint(&self, _: Y) -> Opq<V, V> {
        Opq { v: self.y.clone(), a: self.xy.clone() }
    }
}

fn full<V>(name: &str) -> Lf<V>
where
    V: Buffer + Dense<E = <V as Buffer>::Field>,
    V::Field: Fld,
{
    let x = V::Field::inp(name);
    let raw = V::fill(x);
    let sh = raw.shape();
    Lf { raw, spec: Spec::Full(sh, x) }
}
fn diag<V>(name: &str) -> Lf<V>
where
    V: Buffer + Dense<E = <V as Buffer>::Field>,
    V::Field: Fld,
{
    let x = V::Field::inp(name);
    let raw = V::diag(x);
    let sh = raw.shape();
    Lf { raw, spec: Spec::Diagonal(sh, x) }
}

fn op2<V>(n: &str) -> Op2<V>
where
    V: Buffer + Dense<E = <V as Buffer>::Field>,
    V::Field: Fld,
{
    let (x, y, xy) = (format!("{}_x", n), format!("{}_y", n), format!("{}_xy", n));
    match pick(&format!("{}_kind", n), if n == "n" || thorough() { 5 } else { 3 }) {
        0 => Op2 { v: dense(n), x: dense(&x), y: dense(&y), xy: dense(&xy) },
        1 => Op2 { v: full(n), x: full(&x), y: full(&y), xy: full(&xy) },
        2 => Op2 { v: dense(n), x: full(&x), y: dense(&y), xy: full(&xy) },
        3 => Op2 { v: full(n), x: dense(&x), y: full(&y), xy: dense(&xy) },
        _ => Op2 { v: diag(n), x: diag(&x), y: dense(&y), xy: diag(&xy) },
    }
}

/// The same sub-expression over jets of jets: inner direction X, outer direction Y.
fn jj<F: Fld, V, VJ>(o: &Op2<V>) -> Lf<VJ>
where
    V: Buffer + Flat<E = F>,
    VJ: Buffer + Dense<E = Jet<Jet<F>>>,
{
    let (a, b, c, d) = (o.v.raw.flat(), o.x.raw.flat(), o.y.raw.flat(), o.xy.raw.flat());
    let mut n = 0;
    Lf::raw(VJ::by(|_| {
        n += 1;
        jet(jet(a[n - 1], b[n - 1]), jet(c[n - 1], d[n - 1]))
    }))
}

fn any() -> Formula {
    Formula::True
}
fn pos<B: Flat>(b: &B) -> Formula
where
    B::E: Fld,
{
    Formula::and(b.flat().into_iter().map(|x| B::E::lit(0, 1).lt_(x)).collect())
}
fn nz<B: Flat>(b: &B) -> Formula
where
    B::E: Fld,
{
    Formula::and(b.flat().into_iter().map(|x| x.ne_(B::E::lit(0, 1))).collect())
}
fn dd<F: Copy>(v: Vec<Jet<Jet<F>>>) -> Vec<F> {
    v.into_iter().map(|j| j.d.d).collect()
}

macro_rules! unary {
    ($v:ident, $tag:literal $t:tt; $($id:literal $op:ident |$x:ident| $dom:expr;)*) => {
        $(case!($v, format!("unary/{}/{}", $tag, $id), {
            type T<S> = tyf!(S; $t);
            let n: Op2<T<F>> = op2("n");
            {
                let $x = &n.v.raw;
                assume($dom);
            }
            let out: T<Jet<J>> = ev(&$op(jj::<F, T<F>, T<Jet<J>>>(&n)));
            let want = T::<F>::dense_of(dd(out.flat()));
            let f = $op(n.clone());
            check_buf("d2/dxdy", &ev(&f.adjoint(X).adjoint(Y)), &want);
            check_buf("d2/dydx", &ev(&f.adjoint(Y).adjoint(X)), &want);
            check_buf("d2/dxdy via spec", &expand(&ev_spec(&f.adjoint(X).adjoint(Y))), &want);
        });)*
    };
}
trait DenseOf: Dense {
    fn dense_of(v: Vec<Self::E>) -> Self {
        let mut n = 0;
        Self::by(|_| {
            n += 1;
            v[n - 1]
        })
    }
}
impl<T: Dense> DenseOf for T {}

macro_rules! binary {
    ($v:ident, $tag:literal $l:tt $r:tt $o:tt; $($id:literal |$a:ident, $b:ident| $node:expr, $dom:expr;)*) => {
        $(case!($v, format!("binary/{}/{}", $tag, $id), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            type O<S> = tyf!(S; $o);
            let (l, r): (Op2<L<F>>, Op2<R<F>>) = (op2("l"), op2("r"));
            {
                let ($a, $b) = (&l.v.raw, &r.v.raw);
                assume($dom);
            }
            let out: O<Jet<J>> = {
                let ($a, $b) = (jj::<F, L<F>, L<Jet<J>>>(&l), jj::<F, R<F>, R<Jet<J>>>(&r));
                ev(&$node)
            };
            let want = O::<F>::dense_of(dd(out.flat()));
            let ($a, $b) = (l, r);
            let f = $node;
            check_buf("d2/dxdy", &ev(&f.adjoint(X).adjoint(Y)), &want);
            check_buf("d2/dydx", &ev(&f.adjoint(Y).adjoint(X)), &want);
            check_buf("d2/dxdy via spec", &expand(&ev_spec(&f.adjoint(X).adjoint(Y))), &want);
        });)*
    };
}

// Whole expressions over two scalar variables (and an array W).
macro_rules! expr {
    ($v:ident, $wt:tt, $ot:tt; $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr, $dom:expr;)*) => {
        $(case!($v, format!("expr/{}{}", $id, stringify!($wt)), {
            type WT<S> = tyf!(S; $wt);
            type O<S> = tyf!(S; $ot);
            let (vx, vy) = (F::inp("x"), F::inp("y"));
            let vw: WT<F> = Dense::inputs("w");
            {
                let ($x, $y, $w) = (vx, vy, &vw);
                assume($dom);
            }
            let (z, o) = (F::lit(0, 1), F::lit(1, 1));
            let ww = vw.flat();
            let oracle = |x1: F, y1: F, x2: F, y2: F| {
                let jx = jet(jet(vx, x1), jet(x2, z));
                let jy = jet(jet(vy, y1), jet(y2, z));
                let zero = jet(z, z);
                let jw = WT::<Jet<J>>::dense_of(ww.iter().map(|e| jet(jet(*e, z), zero)).collect());
                let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
                let out: O<Jet<J>> = $node.evaluate(Cx { x: jx, y: jy, w: jw }).unwrap();
                O::<F>::dense_of(dd(out.flat()))
            };
            let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
            let c = || Cx { x: vx, y: vy, w: vw };
            let mixed = oracle(o, z, z, o);
            check_buf("d2/dxdx", &$node.adjoint(X).adjoint(X).evaluate(c()).unwrap(), &oracle(o, z, o, z));
            check_buf("d2/dxdy", &$node.adjoint(X).adjoint(Y).evaluate(c()).unwrap(), &mixed);
            check_buf("d2/dydx", &$node.adjoint(Y).adjoint(X).evaluate(c()).unwrap(), &mixed);
            check_buf("d2/dydy", &$node.adjoint(Y).adjoint(Y).evaluate(c()).unwrap(), &oracle(z, o, z, o));
            check_buf("spec d2/dxdx", &expand(&$node.adjoint(X).adjoint(X).evaluate_spec(c()).unwrap()), &oracle(o, z, o, z));
        });)*
    };
}

fn main() {
    let mut v = vec![];

    macro_rules! unaries {
        ($tag:literal $t:tt) => {
            unary!(v, $tag $t;
                "sub_one" SubOne |_x| any();
                "one_sub" OneSub |_x| any();
                "add_one" AddOne |_x| any();
                "square" Square |_x| any();
                "double" Double |_x| any();
                "negate" Negate |_x| any();
                "abs" Abs |x| nz(x);
                "ln" Ln |x| pos(x);
                "xlnx" XLnX |x| pos(x);
                "exp" Exp |_x| any();
                "rabbit" Rabbit |_x| any();
                "sigmoid" Sigmoid |_x| any();
                "cos" Cos |_x| any();
                "sin" Sin |_x| any();
            );
        };
    }
    unaries!("s" [s]);
    unaries!("2" [2]);

    binary!(v, "s,s" [s] [s] [s];
        "add" |l, r| Add(l, r), any();
        "sub" |l, r| Sub(l, r), any();
        "mul" |l, r| Mul(l, r), any();
        "div" |l, r| Div(l, r), nz(r);
        "pow" |l, r| Power(l, r), pos(l);
        "dot" |l, r| TensorDot::new(l, r), any();
        "outer" |l, r| TensorProduct::new(l, r), any();
    );
    binary!(v, "s,2" [s] [2] [2];
        "add" |l, r| Add(l, r), any();
        "sub" |l, r| Sub(l, r), any();
        "mul" |l, r| Mul(l, r), any();
        "div" |l, r| Div(l, r), nz(r);
        "outer" |l, r| TensorProduct::new(l, r), any();
    );
    binary!(v, "2,s" [2] [s] [2];
        "add" |l, r| Add(l, r), any();
        "sub" |l, r| Sub(l, r), any();
        "mul" |l, r| Mul(l, r), any();
        "div" |l, r| Div(l, r), nz(r);
        "outer" |l, r| TensorProduct::new(l, r), any();
    );
    binary!(v, "2x1,2x1" [2 1] [2 1] [2 1];
        "add" |l, r| Add(l, r), any();
        "sub" |l, r| Sub(l, r), any();
        "mul" |l, r| Mul(l, r), any();
        "div" |l, r| Div(l, r), nz(r);
    );
    binary!(v, "3,3" [3] [3] [s];
        "dot" |l, r| TensorDot::new(l, r), any();
    );
    binary!(v, "2,3" [2] [3] [2 3];
        "outer" |l, r| TensorProduct::new(l, r), any();
    );
    binary!(v, "2x2,2x1" [2 2] [2 1] [2 1];
        "dot" |l, r| TensorDot::new(l, r), any();
    );
    binary!(v, "2,2x3" [2] [2 3] [3];
        "dot" |l, r| TensorDot::new(l, r), any();
    );

    expr!(v, [s], [s];
        "x" |x, y, w| x, any();
        "y" |x, y, w| y, any();
        "x*y" |x, y, w| x.mul(y), any();
        "x*x*y" |x, y, w| x.mul(x).mul(y), any();
        "x^2 y^2" |x, y, w| x.squared().mul(y.squared()), any();
        "x/y" |x, y, w| x.div(y), nz(&y);
        "(x-y)/(x+y)" |x, y, w| x.sub(y).div(x.add(y)), (x + y).ne_(F::lit(0, 1));
        "exp(xy)" |x, y, w| Exp(x.mul(y)), any();
        "exp(-x^2)" |x, y, w| Exp(x.squared().neg()).mul(y), any();
        "sigmoid(xy)" |x, y, w| x.mul(y).sigmoid(), any();
        "sigmoid(x)y" |x, y, w| x.sigmoid().mul(y), any();
        "sin(xy)" |x, y, w| Sin(x.mul(y)), any();
        "sin(x)cos(y)" |x, y, w| Sin(x).mul(Cos(y)), any();
        "x ln y" |x, y, w| x.mul(y.ln()), pos(&y);
        "xy ln xy" |x, y, w| XLnX(x.mul(y)), pos(&(x * y));
        "ln(1+x^2)y" |x, y, w| AddOne(x.squared()).ln().mul(y), any();
        "x^y" |x, y, w| x.pow(y), pos(&x);
        "rabbit(x y)" |x, y, w| Rabbit(x.mul(y)), any();
        "|x| y" |x, y, w| x.abs().mul(y), nz(&x);
        "1-2(x-1)(y+1)" |x, y, w| OneSub(Double(SubOne(x).mul(AddOne(y)))), any();
        "x.y" |x, y, w| x.dot(y).mul(x), any();
        "x⊗y" |x, y, w| TensorProduct::new(x, y).mul(y), any();
    );
    expr!(v, [3], [3];
        "w" |x, y, w| w, any();
        "w x y" |x, y, w| w.mul(x).mul(y), any();
        "x^2 (w y)" |x, y, w| x.squared().mul(w.mul(y)), any();
        "exp(w x)y" |x, y, w| Exp(w.mul(x)).mul(y), any();
        "sin(w x) cos y" |x, y, w| Sin(w.mul(x)).mul(Cos(y)), any();
        "(w x)/y" |x, y, w| w.mul(x).div(y), nz(&y);
        "(w-x)^2 y" |x, y, w| w.sub(x).squared().mul(y), any();
        "sigmoid(wx)-y" |x, y, w| w.mul(x).sigmoid().sub(y.squared()), any();
    );
    expr!(v, [3], [s];
        "wx.wy" |x, y, w| w.mul(x).dot(w.mul(y)), any();
        "(wx.w)^2 y" |x, y, w| w.mul(x).dot(w).squared().mul(y), any();
        "exp(xw.(w-y))" |x, y, w| Exp(x.mul(w).dot(w.sub(y))), any();
    );
    expr!(v, [2 1], [2 1];
        "M x y" |x, y, w| w.mul(x).mul(y), any();
        "(x-M)(y M)" |x, y, w| x.sub(w).mul(y.mul(w)), any();
    );
    expr!(v, [2], [2 2];
        "xw⊗yw" |x, y, w| TensorProduct::new(x.mul(w), y.mul(w)), any();
        "xw⊗(w-x)" |x, y, w| TensorProduct::new(x.mul(w), w.sub(x)), any();
    );
    main_with("C03", v);
}
