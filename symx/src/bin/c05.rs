//! Sparse representations never change the value, the shape or the success of an operation.
//!
//! Every operation is run twice on the same contents: once with operands in any representation
//! (dense, constant, diagonal: chosen symbolically, with symbolic contents), once with all of them
//! dense.  Expansion of the representation is done here, and separately by the library's `unwrap`.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Arrays, Buffer, Class, Contract as CTrait, IntoSpec, Scalars, Spec, Tuples, Vecs, ZipMap};
use aegir::ids::{W, X, Y, Z};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Context, Differentiable, Function, Identifier, Node, Read};
use symx::*;

/// The same leaf, held densely.
fn raw<V: Buffer>(l: &Lf<V>) -> Lf<V> {
    Lf::raw(l.raw.clone())
}

macro_rules! agree {
    ($s:expr, $d:expr) => {{
        let (s, d) = ($s, $d);
        let want = ev(&d);
        check_buf("evaluate", &ev(&s), &want);
        let spec = ev_spec(&s);
        check_buf("evaluate_spec", &expand(&spec), &want);
        check_buf("evaluate_spec, dense operands", &expand(&ev_spec(&d)), &want);
        check_buf("unwrap", &spec.unwrap(), &want);
    }};
}
macro_rules! vagree {
    ($s:expr, $d:expr) => {{
        let (s, d) = ($s, $d);
        let want = ev(&d);
        check_buf("evaluate", &ev(&s), &want);
        let spec = ev_spec(&s);
        check("shape", Formula::of(spec.shape().0 == [want.len()]));
        check_buf("evaluate_spec", &vexpand(&spec), &want);
        check_buf("unwrap", &spec.unwrap(), &want);
    }};
}

macro_rules! unary {
    ($v:ident, $tag:expr, $t:tt; $($id:literal |$n:ident| $node:expr;)*) => {
        $(case!($v, format!("unary/{}/{}", $tag, $id), {
            type T<S> = tyf!(S; $t);
            let l: Lf<T<F>> = leaf("n");
            agree!({ let $n = l.clone(); $node }, { let $n = raw(&l); $node });
        });)*
    };
}
macro_rules! vunary {
    ($v:ident; $($id:literal |$n:ident| $node:expr;)*) => {
        $(case!($v, format!("unary/vec/{}", $id), {
            let l: Lf<Vec<F>> = vleaf("n", pick("len", 4));
            vagree!({ let $n = l.clone(); $node }, { let $n = raw(&l); $node });
        });)*
    };
}
macro_rules! unaries {
    ($m:ident!($($args:tt)*)) => {
        $m!($($args)*;
            "sub_one" |n| SubOne(n);
            "one_sub" |n| OneSub(n);
            "add_one" |n| AddOne(n);
            "square" |n| Square(n);
            "double" |n| Double(n);
            "negate" |n| Negate(n);
            "sign" |n| Sign(n);
            "abs" |n| Abs(n);
            "dirac" |n| Dirac(n);
            "ln" |n| Ln(n);
            "xlnx" |n| XLnX(n);
            "exp" |n| Exp(n);
            "rabbit" |n| Rabbit(n);
            "sigmoid" |n| Sigmoid(n);
            "cos" |n| Cos(n);
            "cosh" |n| Cosh(n);
            "acos" |n| ArcCos(n);
            "sin" |n| Sin(n);
            "tan" |n| Tan(n);
            "tanh" |n| Tanh(n);
            "gamma" |n| Gamma(n);
            "erfc" |n| Erfc::erfc(n);
        );
    };
}
macro_rules! few {
    ($v:ident; $($tag:literal $t:tt,)*) => { $(
        unary!($v, $tag, $t;
            "one_sub" |n| OneSub(n);
            "square" |n| Square(n);
            "exp" |n| Exp(n);
            "abs" |n| Abs(n);
        );
    )* };
}

macro_rules! binary {
    ($v:ident, $tag:expr, $l:tt $r:tt; $($id:literal |$a:ident, $b:ident| $node:expr;)*) => {
        $(case!($v, format!("binary/{}/{}", $tag, $id), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            let (l, r): (Lf<L<F>>, Lf<R<F>>) = (leaf("l"), leaf("r"));
            agree!({ let ($a, $b) = (l.clone(), r.clone()); $node }, { let ($a, $b) = (raw(&l), raw(&r)); $node });
        });)*
    };
}
macro_rules! binaries {
    ($v:ident; $($tag:literal $l:tt $r:tt,)*) => { $(
        binary!($v, $tag, $l $r;
            "add" |l, r| Add(l, r);
            "sub" |l, r| Sub(l, r);
            "mul" |l, r| Mul(l, r);
            "div" |l, r| Div(l, r);
        );
    )* };
}
// Two levels deep: what one operator hands over is the structured operand of the next.
macro_rules! nested {
    ($v:ident; $($tag:literal $l:tt $r:tt,)*) => { $(
        binary!($v, $tag, $l $r;
            "(l+r)*l" |l, r| Mul(Add(l.clone(), r), l);
            "l-(l*r)" |l, r| Sub(l.clone(), Mul(l, r));
            "(l-r)+(l*r)" |l, r| Add(Sub(l.clone(), r.clone()), Mul(l, r));
            "(-l)*(1-r)" |l, r| Mul(Negate(l), OneSub(r));
            "2l+r^2" |l, r| Add(Double(l), Square(r));
            "(l-1)/(r+1)" |l, r| Div(SubOne(l), AddOne(r));
        );
    )* };
}
macro_rules! contractions {
    ($v:ident; $($axes:literal $tag:literal $l:tt $r:tt,)*) => { $(
        binary!($v, $tag, $l $r;
            "contract" |l, r| Contract::<$axes, _, _>::new(l, r);
            "of negated" |l, r| Contract::<$axes, _, _>::new(Negate(l), OneSub(r));
        );
        case!($v, format!("trait/{}", $tag), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            let (l, r): (Lf<L<F>>, Lf<R<F>>) = (leaf("l"), leaf("r"));
            let want = <L<F> as CTrait<R<F>, $axes>>::contract(l.raw.clone(), r.raw.clone()).unwrap();
            let got = <L<F> as CTrait<R<F>, $axes>>::contract_spec(l.spec.clone(), r.spec.clone()).unwrap();
            check_buf("contract_spec", &expand(&got), &want);
            let free = aegir::buffers::contract_spec::<$axes, L<F>, R<F>>(l.spec, r.spec).unwrap();
            check_buf("buffers::contract_spec", &expand(&free), &want);
            let dense = aegir::buffers::contract::<$axes, L<F>, R<F>>(l.raw, r.raw).unwrap();
            check_buf("buffers::contract", &dense, &want);
        });
    )* };
}
macro_rules! vbinary {
    ($v:ident; $($id:literal |$a:ident, $b:ident| $node:expr;)*) => {
        $(case!($v, format!("binary/vec,vec/{}", $id), {
            // lengths may differ: then both sides must fail
            let (n, m) = (pick("n", 3), pick("m", 3));
            let (l, r): (Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", n), vleaf("r", m));
            let s = { let ($a, $b) = (l.clone(), r.clone()); $node };
            let d = { let ($a, $b) = (raw(&l), raw(&r)); $node };
            let (s1, s2, d1) = (s.evaluate(Nil), s.evaluate_spec(Nil), d.evaluate(Nil));
            check("success", Formula::of(s1.is_ok() == d1.is_ok() && s2.is_ok() == d1.is_ok()));
            check("success iff equal lengths", Formula::of(d1.is_ok() == (n == m)));
            if let (Ok(a), Ok(b), Ok(want)) = (s1, s2, d1) {
                check("shape", Formula::of(b.shape().0 == [want.len()]));
                check_buf("evaluate", &a, &want);
                check_buf("evaluate_spec", &vexpand(&b), &want);
                check_buf("unwrap", &b.unwrap(), &want);
            }
        });
        case!($v, format!("binary/vec,s/{}", $id), {
            let (l, r): (Lf<Vec<F>>, Lf<F>) = (vleaf("l", pick("n", 4)), leaf("r"));
            vagree!({ let ($a, $b) = (l.clone(), r.clone()); $node }, { let ($a, $b) = (raw(&l), raw(&r)); $node });
        });
        case!($v, format!("binary/s,vec/{}", $id), {
            let (l, r): (Lf<F>, Lf<Vec<F>>) = (leaf("l"), vleaf("r", pick("n", 4)));
            vagree!({ let ($a, $b) = (l.clone(), r.clone()); $node }, { let ($a, $b) = (raw(&l), raw(&r)); $node });
        });)*
    };
}

// The methods of `Spec` itself, with functions that distinguish position and order.
macro_rules! specs {
    ($v:ident; $($tag:literal $t:tt,)*) => { $(
        case!($v, concat!("spec/", $tag), {
            type T<S> = tyf!(S; $t);
            let (l, r): (Lf<T<F>>, Lf<T<F>>) = (leaf("l"), leaf("r"));
            let (k, two) = (F::inp("k"), F::lit(2, 1));
            let (lw, rw) = (Bag::of(&l.raw), Bag::of(&r.raw));
            check("shape", Formula::of(l.spec.shape() == l.raw.shape()));
            check_buf("unwrap", &l.spec.clone().unwrap(), &lw);
            check_buf("map", &expand(&l.spec.clone().map(|x| k - two * x)), &lw.map(|x| k - two * x));
            check_buf("map, unwrapped", &l.spec.clone().map(|x| k - two * x).unwrap(), &lw.map(|x| k - two * x));
            check_buf("map of x*x", &expand(&l.spec.clone().map(|x| x * x)), &lw.map(|x| x * x));
            let z = l.spec.clone().zip_map(&r.spec, |x, y| x - k * y).unwrap();
            check_buf("zip_map", &expand(&z), &lw.zip(&rw, |x, y| x - k * y));
            check_buf("zip_map, unwrapped", &z.unwrap(), &lw.zip(&rw, |x, y| x - k * y));
            let sh = l.raw.shape();
            let (zero, one) = (F::lit(0, 1), F::lit(1, 1));
            check_buf("zeroes", &expand(&Spec::<T<F>>::zeroes(sh)), &T::<F>::fill(zero));
            check_buf("zeroes, unwrapped", &Spec::<T<F>>::zeroes(sh).unwrap(), &T::<F>::fill(zero));
            check_buf("ones", &expand(&Spec::<T<F>>::ones(sh)), &T::<F>::fill(one));
            check_buf("ones, unwrapped", &Spec::<T<F>>::ones(sh).unwrap(), &T::<F>::fill(one));
            check_buf("eye", &expand(&Spec::<T<F>>::eye(sh)), &T::<F>::diag(one));
            check_buf("eye, unwrapped", &Spec::<T<F>>::eye(sh).unwrap(), &T::<F>::diag(one));
            check_buf("from", &expand(&Spec::from(l.raw.clone())), &lw);
            check_buf("into_spec", &expand(&l.raw.clone().into_spec()), &lw);
            check_buf("into_spec of a spec", &expand(&IntoSpec::into_spec(l.spec.clone())), &lw);
            check_buf("into_constant", &l.raw.clone().into_constant().evaluate(Nil).unwrap(), &lw);
            // a constant may hold a representation
            let c = Constant(l.spec.clone());
            check_buf("constant", &ev(&c), &lw);
            check_buf("constant, structured", &expand(&ev_spec(&c)), &lw);
            check("constant, shape", Formula::of(ev_shape(&c) == sh));
        });
        case!($v, concat!("stored/", $tag), {
            type T<S> = tyf!(S; $t);
            let (l, r): (Lf<T<F>>, Lf<T<F>>) = (leaf("l"), leaf("r"));
            let c = || Stored { x: l.clone(), y: r.clone() };
            let d = || Stored { x: raw(&l), y: raw(&r) };
            let lw = Bag::of(&l.raw);
            check("read_shape", Formula::of(Read::<X>::read_shape(&c(), X) == Some(l.raw.shape())));
            let (x, y) = (X.into_var(), Y.into_var());
            check_buf("variable", &x.evaluate(c()).unwrap(), &lw);
            check_buf("variable, structured", &expand(&x.evaluate_spec(c()).unwrap()), &lw);
            check_buf("x*y", &x.mul(y).evaluate(c()).unwrap(), &x.mul(y).evaluate(d()).unwrap());
            check_buf("x-y", &x.sub(y).evaluate(c()).unwrap(), &x.sub(y).evaluate(d()).unwrap());
            check_buf("x/(1+y)", &x.div(AddOne(y)).evaluate(c()).unwrap(), &x.div(AddOne(y)).evaluate(d()).unwrap());
        });
    )* };
}
use aegir::meta::Constant;

/// A hand-written context whose variables hold representations.
#[derive(Clone)]
struct Stored<P: Buffer, Q: Buffer> {
    x: Lf<P>,
    y: Lf<Q>,
}
impl<P: Buffer, Q: Buffer> AsMut<Self> for Stored<P, Q> {
    fn as_mut(&mut self) -> &mut Self {
        self
    }
}
impl<P: Buffer, Q: Buffer> Context for Stored<P, Q> {}
impl<P: Buffer, Q: Buffer> Read<X> for Stored<P, Q> {
    type Buffer = P;
    fn read(&self, _: X) -> Option<P> {
        Some(self.x.raw.clone())
    }
    fn read_spec(&self, _: X) -> Option<Spec<P>> {
        Some(self.x.spec.clone())
    }
}
impl<P: Buffer, Q: Buffer> Read<Y> for Stored<P, Q> {
    type Buffer = Q;
    fn read(&self, _: Y) -> Option<Q> {
        Some(self.y.raw.clone())
    }
    fn read_spec(&self, _: Y) -> Option<Spec<Q>> {
        Some(self.y.spec.clone())
    }
}

// zip_map across different kinds
macro_rules! zips {
    ($v:ident; $($tag:literal $l:tt $r:tt,)*) => { $(
        case!($v, concat!("spec/zip ", $tag), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            let (l, r): (Lf<L<F>>, Lf<R<F>>) = (leaf("l"), leaf("r"));
            let k = F::inp("k");
            let want = Bag::of(&l.raw).zip(&Bag::of(&r.raw), |x, y| x - k * y);
            let z = l.spec.clone().zip_map(&r.spec, |x, y| x - k * y).unwrap();
            check_buf("zip_map", &expand(&z), &want);
            check_buf("zip_map, unwrapped", &z.unwrap(), &want);
        });
    )* };
}

fn main() {
    let mut v = vec![];

    unaries!(unary!(v, "s", [s]));
    unaries!(unary!(v, "3", [3]));
    unaries!(unary!(v, "2x2", [2 2]));
    unaries!(vunary!(v));
    few!(v; "t" [t], "2x3" [2 3], "3x1" [3 1], "2x1x2" [2 1 2], "1x2x1x2" [1 2 1 2], "1x2x1x1x2" [1 2 1 1 2],);
    unary!(v, "sum/s", [s]; "sum" |n| Sum(n););
    unary!(v, "sum/t", [t]; "sum" |n| Sum(n););
    unary!(v, "sum/4", [4]; "sum" |n| Sum(n); "sum of negated" |n| Sum(Negate(n)););
    unary!(v, "sum/2x3", [2 3]; "sum" |n| Sum(n); "sum of negated" |n| Sum(Negate(n)););
    unary!(v, "sum/3x2", [3 2]; "sum" |n| Sum(n););
    unary!(v, "sum/2x1x3", [2 1 3]; "sum" |n| Sum(n););
    case!(v, "unary/vec/sum", {
        let l: Lf<Vec<F>> = vleaf("n", pick("len", 4));
        agree!(Sum(l.clone()), Sum(raw(&l)));
    });

    macro_rules! long {
        ($($tag:literal $t:tt,)*) => { $( unary!(v, $tag, $t; "one_sub" |n| OneSub(n); "square" |n| Square(n); "exp" |n| Exp(n);); )* };
    }
    long!("17" [17], "33" [33], "9x2" [9 2], "2x9" [2 9], "1x2x9" [1 2 9],);
    unary!(v, "sum/long", [257]; "sum" |n| Sum(n); "sum of negated" |n| Sum(Negate(n)););
    unary!(v, "sum/17x16", [17 16]; "sum" |n| Sum(n););
    binaries!(v; "17,17" [17] [17], "33,s" [33] [s], "s,33" [s] [33], "9x2,9x2" [9 2] [9 2], "2x9,s" [2 9] [s], "s,2x9" [s] [2 9],);
    contractions!(v;
        0 "0:17,s" [17] [s], 0 "0:s,9x2" [s] [9 2], 0 "0:2,9" [2] [9], 1 "1:9,9" [9] [9], 1 "1:17,17" [17] [17], 1 "1:257,257" [257] [257],
        1 "1:9,9x2" [9] [9 2], 1 "1:9x9,9" [9 9] [9], 1 "1:2x9,9x2" [2 9] [9 2], 1 "1:9x2,2x9" [9 2] [2 9], 1 "1:5x5,5x5" [5 5] [5 5],
    );
    case!(v, "unary/vec, long", {
        let l: Lf<Vec<F>> = vleaf("n", [9, 17, 33, 129, 257][pick("len", 5)]);
        vagree!(OneSub(l.clone()), OneSub(raw(&l)));
        vagree!(Square(l.clone()), Square(raw(&l)));
        agree!(Sum(l.clone()), Sum(raw(&l)));
        agree!(Sum(Negate(l.clone())), Sum(Negate(raw(&l))));
    });
    case!(v, "binary/vec, long", {
        let n = [9, 17, 33, 129, 257][pick("len", 5)];
        let (l, r, s): (Lf<Vec<F>>, Lf<Vec<F>>, Lf<F>) = (vleaf("l", n), vleaf("r", n), leaf("s"));
        vagree!(Add(l.clone(), r.clone()), Add(raw(&l), raw(&r)));
        vagree!(Sub(l.clone(), s.clone()), Sub(raw(&l), raw(&s)));
        vagree!(Mul(s.clone(), r.clone()), Mul(raw(&s), raw(&r)));
    });
    // The sum of a constant is taken without expanding it: cardinalities beyond the small integer types.
    case!(v, "sum of a constant, cardinality", {
        let n = [0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 70000][pick("n", 13)];
        let x = F::inp("x");
        let f = Sum(aegir::meta::Constant(Spec::<Vec<F>>::Full(SDynamic([n]), x)));
        let want = x * F::lit(n as i128, 1);
        check_buf("vector", &expand(&ev_spec(&f)), &want);
        check_buf("vector, evaluate", &ev(&f), &want);
    });
    macro_rules! cards {
        ($($n:literal $s:ident $t:tt;)*) => { $(case!(v, format!("sum of a constant, {}", stringify!($t)), {
            type T<S> = tyf!(S; $t);
            let x = F::inp("x");
            let f = Sum(aegir::meta::Constant(Spec::<T<F>>::Full($s, x)));
            check_buf("sum", &expand(&ev_spec(&f)), &(x * F::lit($n, 1)));
            check_buf("sum, evaluate", &ev(&f), &(x * F::lit($n, 1)));
        });)* };
    }
    cards!(0 S1 [0]; 300 S1 [300]; 306 S2 [18 17]; 1025 S2 [41 25]; 294 S3 [7 6 7]; 0 S3 [2 0 3]; 288 S4 [4 3 8 3]; 480 S5 [2 3 4 4 5];);
    binaries!(v;
        "s,s" [s] [s], "t,t" [t] [t], "3,3" [3] [3], "3,s" [3] [s], "s,3" [s] [3], "1,1" [1] [1],
        "2x2,2x2" [2 2] [2 2], "2x3,2x3" [2 3] [2 3], "3x2,s" [3 2] [s], "s,2x2" [s] [2 2],
        "2x1x2,2x1x2" [2 1 2] [2 1 2], "2x1x2,s" [2 1 2] [s], "s,2x1x2" [s] [2 1 2],
        "1x2x1x2,1x2x1x2" [1 2 1 2] [1 2 1 2], "1x2x1x1x2,1x2x1x1x2" [1 2 1 1 2] [1 2 1 1 2],
    );
    binary!(v, "s,s", [s] [s]; "pow" |l, r| Power(l, r); "pow of sums" |l, r| Power(AddOne(l), SubOne(r)););
    nested!(v; "s,s" [s] [s], "3,3" [3] [3], "2x2,s" [2 2] [s], "s,2x3" [s] [2 3],);
    vbinary!(v;
        "add" |l, r| Add(l, r);
        "sub" |l, r| Sub(l, r);
        "mul" |l, r| Mul(l, r);
        "div" |l, r| Div(l, r);
    );
    contractions!(v;
        0 "0:s,s" [s] [s], 0 "0:3,s" [3] [s], 0 "0:s,3" [s] [3], 0 "0:2x3,s" [2 3] [s], 0 "0:s,3x2" [s] [3 2],
        0 "0:2,2" [2] [2], 0 "0:2,3" [2] [3], 0 "0:3,1" [3] [1],
        1 "1:s,s" [s] [s], 1 "1:3,3" [3] [3], 1 "1:1,1" [1] [1], 1 "1:2x2,2" [2 2] [2], 1 "1:3x3,3" [3 3] [3], 1 "1:1x1,1" [1 1] [1],
        1 "1:2,2x2" [2] [2 2], 1 "1:2,2x3" [2] [2 3], 1 "1:3,3x2" [3] [3 2], 1 "1:3,3x3" [3] [3 3], 1 "1:1,1x3" [1] [1 3],
        1 "1:2x2,2x2" [2 2] [2 2], 1 "1:3x3,3x3" [3 3] [3 3], 1 "1:2x3,3x2" [2 3] [3 2], 1 "1:3x2,2x3" [3 2] [2 3],
        1 "1:2x3,3x3" [2 3] [3 3], 1 "1:2x2,2x3" [2 2] [2 3], 1 "1:3x2,2x2" [3 2] [2 2], 1 "1:1x3,3x1" [1 3] [3 1], 1 "1:2x3,3x1" [2 3] [3 1],
    );
    specs!(v;
        "s" [s], "t" [t], "1" [1], "3" [3], "2x2" [2 2], "2x3" [2 3], "3x2" [3 2], "2x2x2" [2 2 2], "2x1x3" [2 1 3],
        "1x2x1x2" [1 2 1 2], "2x2x2x2" [2 2 2 2], "1x2x1x1x2" [1 2 1 1 2],
    );
    zips!(v; "3,s" [3] [s], "s,3" [s] [3], "2x2,s" [2 2] [s], "s,2x3" [s] [2 3], "2x1x2,s" [2 1 2] [s], "s,1x2x1x2" [s] [1 2 1 2],);
    case!(v, "spec/vec", {
        let n = pick("n", 4);
        let (l, r): (Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", n), vleaf("r", n));
        let s: Lf<F> = leaf("s");
        let k = F::inp("k");
        let (lw, rw, sw) = (Bag::of(&l.raw), Bag::of(&r.raw), Bag::of(&s.raw));
        check("shape", Formula::of(l.spec.shape() == l.raw.shape()));
        check_buf("unwrap", &l.spec.clone().unwrap(), &lw);
        check_buf("map", &vexpand(&l.spec.clone().map(|x| k - x * x)), &lw.map(|x| k - x * x));
        check_buf("zip_map", &vexpand(&l.spec.clone().zip_map(&r.spec, |x, y| x - k * y).unwrap()), &lw.zip(&rw, |x, y| x - k * y));
        check_buf("zip_map scalar", &vexpand(&l.spec.clone().zip_map(&s.spec, |x, y| x - k * y).unwrap()), &lw.zip(&sw, |x, y| x - k * y));
        check_buf("zip_map of a scalar", &vexpand(&s.spec.clone().zip_map(&l.spec, |x, y| x - k * y).unwrap()), &sw.zip(&lw, |x, y| x - k * y));
        let sh = l.raw.shape();
        check_buf("zeroes", &Spec::<Vec<F>>::zeroes(sh).unwrap(), &vec![F::lit(0, 1); n]);
        check_buf("ones", &Spec::<Vec<F>>::ones(sh).unwrap(), &vec![F::lit(1, 1); n]);
        check_buf("eye", &Spec::<Vec<F>>::eye(sh).unwrap(), &vec![F::lit(1, 1); n]);
        let c = Constant(l.spec.clone());
        check_buf("constant", &ev(&c), &lw);
        check("constant, shape", Formula::of(ev_shape(&c).0 == [n]));
    });
    main_with("C05", v);
}
