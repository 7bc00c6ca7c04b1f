//! Dependency queries are sound, and identifiers are distinct.
//!
//! One operator at a time over arbitrary sub-expressions: what an operand contains is a symbolic
//! choice.  Then whole expressions: the answer is compared with the variables that occur, and where
//! it is "no", value and derivatives are compared between contexts that differ in that variable.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, IntoSpec, Spec};
use aegir::meta::*;
use aegir::ops::special::{DiGamma, Erf, Erfc, Factorial, LogGamma};
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Contains, Context, Differentiable, Function, Identifier, Node, Read};
use symx::*;

use aegir::ids::{Alpha, Lambda, Omega, A, W, X, Y, Z};

/// Any sub-expression: whether an identifier occurs in it is a symbolic choice.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Has(&'static str);

impl Has {
    fn says(&self, id: &dyn std::fmt::Debug) -> bool {
        choice(&format!("{}_has_{:?}", self.0, id))
    }
}
impl Node for Has {}
impl<T: Identifier> Contains<T> for Has {
    fn contains(&self, t: T) -> bool {
        self.says(&t)
    }
}

/// An operator defined by a user.
#[derive(Clone, Copy, Debug, PartialEq, Contains)]
struct Choose<P, Q, R> {
    #[op]
    test: P,
    #[op]
    then: Q,
    #[op]
    other: R,
}
impl<P, Q, R> Node for Choose<P, Q, R> {}
#[derive(Clone, Copy, Debug, PartialEq, Contains)]
struct Only<P: Clone>(#[op] P);
impl<P: Clone> Node for Only<P> {}

mod group {
    ids!(Left::"l", Right::r, Up);
}
/// Identifiers that print alike, or like one another's names.
mod alike {
    ids!(P1::p, P2::p, P3::"P1", P4, P5::"P4");
}

type Pair = (&'static str, &'static str, bool, bool, bool);

/// Every pair of shipped identifiers: equality both ways, and containment in the variable.
fn pairs() -> Vec<Vec<Pair>> {
    use aegir::ids::*;
    macro_rules! row { ($k:ident; [$($j:ident)*]) => {
        vec![$( (stringify!($k), stringify!($j), $k == $j, $k != $j, $k.into_var().contains($j)) ),*]
    } }
    macro_rules! rows { ($all:tt; $($k:ident)*) => { vec![$( row!($k; $all) ),*] } }
    macro_rules! all { ($($k:ident)*) => { rows!([$($k)*]; $($k)*) } }
    all!(A B C D E F G H I J K L M N O P Q R S T U V W X Y Z Alpha Beta Gamma Delta Epsilon Zeta Eta Theta Iota
            Kappa Lambda Mu Nu Xi Omicron Pi Rho Sigma Tau Upsilon Phi Chi Psi Omega)
}

fn main() {
    let mut v = vec![];

    // One operator over arbitrary operands.
    macro_rules! unary {
        ($($id:literal |$n:ident| $node:expr;)*) => { $(
            case!(v, concat!("operator/", $id), {
                let $n = Has("n");
                let node = $node;
                macro_rules! ask { ($k:ident) => {
                    check(concat!("contains ", stringify!($k)), Formula::of(Contains::contains(&node, $k) == $n.says(&$k)));
                } }
                ask!(X); ask!(Y); ask!(Lambda);
            });
        )* };
    }
    unary!(
        "sub_one" |n| SubOne(n);
        "one_sub" |n| OneSub(n);
        "add_one" |n| AddOne(n);
        "square" |n| Square(n);
        "double" |n| Double(n);
        "negate" |n| Negate(n);
        "sign" |n| Sign(n);
        "abs" |n| Abs(n);
        "dirac" |n| Dirac(n);
        "sum" |n| Sum(n);
        "ln" |n| Ln(n);
        "xlnx" |n| XLnX(n);
        "exp" |n| Exp(n);
        "rabbit" |n| Rabbit(n);
        "sigmoid" |n| Sigmoid(n);
        "cos" |n| Cos(n);
        "cosh" |n| Cosh(n);
        "acos" |n| ArcCos(n);
        "acosh" |n| ArcCosh(n);
        "sin" |n| Sin(n);
        "sinh" |n| Sinh(n);
        "asin" |n| ArcSin(n);
        "asinh" |n| ArcSinh(n);
        "tan" |n| Tan(n);
        "tanh" |n| Tanh(n);
        "atan" |n| ArcTan(n);
        "atanh" |n| ArcTanh(n);
        "gamma" |n| special::Gamma(n);
        "digamma" |n| DiGamma(n);
        "loggamma" |n| LogGamma(n);
        "factorial" |n| Factorial::factorial(n);
        "erf" |n| Erf(n);
        "erfc" |n| Erfc::erfc(n);
        "a user's operator of one operand" |n| Only(n);
        "a node twice" |n| Mul(n, n);
    );
    macro_rules! binary {
        ($($id:literal |$l:ident, $r:ident| $node:expr;)*) => { $(
            case!(v, concat!("operator/", $id), {
                let ($l, $r) = (Has("l"), Has("r"));
                let node = $node;
                macro_rules! ask { ($k:ident) => {
                    check(concat!("contains ", stringify!($k)), Formula::of(Contains::contains(&node, $k) == ($l.says(&$k) || $r.says(&$k))));
                } }
                ask!(X); ask!(Y); ask!(Omega);
            });
        )* };
    }
    binary!(
        "add" |l, r| Add(l, r);
        "sub" |l, r| Sub(l, r);
        "mul" |l, r| Mul(l, r);
        "div" |l, r| Div(l, r);
        "power" |l, r| Power(l, r);
        "tensor product" |l, r| TensorProduct::new(l, r);
        "tensor dot" |l, r| TensorDot::new(l, r);
        "tensor double dot" |l, r| TensorDoubleDot::new(l, r);
        "nested left" |l, r| Sub(Exp(l), r).neg();
        "nested right" |l, r| Sub(l, Exp(Double(r)));
    );
    case!(v, "operator/a user's operator of three operands", {
        let (p, q, r) = (Has("p"), Has("q"), Has("r"));
        let node = Choose { test: p, then: q, other: r };
        check("contains", Formula::of(Contains::contains(&node, X) == (p.says(&X) || q.says(&X) || r.says(&X))));
        check("contains another", Formula::of(Contains::contains(&node, Y) == (p.says(&Y) || q.says(&Y) || r.says(&Y))));
    });
    case!(v, "operator/cached", {
        let n = Has("n");
        let node = n.cached(W);
        check("the cached node", Formula::of(Contains::contains(&node, X) == n.says(&X)));
        check("the cache", Formula::of(Contains::contains(&node, W)));
        check("within", Formula::of(Contains::contains(&Exp(node).mul(n), W)));
        check("within, not", Formula::of(Contains::contains(&Exp(node), Z) == n.says(&Z)));
    });
    case!(v, "operator/adjoint of a constant", {
        let n = Has("n");
        let node = ConstantAdjoint { node: n, target: Y };
        check("the node", Formula::of(Contains::contains(&node, X) == n.says(&X)));
        check("the target", Formula::of(Contains::contains(&node, Y)));
        check("neither", Formula::of(Contains::contains(&node, Lambda) == n.says(&Lambda)));
    });

    // Every pair of shipped identifiers.
    case!(v, "identifiers", {
        let table = pairs();
        let n = table.len();
        check("fifty identifiers", Formula::of(n == 50));
        let i = pick("i", n);
        for (j, (a, b, eq, ne, contains)) in table[i].iter().enumerate() {
            check(&format!("{} == {}", a, b), Formula::of(*eq == (i == j)));
            check(&format!("{} != {}", a, b), Formula::of(*ne == (i != j)));
            check(&format!("variable {} contains {}", a, b), Formula::of(*contains == (i == j)));
        }
    });
    case!(v, "identifiers/own group", {
        use group::*;
        check("distinct", Formula::of(Left != Right && Right != Left && Left != Up && Up != Left && Right != Up && Up != Right));
        check("equal", Formula::of(Left == Left && Right == Right && Up == Up));
        let node = Left.into_var().mul(Right.into_var());
        check("contains", Formula::of(node.contains(Left) && node.contains(Right) && !node.contains(Up)));
        check("symbols", Formula::of(Left.to_string() == "l" && Right.to_string() == "r" && Up.to_string() == "Up"));
    });
    case!(v, "identifiers/printed alike", {
        use alike::*;
        macro_rules! apart { ($($k:ident [$($j:ident)*])*) => { $( $(
            check(concat!(stringify!($k), " and ", stringify!($j)), Formula::of($k != $j && $j != $k && !($k == $j) && !($j == $k)));
            check(concat!(stringify!($k), " contains ", stringify!($j)), Formula::of(!$k.into_var().contains($j) && !$j.into_var().contains($k)));
            check(concat!("sum of ", stringify!($k)), Formula::of(!Sin($k.into_var()).add($k.into_var().adjoint($k)).contains($j)));
            check(concat!("adjoint by ", stringify!($j)), Formula::of($k.into_var().adjoint($j).contains($j) && $k.into_var().adjoint($j).contains($k)));
        )* )* } }
        apart!(P1[P2 P3 P4 P5] P2[P1 P3 P4 P5] P3[P1 P2 P4 P5] P4[P1 P2 P3 P5] P5[P1 P2 P3 P4]);
        let (x, y) = (F::inp("x"), F::inp("y"));
        let c = || ctx!{P1 = x, P2 = y};
        check_buf("P1 is read", &P1.into_var().evaluate(c()).unwrap(), &x);
        check_buf("P2 is read", &P2.into_var().evaluate(c()).unwrap(), &y);
        check_buf("dP1/dP2", &P1.into_var().adjoint(P2).evaluate(c()).unwrap(), &F::lit(0, 1));
        check_buf("dP1/dP1", &P1.into_var().adjoint(P1).evaluate(c()).unwrap(), &F::lit(1, 1));
    });
    case!(v, "adjoints of variables", {
        let a = X.into_var().adjoint(Y);
        check("value", Formula::of(a.contains(X)));
        check("target", Formula::of(a.contains(Y)));
        check("neither", Formula::of(!a.contains(W) && !a.contains(A) && !a.contains(Lambda)));
        let a = X.into_var().adjoint(X);
        check("itself", Formula::of(a.contains(X) && !a.contains(Y)));
        let b = X.into_var().adjoint(Y).adjoint(W);
        check("second", Formula::of(b.contains(X) && b.contains(Y) && b.contains(W)));
        check("second, others", Formula::of(!b.contains(Z) && !b.contains(A)));
        let c = F::lit(2, 1).into_constant();
        check("constant", Formula::of(!c.contains(X) && !c.contains(A)));
        let a = c.adjoint(Z);
        check("constant, target", Formula::of(a.contains(Z) && !a.contains(X)));
    });

    // Whole expressions: exactly the variables that occur, and no dependency on the others.
    macro_rules! exprs {
        ($tag:literal, $p:tt $q:tt $r:tt; $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr, $occur:literal;)*) => { $(
            case!(v, concat!("occurs/", $tag, "/", $id), {
                type P<S> = tyf!(S; $p);
                type Q<S> = tyf!(S; $q);
                type R<S> = tyf!(S; $r);
                let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
                let node = $node;
                let c = Cx { x: P::<F>::inputs("x"), y: Q::<F>::inputs("y"), w: R::<F>::inputs("w") };
                for e in c.x.flat().into_iter().chain(c.y.flat()).chain(c.w.flat())
                    .chain(P::<F>::inputs("u").flat()).chain(Q::<F>::inputs("u").flat()).chain(R::<F>::inputs("u").flat()) {
                    assume(Fld::lt_(F::lit(0, 1), e));
                }
                macro_rules! ask { ($k:ident) => {
                    check(concat!("contains ", stringify!($k)), Formula::of(node.contains($k) == $occur.split(' ').any(|o| o == stringify!($k))));
                } }
                ask!(X); ask!(Y); ask!(W); ask!(Z); ask!(A); ask!(Alpha); ask!(Lambda);
                let base = node.evaluate(c.clone()).unwrap();
                if !node.contains(X) {
                    check_buf("does not depend on X", &node.evaluate(Cx { x: P::<F>::inputs("u"), ..c.clone() }).unwrap(), &base);
                }
                if !node.contains(Y) {
                    check_buf("does not depend on Y", &node.evaluate(Cx { y: Q::<F>::inputs("u"), ..c.clone() }).unwrap(), &base);
                }
                if !node.contains(W) {
                    check_buf("does not depend on W", &node.evaluate(Cx { w: R::<F>::inputs("u"), ..c.clone() }).unwrap(), &base);
                }
            });
        )* };
    }
    // the same for derivatives
    macro_rules! slopes {
        ($tag:literal, $p:tt $q:tt $r:tt; $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr;)*) => { $(
            case!(v, concat!("derivative/", $tag, "/", $id), {
                type P<S> = tyf!(S; $p);
                type Q<S> = tyf!(S; $q);
                type R<S> = tyf!(S; $r);
                let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
                let node = $node;
                let c = Cx { x: P::<F>::inputs("x"), y: Q::<F>::inputs("y"), w: R::<F>::inputs("w") };
                for e in c.x.flat().into_iter().chain(c.y.flat()).chain(c.w.flat())
                    .chain(P::<F>::inputs("u").flat()).chain(Q::<F>::inputs("u").flat()).chain(R::<F>::inputs("u").flat()) {
                    assume(Fld::lt_(F::lit(0, 1), e));
                }
                macro_rules! by { ($t:ident) => {
                    let a = node.adjoint($t);
                    let base = a.evaluate(c.clone()).unwrap();
                    if !node.contains($t) {
                        check_buf(concat!("by ", stringify!($t), " is zero"), &base, &Bag::of(&base).map(|_| F::lit(0, 1)));
                    }
                    if !node.contains(X) {
                        check_buf(concat!("by ", stringify!($t), " does not depend on X"), &a.evaluate(Cx { x: P::<F>::inputs("u"), ..c.clone() }).unwrap(), &base);
                    }
                    if !node.contains(Y) {
                        check_buf(concat!("by ", stringify!($t), " does not depend on Y"), &a.evaluate(Cx { y: Q::<F>::inputs("u"), ..c.clone() }).unwrap(), &base);
                    }
                    if !node.contains(W) {
                        check_buf(concat!("by ", stringify!($t), " does not depend on W"), &a.evaluate(Cx { w: R::<F>::inputs("u"), ..c.clone() }).unwrap(), &base);
                    }
                    // the derivative mentions nothing beyond the expression and the target
                    macro_rules! only { ($i:ident) => {
                        check(concat!("by ", stringify!($t), " contains ", stringify!($i)),
                            Formula::of(!a.contains($i) || node.contains($i) || stringify!($i) == stringify!($t)));
                    } }
                    only!(X); only!(Y); only!(W); only!(Z); only!(Alpha);
                    if !a.contains(X) {
                        check_buf(concat!("adjoint by ", stringify!($t), " does not mention X"), &a.evaluate(Cx { x: P::<F>::inputs("u"), ..c.clone() }).unwrap(), &base);
                    }
                    if !a.contains(W) {
                        check_buf(concat!("adjoint by ", stringify!($t), " does not mention W"), &a.evaluate(Cx { w: R::<F>::inputs("u"), ..c.clone() }).unwrap(), &base);
                    }
                } }
                by!(X); by!(Y); by!(W);
            });
        )* };
    }
    exprs!("s", [s] [s] [s];
        "x" |x, y, w| x, "X";
        "x+y" |x, y, w| x.add(y), "X Y";
        "y-x" |x, y, w| y.sub(x), "X Y";
        "w*w" |x, y, w| w.mul(w), "W";
        "x/y" |x, y, w| x.div(y), "X Y";
        "x^y" |x, y, w| x.pow(y), "X Y";
        "x^2+w" |x, y, w| x.squared().add(w), "X W";
        "exp(-y)" |x, y, w| Exp(y.neg()), "Y";
        "2" |x, y, w| F::lit(2, 1).into_constant(), "";
        "2*(y+3)" |x, y, w| F::lit(2, 1).into_constant().mul(y.add(F::lit(3, 1).into_constant())), "Y";
        "((x*y)+w)*x" |x, y, w| x.mul(y).add(w).mul(x), "X Y W";
        "x-x" |x, y, w| x.sub(x), "X";
        "sigmoid(w)" |x, y, w| Sigmoid(w), "W";
        "ln(y)*y" |x, y, w| y.ln().mul(y), "Y";
        "x.w" |x, y, w| x.dot(w), "X W";
        "cos(sin(y))" |x, y, w| Cos(Sin(y)), "Y";
        "tanh(w)-w" |x, y, w| Tanh(w).sub(w), "W";
        "gamma(x)" |x, y, w| special::Gamma(x), "X";
    );
    exprs!("3,s,3", [3] [s] [3];
        "x*y" |x, y, w| x.mul(y), "X Y";
        "y*w" |x, y, w| y.mul(w), "Y W";
        "sum(x)" |x, y, w| x.sum(), "X";
        "y*sum(w)" |x, y, w| y.mul(w.sum()), "Y W";
        "x.w" |x, y, w| x.dot(w), "X W";
        "x ⊗ w" |x, y, w| TensorProduct::new(x, w), "X W";
        "w ⊗ w" |x, y, w| TensorProduct::new(w, w), "W";
    );
    exprs!("2x2,2,t", [2 2] [2] [t];
        "y.x" |x, y, w| y.dot(x), "X Y";
        "x-x*x" |x, y, w| x.sub(x.mul(x)), "X";
        "w^2" |x, y, w| w.squared(), "W";
        "w-w*w" |x, y, w| w.sub(w.mul(w)), "W";
    );
    slopes!("s", [s] [s] [s];
        "x" |x, y, w| x;
        "x+y" |x, y, w| x.add(y);
        "y-w" |x, y, w| y.sub(w);
        "w*w" |x, y, w| w.mul(w);
        "x^y" |x, y, w| x.pow(y);
        "exp(-y)" |x, y, w| Exp(y.neg());
        "x^2+w" |x, y, w| x.squared().add(w);
        "2*(y+3)" |x, y, w| F::lit(2, 1).into_constant().mul(y.add(F::lit(3, 1).into_constant()));
        "((x*y)+1)*x" |x, y, w| x.mul(y).add(F::lit(1, 1).into_constant()).mul(x);
        "sigmoid(w)" |x, y, w| Sigmoid(w);
        "ln(y)*y" |x, y, w| y.ln().mul(y);
        "x.w" |x, y, w| x.dot(w);
        "cos(sin(y))" |x, y, w| Cos(Sin(y));
        "exp(sin(w))" |x, y, w| Exp(Sin(w));
        "gamma(x)" |x, y, w| special::Gamma(x);
    );
    slopes!("3,s,3", [3] [s] [3];
        "x" |x, y, w| x;
        "w" |x, y, w| w;
        "x+w" |x, y, w| x.add(w);
    );
    slopes!("2,2,s", [2] [2] [s];
        "x.y" |x, y, w| x.dot(y);
        "y" |x, y, w| y;
    );

    main_with("C16", v);
}
