//! Scalar differentiation: the value of every adjoint expression is the derivative.
//!
//! One operator at a time, with operands that are arbitrary expressions: any value, any adjoint,
//! each in every representation the library may hand over (dense, constant, diagonal).  By
//! induction over the expression tree this covers every expression built from these operators.
//! The oracle evaluates the same node on jets, so the chain rule comes from `symx::jet`.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::S0;
use aegir::buffers::{Buffer, Spec};
use aegir::ids::{X, Y, Z};
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Differentiable, Function, Identifier, Node};
use symx::*;

macro_rules! unary {
    ($v:ident, $($id:literal $op:ident |$x:ident| $dom:expr;)*) => {
        $(case!($v, concat!("unary/", $id), {
            let n = opaque::<F, F>("n");
            let $x = n.v.raw;
            assume($dom);
            let got = $op(n.clone()).adjoint(X);
            let want = ev(&$op(Lf::raw(jet(n.v.raw, n.a.raw)))).d;
            check_buf("d", &ev(&got), &want);
            check_buf("d via spec", &expand(&ev_spec(&got)), &want);
            check_buf("d via evaluate_adjoint", &$op(n.clone()).evaluate_adjoint::<Nil, _>(X, Nil).unwrap(), &want);
        });)*
    };
}

macro_rules! binary {
    ($v:ident, $($id:literal |$l:ident, $r:ident| $node:expr, $dom:expr;)*) => {
        $(case!($v, concat!("binary/", $id), {
            let (a, b) = (opaque::<F, F>("l"), opaque::<F, F>("r"));
            {
                let ($l, $r) = (a.v.raw, b.v.raw);
                assume($dom);
            }
            let want = {
                let ($l, $r) = (Lf::raw(jet(a.v.raw, a.a.raw)), Lf::raw(jet(b.v.raw, b.a.raw)));
                ev(&$node).d
            };
            let ($l, $r) = (a, b);
            let got = $node.adjoint(X);
            check_buf("d", &ev(&got), &want);
            check_buf("d via spec", &expand(&ev_spec(&got)), &want);
        });)*
    };
}

// Whole expressions over variables, differentiated with respect to each of them.
macro_rules! expr {
    ($v:ident, $($id:literal |$x:ident, $y:ident| $node:expr, $dom:expr;)*) => {
        $(case!($v, concat!("expr/", $id), {
            let (vx, vy) = (F::inp("x"), F::inp("y"));
            {
                let ($x, $y) = (vx, vy);
                assume($dom);
            }
            let (z, o) = (F::lit(0, 1), F::lit(1, 1));
            let ($x, $y) = (X.into_var(), Y.into_var());
            let dx = $node.evaluate(ctx!{X = jet(vx, o), Y = jet(vy, z)}).unwrap().d;
            let dy = $node.evaluate(ctx!{X = jet(vx, z), Y = jet(vy, o)}).unwrap().d;
            check_buf("d/dx", &$node.adjoint(X).evaluate(ctx!{X = vx, Y = vy}).unwrap(), &dx);
            check_buf("d/dy", &$node.adjoint(Y).evaluate(ctx!{X = vx, Y = vy}).unwrap(), &dy);
            check_buf("evaluate_adjoint", &$node.evaluate_adjoint(X, ctx!{X = vx, Y = vy}).unwrap(), &dx);
        });)*
    };
}

fn any() -> Formula {
    Formula::True
}
fn pos<F: Fld>(x: F) -> Formula {
    F::lit(0, 1).lt_(x)
}
fn nz<F: Fld>(x: F) -> Formula {
    x.ne_(F::lit(0, 1))
}

fn main() {
    let mut v = vec![];

    unary!(v,
        "sub_one" SubOne |_x| any();
        "one_sub" OneSub |_x| any();
        "add_one" AddOne |_x| any();
        "square" Square |_x| any();
        "double" Double |_x| any();
        "sum" Sum |_x| any();
        "negate" Negate |_x| any();
        "sign" Sign |x| nz(x);
        "abs" Abs |x| nz(x);
        "ln" Ln |x| pos(x);
        "xlnx" XLnX |x| pos(x);
        "exp" Exp |_x| any();
        "rabbit" Rabbit |_x| any();
        "sigmoid" Sigmoid |_x| any();
        "cos" Cos |_x| any();
        "sin" Sin |_x| any();
        "gamma" Gamma |x| pos(x);
        "loggamma" LogGamma |x| pos(x);
    );
    case!(v, "unary/factorial", {
        let n = opaque::<F, F>("n");
        assume(pos(n.v.raw));
        let got = Factorial::factorial(n.clone()).adjoint(X);
        let want = ev(&Factorial::factorial(Lf::raw(jet(n.v.raw, n.a.raw)))).d;
        check_buf("d", &ev(&got), &want);
    });

    binary!(v,
        "add" |l, r| Add(l, r), any();
        "sub" |l, r| Sub(l, r), any();
        "mul" |l, r| Mul(l, r), any();
        "div" |l, r| Div(l, r), nz(r);
        "pow" |l, r| Power(l, r), pos(l);
        "dot" |l, r| TensorDot::new(l, r), any();
        "outer" |l, r| TensorProduct::new(l, r), any();
        "add method" |l, r| l.add(r), any();
        "sub method" |l, r| l.sub(r), any();
        "mul method" |l, r| l.mul(r), any();
        "div method" |l, r| l.div(r), nz(r);
        "pow method" |l, r| l.pow(r), pos(l);
        "dot method" |l, r| l.dot(r), any();
    );

    // Constant exponents: the base may have any sign.
    macro_rules! powers {
        ($($id:literal $e:expr, |$x:ident| $dom:expr;)*) => {
            $(case!(v, concat!("power/", $id), {
                let n = opaque::<F, F>("n");
                let $x = n.v.raw;
                assume($dom);
                let e = F::lit($e, 1);
                let zero = F::lit(0, 1);
                for (k, spec) in [Spec::Raw(e), Spec::Full(S0, e), Spec::Diagonal(S0, e)].into_iter().enumerate() {
                    for (j, dspec) in [Spec::Raw(zero), Spec::Full(S0, zero)].into_iter().enumerate() {
                        let ex = Opq { v: Lf { raw: e, spec: spec.clone() }, a: Lf { raw: zero, spec: dspec } };
                        let got = ev(&Power(n.clone(), ex.clone()).adjoint(X));
                        let want = ev(&Power(Lf::raw(jet(n.v.raw, n.a.raw)), Lf::raw(jet(e, zero)))).d;
                        check_buf(&format!("d {} {}", k, j), &got, &want);
                    }
                }
            });)*
        };
    }
    powers!(
        "3" 3, |_x| any();
        "2" 2, |_x| any();
        "1" 1, |x| nz(x);
        "0" 0, |x| nz(x);
        "-1" -1, |x| nz(x);
        "-2" -2, |x| nz(x);
    );

    // Sources.
    case!(v, "source/variable", {
        let (x, y, z) = (F::inp("x"), F::inp("y"), F::inp("z"));
        let one = F::lit(1, 1);
        let zero = F::lit(0, 1);
        check_buf("dx/dx", &X.into_var().adjoint(X).evaluate(ctx!{X = x, Y = y, Z = z}).unwrap(), &one);
        check_buf("dx/dy", &X.into_var().adjoint(Y).evaluate(ctx!{X = x, Y = y, Z = z}).unwrap(), &zero);
        check_buf("dx/dz", &X.into_var().adjoint(Z).evaluate(ctx!{X = x, Y = y, Z = z}).unwrap(), &zero);
        check_buf("dy/dy", &Y.into_var().adjoint(Y).evaluate(ctx!{X = x, Y = y, Z = z}).unwrap(), &one);
        check_buf("dy/dx", &Y.into_var().adjoint(X).evaluate(ctx!{X = x, Y = y, Z = z}).unwrap(), &zero);
        check_buf("dz/dx", &Z.into_var().adjoint(X).evaluate(ctx!{X = x, Y = y, Z = z}).unwrap(), &zero);
        check_buf("dz/dz", &Z.into_var().adjoint(Z).evaluate(ctx!{X = x, Y = y, Z = z}).unwrap(), &one);
    });
    idents::cases(&mut v);
    case!(v, "source/constant", {
        let (x, y, k) = (F::inp("x"), F::inp("y"), F::inp("k"));
        let zero = F::lit(0, 1);
        check_buf("dk/dx", &k.into_constant().adjoint(X).evaluate(ctx!{X = x, Y = y}).unwrap(), &zero);
        check_buf("dk/dy", &k.into_constant().adjoint(Y).evaluate(ctx!{X = x, Y = y}).unwrap(), &zero);
        check_buf("second", &X.into_var().adjoint(X).adjoint(X).evaluate(ctx!{X = x, Y = y}).unwrap(), &zero);
        check_buf("second", &X.into_var().adjoint(X).adjoint(Y).evaluate(ctx!{X = x, Y = y}).unwrap(), &zero);
        check_buf("second", &X.into_var().adjoint(Y).adjoint(X).evaluate(ctx!{X = x, Y = y}).unwrap(), &zero);
    });

    expr!(v,
        "x*y+x" |x, y| x.mul(y).add(x), any();
        "x-y*y" |x, y| x.sub(y.mul(y)), any();
        "(x-y)*(y-x)" |x, y| x.sub(y).mul(y.sub(x)), any();
        "x/y" |x, y| x.div(y), nz(y);
        "(x+y)/(x-y)" |x, y| x.add(y).div(x.sub(y)), x.ne_(y);
        "1/(x*x)" |x, y| AddOne(y).div(x.mul(x)), nz(x);
        "sigmoid(x*y)" |x, y| x.mul(y).sigmoid(), any();
        "sigmoid(sigmoid(x)+y)" |x, y| x.sigmoid().add(y).sigmoid(), any();
        "exp(-x^2)" |x, y| Exp(x.squared().neg()).mul(y), any();
        "exp(exp(x*y))" |x, y| Exp(Exp(x.mul(y))), any();
        "ln(x^2+1)*y" |x, y| AddOne(x.squared()).ln().mul(y), any();
        "x*ln x" |x, y| XLnX(x).add(y), pos(x);
        "x ln(x/y)" |x, y| x.mul(x.div(y).ln()), Formula::and(vec![pos(x), pos(y)]);
        "x^y" |x, y| x.pow(y), pos(x);
        "y^x^..." |x, y| y.pow(x.add(y)), pos(y);
        "x^(x*y)" |x, y| x.pow(x.mul(y)), pos(x);
        "(x*y)^(x+y)" |x, y| x.mul(y).pow(x.add(y)), pos(x * y);
        "sin(x)cos(y)" |x, y| Sin(x).mul(Cos(y)), any();
        "sin(cos(x*y))" |x, y| Sin(Cos(x.mul(y))), any();
        "|x*y|" |x, y| x.mul(y).abs(), nz(x * y);
        "sgn(x)*y" |x, y| Sign(x).mul(y), nz(x);
        "|x|-|y|" |x, y| x.abs().sub(y.abs()), Formula::and(vec![nz(x), nz(y)]);
        "gamma(x)*y" |x, y| Gamma(x).mul(y), pos(x);
        "lngamma(x*y)" |x, y| LogGamma(x.mul(y)), pos(x * y);
        "rabbit(x+y)" |x, y| Rabbit(x.add(y)), any();
        "1-2x+y" |x, y| OneSub(Double(x)).add(y), any();
        "(x-1)(y+1)" |x, y| SubOne(x).mul(AddOne(y)), any();
        "((x^2)^2-y)^2" |x, y| x.squared().squared().sub(y).squared(), any();
        "sum(x*y)" |x, y| x.mul(y).sum(), any();
        "x.dot(y).dot(x)" |x, y| x.dot(y).dot(x), any();
        "-(x.y)+x" |x, y| x.dot(y).neg().add(x), any();
        "x⊗y⊗y" |x, y| TensorProduct::new(TensorProduct::new(x, y), y), any();
    );
    main_with("C01", v);
}

/// Every identifier the library ships, against its neighbour.
mod idents {
    use aegir::ids::*;
    use aegir::{Differentiable, Function, Identifier};
    use symx::*;

    macro_rules! pairs {
        ($v:ident; $($i:ident $j:ident,)*) => {
            case!($v, "source/identifiers", {
                let (a, b) = (F::inp("a"), F::inp("b"));
                $({
                    #[derive(Context)]
                    struct P_<Sc> {
                        #[id($i)]
                        a: Sc,
                        #[id($j)]
                        b: Sc,
                    }
                    let p = || P_ { a, b };
                    check_buf(stringify!($i), &$i.into_var().evaluate(p()).unwrap(), &a);
                    check_buf(stringify!($j), &$j.into_var().evaluate(p()).unwrap(), &b);
                    check_buf(stringify!($i), &$i.into_var().adjoint($i).evaluate(p()).unwrap(), &F::lit(1, 1));
                    check_buf(stringify!($i $j), &$i.into_var().adjoint($j).evaluate(p()).unwrap(), &F::lit(0, 1));
                    check_buf(stringify!($j $i), &$j.into_var().adjoint($i).evaluate(p()).unwrap(), &F::lit(0, 1));
                })*
            });
        };
    }

    pub fn cases(v: &mut Vec<Case>) {
        pairs!(v;
            A B, B C, C D, D E, E A, G H, H I, I K, K L, L M, M N, N O, O Q, Q R, R S, S T, T U, U V,
            V W, W X, X Y, Y Z, Z A, Alpha Beta, Beta Gamma, Gamma Delta, Delta Epsilon, Epsilon Zeta,
            Zeta Eta, Eta Theta, Theta Iota, Iota Kappa, Kappa Lambda, Lambda Mu, Mu Nu, Nu Xi,
            Xi Omicron, Omicron Pi, Pi Rho, Rho Sigma, Sigma Tau, Tau Upsilon, Upsilon Phi, Phi Chi,
            Chi Psi, Psi Omega, Omega Alpha,
        );
    }
}
