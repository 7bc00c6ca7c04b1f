//! Printed text denotes the function that is evaluated.
//!
//! One operator at a time over arbitrary sub-expressions: an operand is anything that prints as
//! zero, as one, as a text that needs no brackets, or as a text that does.  What the operator prints
//! is read back (`symx::text`) and compared with what it evaluates to; a text that claims to need no
//! brackets must be a single operand.  By induction this covers every expression built from these
//! operators.  Then whole expressions and adjoints, and the identifiers.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::{ShapeOf, S0};
use aegir::buffers::Buffer;
use aegir::errors::NoError;
use aegir::fmt::{Expr, PreWrap, ToExpr};
use aegir::ids::{X, Y};
use aegir::meta::*;
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Context, Differentiable, Function, Identifier, Node};
use symx::text::{is_atom, read};
use symx::*;

/// A sub-expression known by its text and its value.
#[derive(Clone, Copy)]
struct P<F> {
    text: &'static str,
    wrap: bool,
    val: F,
}
impl<F> Node for P<F> {}
impl<F: Fld, C: Context> Function<C> for P<F> {
    type Value = F;
    type Error = NoError;

    fn evaluate<CR: AsMut<C>>(&self, _: CR) -> Result<F, NoError> {
        Ok(self.val)
    }
    fn evaluate_shape<CR: AsMut<C>>(&self, _: CR) -> Result<S0, NoError> {
        Ok(S0)
    }
}
impl<F> ToExpr for P<F> {
    fn to_expr(&self) -> Expr {
        match self.text {
            "0" => Expr::Zero,
            "1" => Expr::One,
            t => Expr::Text(PreWrap { text: t.to_string(), needs_wrap: self.wrap }),
        }
    }
}
impl<F> std::fmt::Display for P<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.text)
    }
}

/// Kinds 0..4 are numbers.
const KINDS: [(&str, &str, bool); 15] = [
    ("0", "0", false), ("1", "1", false), ("3", "3", false), ("-2", "-2", true),
    ("p", "q", false), ("cos(p)", "cos(q)", false), ("|p|", "|q|", false), ("⟨p, u⟩", "⟨q, v⟩", false),
    ("p + u", "q + v", true), ("p - u", "q - v", true), ("-p", "-q", true), ("p ∘ u", "q ∘ v", true),
    ("p / u", "q / v", true), ("p^u", "q^v", true), ("𝑒^p", "𝑒^q", true),
];
const NUMBERS: [i128; 4] = [0, 1, 3, -2];

fn operand<F: Fld>(kind: usize, right: bool, p: F, u: F) -> P<F> {
    let (l, r, wrap) = KINDS[kind];
    let val = match kind {
        0..=3 => F::lit(NUMBERS[kind], 1),
        4 => p,
        5 => p.cos(),
        6 => p.abs(),
        7 => p * u,
        8 => p + u,
        9 => p - u,
        10 => -p,
        11 => p * u,
        12 => p / u,
        13 => num_traits::Pow::pow(p, u),
        _ => p.exp(),
    };
    P { text: if right { r } else { l }, wrap, val }
}

/// What was printed against what was evaluated.
fn judge<F: Fld>(what: &str, text: &str, want: F, vars: &dyn Fn(&str) -> Option<F>) {
    match read::<F>(text, vars) {
        Ok(got) => F::check_eq(&format!("{} reads as the value", what), got, want),
        Err(e) => {
            if !native() {
                eprintln!("unreadable: {:?}: {}", text, e);
            }
            check(&format!("{} can be read", what), Formula::False)
        },
    }
}

fn judge_expr<F: Fld>(e: Expr, want: F, vars: &dyn Fn(&str) -> Option<F>) {
    match e {
        Expr::Zero => F::check_eq("zero is zero", F::lit(0, 1), want),
        Expr::One => F::check_eq("one is one", F::lit(1, 1), want),
        Expr::Text(pw) => {
            judge("text", &pw.text, want, vars);
            if !pw.needs_wrap {
                check("text without brackets is one operand", Formula::of(is_atom::<F>(&pw.text, vars)));
            }
        },
    }
}

/// The same on plain numbers, where limits such as ln 0 may be printed.
fn judge_number(text: &str, want: f64, what: &str) {
    let ok = match read::<f64>(text, &|_| None) {
        Ok(got) => {
            (got.is_nan() && want.is_nan())
                || got == want
                || (got - want).abs() <= 1e-9 * (1.0 + want.abs())
        },
        Err(_) => false,
    };
    check(what, Formula::of(ok));
}

fn number_expr(e: Expr, want: f64) {
    match e {
        Expr::Zero => check("zero is zero", Formula::of(want == 0.0)),
        Expr::One => check("one is one", Formula::of(want == 1.0)),
        Expr::Text(pw) => {
            judge_number(&pw.text, want, "number");
            if !pw.needs_wrap {
                check("text without brackets is one operand", Formula::of(is_atom::<f64>(&pw.text, &|_| None)));
            }
        },
    }
}

macro_rules! judge_node {
    ($F:ident, $node:expr, $vars:expr) => {{
        let node = $node;
        let want: $F = node.evaluate::<Nil>(Nil).unwrap();
        judge_expr(node.to_expr(), want, $vars);
        judge("display", &node.to_string(), want, $vars);
    }};
}

macro_rules! number_node {
    ($node:expr) => {{
        let node = $node;
        let want: f64 = node.evaluate::<Nil>(Nil).unwrap();
        number_expr(node.to_expr(), want);
        judge_number(&node.to_string(), want, "number displayed");
    }};
}

macro_rules! unary {
    ($v:ident, $($id:literal |$n:ident| $node:expr, $dom:expr $(, except $($skip:literal)+)?;)*) => {
        $(case!($v, concat!("unary/", $id), {
            let k = pick("kind", 15);
            let skip: &[i128] = &[$($($skip),+)?];
            if k < 4 {
                let $n = operand::<f64>(k, false, 0.0, 0.0);
                // Poles and numbers outside the operator's domain.
                if !skip.contains(&NUMBERS[k]) {
                    number_node!($node);
                }
            } else {
                let (p, u) = (F::inp("p"), F::inp("u"));
                assume(F::lit(0, 1).lt_(u).also(if k == 13 { F::lit(0, 1).lt_(p) } else { Formula::True }));
                let $n = operand::<F>(k, false, p, u);
                assume($dom);
                let vars = move |s: &str| match s { "p" => Some(p), "u" => Some(u), _ => None };
                judge_node!(F, $node, &vars);
            }
        });)*
    };
}

macro_rules! binary {
    ($v:ident, $($id:literal |$l:ident, $r:ident| $node:expr, $dom:expr, $num:expr;)*) => {
        $(case!($v, concat!("binary/", $id), {
            let i = pick("left", 15);
            let j = pick("right", 15);
            let num: fn(usize, usize) -> bool = $num;
            if i < 4 && j < 4 {
                let ($l, $r) = (operand::<f64>(i, false, 0.0, 0.0), operand::<f64>(j, true, 0.0, 0.0));
                if num(i, j) {
                    number_node!($node);
                }
            } else if num(i, j) {
                let (p, u, q, w) = (F::inp("p"), F::inp("u"), F::inp("q"), F::inp("v"));
                let z = F::lit(0, 1);
                assume(z.lt_(u).also(z.lt_(w))
                    .also(if i == 13 { z.lt_(p) } else { Formula::True })
                    .also(if j == 13 { z.lt_(q) } else { Formula::True }));
                let ($l, $r) = (operand::<F>(i, false, p, u), operand::<F>(j, true, q, w));
                assume($dom);
                let vars = move |s: &str| match s { "p" => Some(p), "u" => Some(u), "q" => Some(q), "v" => Some(w), _ => None };
                judge_node!(F, $node, &vars);
            }
        });)*
    };
}

// Products of arrays do not commute: the operands must be printed in their order.
macro_rules! ordered {
    ($v:ident, $($id:literal |$l:ident, $r:ident| $node:expr;)*) => {
        $(case!($v, concat!("order/", $id), {
            let (i, j) = (4 + pick("left", 11), 4 + pick("right", 11));
            let ($l, $r) = (operand::<F>(i, false, F::inp("p"), F::inp("u")), operand::<F>(j, true, F::inp("q"), F::inp("v")));
            for text in [$node.to_expr().to_string(), $node.to_string()] {
                let sites = (text.find(KINDS[i].0), text.find(KINDS[j].1));
                check("left operand first", Formula::of(matches!(sites, (Some(a), Some(b)) if a < b)));
            }
        });)*
    };
}

/// Whole expressions and their adjoints; numbers are written with `$k(numerator, denominator)`.
macro_rules! whole {
    ($v:ident, $($id:literal |$x:ident, $y:ident, $k:ident| $node:expr, $dom:expr;)*) => {
        $(case!($v, concat!("whole/", $id), {
            let (vx, vy) = (F::inp("x"), F::inp("y"));
            {
                let ($x, $y) = (vx, vy);
                assume($dom);
            }
            let vars = move |s: &str| match s { "x" => Some(vx), "y" => Some(vy), _ => None };
            let ($x, $y) = (X.into_var(), Y.into_var());
            let printed = {
                let $k = |n: i128, d: i128| (n as f64 / d as f64).into_constant();
                let node = $node;
                (node.to_expr(), node.to_string(), node.adjoint(X).to_expr(), node.adjoint(X).to_string(),
                    node.adjoint(Y).to_expr(), node.adjoint(Y).to_string())
            };
            let $k = |n: i128, d: i128| F::lit(n, d).into_constant();
            let node = $node;
            let want: F = node.evaluate(ctx!{X = vx, Y = vy}).unwrap();
            let dx: F = node.adjoint(X).evaluate(ctx!{X = vx, Y = vy}).unwrap();
            let dy: F = node.adjoint(Y).evaluate(ctx!{X = vx, Y = vy}).unwrap();
            judge_expr(printed.0, want, &vars);
            judge("display", &printed.1, want, &vars);
            judge_expr(printed.2, dx, &vars);
            judge("display of d/dx", &printed.3, dx, &vars);
            judge_expr(printed.4, dy, &vars);
            judge("display of d/dy", &printed.5, dy, &vars);
        });)*
    };
}

trait Also {
    fn also(self, o: Formula) -> Formula;
}
impl Also for Formula {
    fn also(self, o: Formula) -> Formula {
        Formula::and(vec![self, o])
    }
}
fn any() -> Formula {
    Formula::True
}
fn pos<F: Fld>(x: F) -> Formula {
    F::lit(0, 1).lt_(x)
}
fn inside<F: Fld>(x: F) -> Formula {
    F::lit(-1, 1).lt_(x).also(x.lt_(F::lit(1, 1)))
}

macro_rules! names {
    ($($id:ident $sym:literal),* $(,)?) => {
        vec![$((stringify!($id), $sym, aegir::ids::$id.to_string(), aegir::ids::$id.into_var().to_string(),
            aegir::ids::$id.into_var().to_expr().to_string())),*]
    };
}

mod mine {
    ids!(Left::"l", Right::r, Up::"ψ₀", Slow::alpha_2);
}

fn main() {
    let mut v: Vec<Case> = Vec::new();

    unary! { v,
        "sub_one" |n| SubOne(n), any();
        "one_sub" |n| OneSub(n), any();
        "add_one" |n| AddOne(n), any();
        "square" |n| Square(n), any();
        "double" |n| Double(n), any();
        "negate" |n| Negate(n), any();
        "dirac" |n| Dirac(n), any();
        "sign" |n| Sign(n), any();
        "abs" |n| Abs(n), any();
        "ln" |n| Ln(n), pos(n.val);
        "xlnx" |n| XLnX(n), pos(n.val), except -2;
        "exp" |n| Exp(n), any();
        "sigmoid" |n| Sigmoid(n), any();
        "rabbit" |n| Rabbit(n), any();
        "cos" |n| Cos(n), any();
        "sin" |n| Sin(n), any();
        "tan" |n| Tan(n), any();
        "acos" |n| ArcCos(n), inside(n.val);
        "asin" |n| ArcSin(n), inside(n.val);
        "atan" |n| ArcTan(n), any();
        "cosh" |n| Cosh(n), any();
        "sinh" |n| Sinh(n), any();
        "tanh" |n| Tanh(n), any();
        "acosh" |n| ArcCosh(n), F::lit(1, 1).lt_(n.val);
        "asinh" |n| ArcSinh(n), any();
        "atanh" |n| ArcTanh(n), inside(n.val);
        "gamma" |n| Gamma(n), pos(n.val), except 0 -2;
        "digamma" |n| DiGamma(n), pos(n.val), except 0 -2;
        "loggamma" |n| LogGamma(n), pos(n.val), except -2;
        "erf" |n| Erf(n), any();
        "erfc" |n| Erfc::erfc(n), any();
        "factorial" |n| Factorial::factorial(n), pos(n.val), except -2;
    }
    case!(v, "unary/sum", {
        let (k, p, u) = (pick("kind", 15), F::inp("p"), F::inp("u"));
        assume(pos(u).also(if k == 13 { pos(p) } else { any() }));
        let n = operand::<F>(k, false, p, u);
        let vars = move |s: &str| match s { "p" => Some(p), "u" => Some(u), _ => None };
        judge("display", &Sum(n).to_string(), Sum(n).evaluate::<Nil>(Nil).unwrap(), &vars);
    });

    binary! { v,
        "add" |l, r| Add(l, r), any(), |_, _| true;
        "sub" |l, r| Sub(l, r), any(), |_, _| true;
        "mul" |l, r| Mul(l, r), any(), |_, _| true;
        // Division by what is known to be zero prints as a pole.
        "div" |l, r| Div(l, r), r.val.ne_(F::lit(0, 1)), |_, j| j != 0;
        // Powers of positive numbers; 0^k for numbers k > 0.
        "power" |l, r| Power(l, r), if l.text == "0" { pos(r.val) } else { pos(l.val) },
            |i, j| i != 3 && (i != 0 || j != 3);
        "product" |l, r| TensorProduct::new(l, r), any(), |_, _| true;
        "dot" |l, r| TensorDot::new(l, r), any(), |_, _| true;
    }
    // No contraction of two axes is implemented: the printed form still names both operands.
    case!(v, "binary/double_dot", {
        let (i, j) = (pick("left", 15), pick("right", 15));
        let (p, u, q, w) = (F::inp("p"), F::inp("u"), F::inp("q"), F::inp("v"));
        assume(pos(u).also(pos(w)).also(if i == 13 { pos(p) } else { any() }).also(if j == 13 { pos(q) } else { any() }));
        let (l, r) = (operand::<F>(i, false, p, u), operand::<F>(j, true, q, w));
        let vars = move |s: &str| match s { "p" => Some(p), "u" => Some(u), "q" => Some(q), "v" => Some(w), _ => None };
        let node = TensorDoubleDot::new(l, r);
        judge_expr(node.to_expr(), l.val * r.val, &vars);
        judge("display", &node.to_string(), l.val * r.val, &vars);
    });
    ordered! { v,
        "product" |l, r| TensorProduct::new(l, r);
        "dot" |l, r| TensorDot::new(l, r);
        "double_dot" |l, r| TensorDoubleDot::new(l, r);
    }

    // What a variable, its derivative and a constant print.
    case!(v, "leaf/variable", {
        let (a, b) = (F::inp("x"), F::inp("y"));
        let vars = move |s: &str| match s { "x" => Some(a), "y" => Some(b), _ => None };
        judge_expr(X.into_var().to_expr(), X.into_var().evaluate(ctx!{X = a, Y = b}).unwrap(), &vars);
        judge_expr(Y.into_var().to_expr(), Y.into_var().evaluate(ctx!{X = a, Y = b}).unwrap(), &vars);
        judge("display", &Y.into_var().to_string(), b, &vars);
    });
    case!(v, "leaf/variable_adjoint", {
        let (a, b) = (F::inp("x"), F::inp("y"));
        macro_rules! t {
            ($n:expr) => {{
                let n = $n;
                let want: F = n.evaluate(ctx!{X = a, Y = b}).unwrap();
                judge_expr(n.to_expr(), want, &|_| None);
                judge("display", &n.to_string(), want, &|_| None);
            }};
        }
        t!(X.into_var().adjoint(X));
        t!(X.into_var().adjoint(Y));
        t!(Y.into_var().adjoint(X));
        t!(Y.into_var().adjoint(Y));
        t!(X.into_var().adjoint(X).adjoint(X));
        t!(X.into_var().adjoint(Y).adjoint(X));
        t!(F::inp("c").into_constant().adjoint(X));
        t!(ConstantAdjoint { node: X.into_var(), target: Y });
    });
    case!(v, "leaf/constant", {
        for c in [0.0f64, -0.0, 1.0, -1.0, 2.0, 0.5, -0.25, 10.0, -3.75, 1024.0, 0.001, 123456.789, -1e-3, 7.0] {
            number_expr(c.into_constant().to_expr(), c);
            judge_number(&c.into_constant().to_string(), c, "constant displayed");
        }
        for c in [0i64, 1, -1, 2, 17, -40, 1000000] {
            number_expr(c.into_constant().to_expr(), c as f64);
            judge_number(&c.into_constant().to_string(), c as f64, "constant displayed");
        }
    });

    whole! { v,
        "polynomial" |x, y, k| x.mul(x).add(k(3, 1).mul(x)).sub(k(5, 1)), any();
        "nested_sub" |x, y, k| x.sub(y.sub(x.sub(k(1, 2)))), any();
        "sub_chain" |x, y, k| x.sub(y).sub(x).sub(k(4, 1)), any();
        "add_of_sub" |x, y, k| x.add(y.sub(x)).add(y), any();
        "negated_sum" |x, y, k| Negate(x.add(y)).sub(Negate(y)), any();
        "negative_constants" |x, y, k| x.sub(k(-3, 1)).add(k(-1, 4)).mul(k(-2, 1)), any();
        "products" |x, y, k| x.add(y).mul(x.sub(y)), any();
        "product_of_products" |x, y, k| x.mul(y.mul(x)).mul(k(2, 1).mul(y)), any();
        "quotient" |x, y, k| Div(x, y), pos(y);
        "quotient_chain" |x, y, k| Div(Div(x, y), x), pos(y).also(pos(x));
        "quotient_nested" |x, y, k| Div(x, Div(y, x)), pos(y).also(pos(x));
        "quotient_of_product" |x, y, k| Div(x.mul(y), y.add(k(1, 1))), pos(y);
        "product_of_quotient" |x, y, k| x.mul(Div(k(1, 1), y)), pos(y);
        "one_over" |x, y, k| Div(k(1, 1), AddOne(Square(x))), any();
        "square" |x, y, k| Square(x.add(y)), any();
        "square_of_square" |x, y, k| Square(Square(x)), any();
        "square_of_negation" |x, y, k| Square(Negate(x)), any();
        "negated_square" |x, y, k| Negate(Square(x)), any();
        "double" |x, y, k| Double(x.add(y)).mul(y), any();
        "power" |x, y, k| Power(x, y), pos(x);
        "power_const" |x, y, k| Power(x, k(3, 1)), pos(x);
        "power_negative" |x, y, k| Power(x, k(-2, 1)), pos(x);
        "power_right" |x, y, k| Power(x, Power(y, k(2, 1))), pos(x).also(pos(y));
        "power_left" |x, y, k| Power(Power(x, k(2, 1)), y), pos(x);
        "power_of_sum" |x, y, k| Power(x.add(k(1, 1)), y.sub(k(1, 1))), pos(x);
        "sum_of_powers" |x, y, k| Power(x, y).add(Power(y, x)), pos(x).also(pos(y));
        "exp" |x, y, k| Exp(x), any();
        "exp_sum" |x, y, k| Exp(x.add(y)), any();
        "exp_negative" |x, y, k| Exp(Negate(Square(x))), any();
        "exp_exp" |x, y, k| Exp(Exp(x)), any();
        "exp_power" |x, y, k| Power(Exp(x), y), any();
        "ln" |x, y, k| Ln(x.mul(y)), pos(x).also(pos(y));
        "xlnx" |x, y, k| XLnX(x.add(y)), pos(x).also(pos(y));
        "entropy" |x, y, k| Negate(XLnX(x).add(XLnX(OneSub(x)))), pos(x).also(x.lt_(F::lit(1, 1)));
        "rabbit" |x, y, k| Rabbit(x.mul(y)), any();
        "rabbit_of_sub" |x, y, k| Rabbit(x.sub(y)), any();
        "sigmoid" |x, y, k| Sigmoid(x.mul(y)), any();
        "logistic_loss" |x, y, k| Negate(Ln(Sigmoid(x.mul(y)))), any();
        "sin" |x, y, k| Sin(x).mul(Cos(y)), any();
        "sin_of_cos" |x, y, k| Sin(Cos(x.sub(y))), any();
        "cos_double" |x, y, k| Cos(Double(x)).sub(OneSub(Square(Sin(x)))), any();
        "one_sub_chain" |x, y, k| OneSub(OneSub(x.add(y))), any();
        "add_one_chain" |x, y, k| AddOne(SubOne(AddOne(x))), any();
        "sub_one_product" |x, y, k| SubOne(x).mul(AddOne(y)), any();
        "abs" |x, y, k| Abs(x.sub(y)), pos(x).also(y.lt_(F::lit(0, 1)));
        "abs_abs" |x, y, k| Abs(Abs(x).sub(Abs(y))), pos(x).also(y.lt_(F::lit(0, 1))).also((x+y).ne_(F::lit(0, 1)));
        "gamma" |x, y, k| Gamma(x.add(y)), pos(x).also(pos(y));
        "loggamma" |x, y, k| LogGamma(x).sub(LogGamma(y)), pos(x).also(pos(y));
        "constant_folding" |x, y, k| k(2, 1).mul(k(3, 1)).add(x), any();
        "dots" |x, y, k| TensorDot::new(x, y).mul(TensorProduct::new(x, y.add(x))), any();
        "dot_of_dots" |x, y, k| TensorDot::new(TensorDot::new(x, y), x.sub(y)), any();
    }

    case!(v, "names", {
        let all = names!(
            A "a", B "b", C "c", D "d", E "e", F "f", G "g", H "h", I "i", J "j", K "k", L "l", M "m", N "n",
            O "o", P "p", Q "q", R "r", S "s", T "t", U "u", V "v", W "w", X "x", Y "y", Z "z",
            Alpha "α", Beta "β", Gamma "γ", Delta "δ", Epsilon "ε", Zeta "ζ", Eta "η", Theta "θ", Iota "ι",
            Kappa "κ", Lambda "λ", Mu "μ", Nu "ν", Xi "ξ", Omicron "ο", Pi "π", Rho "ρ", Sigma "σ", Tau "τ",
            Upsilon "υ", Phi "φ", Chi "χ", Psi "ψ", Omega "ω",
        );
        let i = pick("which", all.len());
        let (name, symbol, id, var, expr) = &all[i];
        check("prints its symbol", Formula::of(id == symbol));
        check("the variable prints the same", Formula::of(var == symbol && expr == symbol));
        check("no other identifier prints it", Formula::of(all.iter().filter(|o| o.2 == *id).count() == 1));
    });
    case!(v, "names/user", {
        use mine::*;
        check("string", Formula::of(Left.to_string() == "l" && Up.to_string() == "ψ₀"));
        check("word", Formula::of(Right.to_string() == "r" && Slow.to_string() == "alpha_2"));
        check("in expressions", Formula::of(Left.into_var().mul(Right.into_var()).to_string() == "l ∘ r"));
    });
    main_with("C18", v);
}
