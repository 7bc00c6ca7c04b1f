//! Formulas over terms, their SMT-LIB2 encoding, and the solver processes.
use crate::term::{self, Fun, Id, Mode, T};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Formula {
    True,
    False,
    Lt(Id, Id),
    Le(Id, Id),
    Eq(Id, Id),
    Nan(Id),
    Infinite(Id),
    Bool(String),
    Not(Box<Formula>),
    And(Vec<Formula>),
    Or(Vec<Formula>),
}

use Formula::*;

impl Formula {
    pub fn of(b: bool) -> Formula {
        if b {
            True
        } else {
            False
        }
    }

    pub fn not(self) -> Formula {
        match self {
            True => False,
            False => True,
            Not(f) => *f,
            f => Not(Box::new(f)),
        }
    }

    /// Truth on concrete inputs, with the native functions.
    pub fn holds(&self, env: &HashMap<String, f64>, ben: &HashMap<String, bool>) -> bool {
        let v = |i: &Id| term::eval(*i, env);

        match self {
            True => true,
            False => false,
            Lt(a, b) => v(a) < v(b),
            Le(a, b) => v(a) <= v(b),
            Eq(a, b) => v(a) == v(b),
            Nan(a) => v(a).is_nan(),
            Infinite(a) => v(a).is_infinite(),
            Bool(n) => ben.get(n).copied().unwrap_or(false),
            Not(f) => !f.holds(env, ben),
            And(w) => w.iter().all(|f| f.holds(env, ben)),
            Or(w) => w.iter().any(|f| f.holds(env, ben)),
        }
    }

    pub fn and(v: Vec<Formula>) -> Formula {
        let mut out = vec![];

        for f in v {
            match f {
                True => {},
                False => return False,
                And(w) => out.extend(w),
                f => out.push(f),
            }
        }

        match out.len() {
            0 => True,
            1 => out.pop().unwrap(),
            _ => And(out),
        }
    }

    pub fn or(v: Vec<Formula>) -> Formula {
        let mut out = vec![];

        for f in v {
            match f {
                False => {},
                True => return True,
                Or(w) => out.extend(w),
                f => out.push(f),
            }
        }

        match out.len() {
            0 => False,
            1 => out.pop().unwrap(),
            _ => Or(out),
        }
    }

    pub fn ids(&self, out: &mut BTreeSet<Id>) {
        match self {
            Lt(a, b) | Le(a, b) | Eq(a, b) => {
                out.insert(*a);
                out.insert(*b);
            },
            Nan(a) | Infinite(a) => {
                out.insert(*a);
            },
            Not(f) => f.ids(out),
            And(v) | Or(v) => v.iter().for_each(|f| f.ids(out)),
            _ => {},
        }
    }

    fn bools(&self, out: &mut BTreeSet<String>) {
        match self {
            Bool(s) => {
                out.insert(s.clone());
            },
            Not(f) => f.bools(out),
            And(v) | Or(v) => v.iter().for_each(|f| f.bools(out)),
            _ => {},
        }
    }

    fn print(&self, m: Mode, o: &mut String) {
        match self {
            True => o.push_str("true"),
            False => o.push_str("false"),
            Lt(a, b) => {
                let _ = write!(o, "({} t{} t{})", if m == Mode::Fp { "fp.lt" } else { "<" }, a, b);
            },
            Le(a, b) => {
                let _ = write!(o, "({} t{} t{})", if m == Mode::Fp { "fp.leq" } else { "<=" }, a, b);
            },
            Eq(a, b) => {
                let _ = write!(o, "({} t{} t{})", if m == Mode::Fp { "fp.eq" } else { "=" }, a, b);
            },
            Nan(a) => {
                if m == Mode::Fp {
                    let _ = write!(o, "(fp.isNaN t{})", a);
                } else {
                    o.push_str("false")
                }
            },
            Infinite(a) => {
                if m == Mode::Fp {
                    let _ = write!(o, "(fp.isInfinite t{})", a);
                } else {
                    o.push_str("false")
                }
            },
            Bool(s) => {
                let _ = write!(o, "b_{}", s);
            },
            Not(f) => {
                o.push_str("(not ");
                f.print(m, o);
                o.push(')');
            },
            And(v) | Or(v) => {
                o.push_str(if matches!(self, And(_)) { "(and" } else { "(or" });
                for f in v {
                    o.push(' ');
                    f.print(m, o);
                }
                o.push(')');
            },
        }
    }
}

/// Constant-fold an atomic comparison in Real mode.
pub fn lt(a: Id, b: Id) -> Formula {
    if term::mode() == Mode::Real {
        if a == b {
            return False;
        }
        if let (Some(x), Some(y)) = (term::as_const(a), term::as_const(b)) {
            if let (Some(l), Some(r)) = (x.0.checked_mul(y.1), y.0.checked_mul(x.1)) {
                return Formula::of(l < r);
            }
        }
    }

    Lt(a, b)
}

pub fn le(a: Id, b: Id) -> Formula {
    if term::mode() == Mode::Real {
        lt(b, a).not()
    } else {
        Le(a, b)
    }
}

pub fn eq(a: Id, b: Id) -> Formula {
    if term::mode() == Mode::Real {
        if a == b {
            return True;
        }
        if let (Some(x), Some(y)) = (term::as_const(a), term::as_const(b)) {
            return Formula::of(x == y);
        }

        return Eq(a.min(b), a.max(b));
    }

    Eq(a, b)
}

fn special(i: Id) -> bool {
    matches!(term::get(i), T::Inf | T::NegInf | T::NaN)
}

/// Conditions under which a term denotes a real number (no division by zero, no ln of a
/// non-positive number, ...).  In IEEE mode every term is defined.
pub fn defined(i: Id) -> Formula {
    if term::mode() == Mode::Fp {
        return True;
    }

    let mut seen = BTreeSet::new();
    let mut conds = vec![];
    let mut stack = vec![i];
    let zero = term::constant(0, 1);
    let one = term::constant(1, 1);
    let mone = term::constant(-1, 1);

    while let Some(i) = stack.pop() {
        if !seen.insert(i) || term::with(|a| a.total[i as usize]) {
            continue;
        }
        match term::get(i) {
            T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) => stack.extend([a, b]),
            T::Div(a, b) => {
                stack.extend([a, b]);
                conds.push(eq(b, zero).not());
            },
            T::Neg(a) | T::Abs(a) | T::Sgn(a) => stack.push(a),
            T::Inf | T::NegInf | T::NaN => conds.push(False),
            T::Fun(f, v) => {
                stack.extend(v.iter().copied());
                match f {
                    Fun::Ln => conds.push(lt(zero, v[0])),
                    Fun::Sqrt => conds.push(le(zero, v[0])),
                    Fun::Asin | Fun::Acos => {
                        conds.push(le(mone, v[0]));
                        conds.push(le(v[0], one));
                    },
                    // x^e over the reals: x > 0, or x = 0 with e >= 0 (0^0 = 1 as in IEEE pow).
                    Fun::Pow => conds.push(Formula::or(vec![
                        lt(zero, v[0]),
                        Formula::and(vec![eq(v[0], zero), le(zero, v[1])]),
                        eq(v[1], zero),
                        eq(v[1], one),
                    ])),
                    _ => {},
                }
            },
            _ => {},
        }
    }

    Formula::and(conds)
}

/// The formula "got and want denote the same value wherever want is defined".
pub fn same(got: Id, want: Id) -> Formula {
    if term::mode() == Mode::Fp {
        return Formula::or(vec![Eq(got, want), Formula::and(vec![Nan(got), Nan(want)])]);
    }
    if special(got) || special(want) {
        return Formula::of(got == want);
    }

    Formula::or(vec![
        defined(want).not(),
        Formula::and(vec![defined(got), eq(got, want)]),
    ])
}

fn num(n: i128, d: i128) -> String {
    let a = if d == 1 {
        format!("{}.0", n.unsigned_abs())
    } else {
        format!("(/ {}.0 {}.0)", n.unsigned_abs(), d)
    };

    if n < 0 {
        format!("(- {})", a)
    } else {
        a
    }
}

pub struct Script {
    pub text: String,
    pub vars: Vec<String>,
    pub bools: Vec<String>,
    pub funs: usize,
}

/// Encode the conjunction of `fs`.
pub fn encode(fs: &[Formula], mode: Mode) -> Script {
    let mut roots = BTreeSet::new();
    let mut bools = BTreeSet::new();

    for f in fs {
        f.ids(&mut roots);
        f.bools(&mut bools);
    }

    // Topological closure: ids are created children-first.
    let mut all = BTreeSet::new();
    let mut stack: Vec<Id> = roots.iter().copied().collect();

    while let Some(i) = stack.pop() {
        if !all.insert(i) {
            continue;
        }
        match term::get(i) {
            T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) => stack.extend([a, b]),
            T::Neg(a) | T::Abs(a) | T::Sgn(a) => stack.push(a),
            T::Fun(_, v) => stack.extend(v),
            _ => {},
        }
    }

    // Helper constants the axioms refer to (created last, so they need explicit ordering).
    let mut o = String::new();
    let mut vars = vec![];
    let mut apps: BTreeMap<Fun, Vec<(Id, Vec<Id>)>> = BTreeMap::new();
    let sort = if mode == Mode::Fp { "(_ FloatingPoint 11 53)" } else { "Real" };

    let _ = writeln!(o, "(set-logic {})", if mode == Mode::Fp { "QF_FPLRA" } else { "QF_NRA" });
    for b in &bools {
        let _ = writeln!(o, "(declare-fun b_{} () Bool)", b);
    }

    for &i in &all {
        let t = term::get(i);
        if mode == Mode::Real {
            match t {
                T::Const(n, d) => {
                    let _ = writeln!(o, "(define-fun t{} () Real {})", i, num(n, d));
                },
                T::Var(s) => {
                    let _ = writeln!(o, "(declare-fun v_{} () Real)", s);
                    let _ = writeln!(o, "(define-fun t{} () Real v_{})", i, s);
                    vars.push(s);
                },
                T::Add(a, b) => {
                    let _ = writeln!(o, "(define-fun t{} () Real (+ t{} t{}))", i, a, b);
                },
                T::Sub(a, b) => {
                    let _ = writeln!(o, "(define-fun t{} () Real (- t{} t{}))", i, a, b);
                },
                T::Mul(a, b) => {
                    let _ = writeln!(o, "(define-fun t{} () Real (* t{} t{}))", i, a, b);
                },
                T::Neg(a) => {
                    let _ = writeln!(o, "(define-fun t{} () Real (- t{}))", i, a);
                },
                T::Abs(a) => {
                    let _ = writeln!(o, "(define-fun t{0} () Real (ite (>= t{1} 0.0) t{1} (- t{1})))", i, a);
                },
                T::Sgn(a) => {
                    let _ = writeln!(o, "(define-fun t{} () Real (ite (>= t{} 0.0) 1.0 (- 1.0)))", i, a);
                },
                T::Div(a, b) => {
                    if let Some((n, d)) = term::as_const(b).filter(|c| c.0 != 0) {
                        let _ = writeln!(o, "(define-fun t{} () Real (* {} t{}))", i, num(d * n.signum(), n.abs()), a);
                    } else {
                        let _ = writeln!(o, "(declare-fun t{} () Real)", i);
                        let _ = writeln!(o, "(assert (=> (not (= t{2} 0.0)) (= (* t{0} t{2}) t{1})))", i, a, b);
                    }
                },
                T::Fun(f, v) => {
                    let _ = writeln!(o, "(declare-fun t{} () Real)", i);
                    apps.entry(f).or_default().push((i, v));
                },
                T::Inf | T::NegInf | T::NaN => {
                    let _ = writeln!(o, "(declare-fun t{} () Real)", i);
                },
            }
        } else {
            match t {
                T::Const(n, d) => {
                    let _ = writeln!(
                        o,
                        "(define-fun t{} () {} ((_ to_fp 11 53) RNE {}))",
                        i,
                        sort,
                        num(n, d)
                    );
                },
                T::Var(s) => {
                    let _ = writeln!(o, "(declare-fun v_{} () {})", s, sort);
                    let _ = writeln!(o, "(define-fun t{} () {} v_{})", i, sort, s);
                    vars.push(s);
                },
                T::Add(a, b) => {
                    let _ = writeln!(o, "(define-fun t{} () {} (fp.add RNE t{} t{}))", i, sort, a, b);
                },
                T::Sub(a, b) => {
                    let _ = writeln!(o, "(define-fun t{} () {} (fp.sub RNE t{} t{}))", i, sort, a, b);
                },
                T::Mul(a, b) => {
                    let _ = writeln!(o, "(define-fun t{} () {} (fp.mul RNE t{} t{}))", i, sort, a, b);
                },
                T::Div(a, b) => {
                    let _ = writeln!(o, "(define-fun t{} () {} (fp.div RNE t{} t{}))", i, sort, a, b);
                },
                T::Neg(a) => {
                    let _ = writeln!(o, "(define-fun t{} () {} (fp.neg t{}))", i, sort, a);
                },
                T::Abs(a) => {
                    let _ = writeln!(o, "(define-fun t{} () {} (fp.abs t{}))", i, sort, a);
                },
                T::Sgn(a) => {
                    let _ = writeln!(
                        o,
                        "(define-fun t{0} () {2} (ite (fp.isNaN t{1}) (_ NaN 11 53) (ite (fp.isNegative t{1}) ((_ to_fp 11 53) RNE (- 1.0)) ((_ to_fp 11 53) RNE 1.0))))",
                        i, a, sort
                    );
                },
                T::Inf => {
                    let _ = writeln!(o, "(define-fun t{} () {} (_ +oo 11 53))", i, sort);
                },
                T::NegInf => {
                    let _ = writeln!(o, "(define-fun t{} () {} (_ -oo 11 53))", i, sort);
                },
                T::NaN => {
                    let _ = writeln!(o, "(define-fun t{} () {} (_ NaN 11 53))", i, sort);
                },
                T::Fun(f, v) => {
                    let _ = writeln!(o, "(declare-fun t{} () {})", i, sort);
                    apps.entry(f).or_default().push((i, v));
                },
            }
        }
    }

    let mut funs = 0;
    for (f, v) in &apps {
        funs += v.len();
        if mode == Mode::Real {
            real_axioms(*f, v, &apps, &mut o);
        } else {
            fp_axioms(*f, v, &mut o);
        }
    }

    for f in fs {
        o.push_str("(assert ");
        f.print(mode, &mut o);
        o.push_str(")\n");
    }

    Script { text: o, vars, bools: bools.into_iter().collect(), funs }
}

/// Sound facts about the real transcendental functions; everything else about them is left free.
fn real_axioms(
    f: Fun,
    v: &[(Id, Vec<Id>)],
    apps: &BTreeMap<Fun, Vec<(Id, Vec<Id>)>>,
    o: &mut String,
) {
    for (k, (i, a)) in v.iter().enumerate() {
        match f {
            Fun::Exp => {
                let _ = writeln!(o, "(assert (> t{} 0.0))", i);
                let _ = writeln!(o, "(assert (=> (= t{1} 0.0) (= t{0} 1.0)))", i, a[0]);
            },
            Fun::Ln => {
                let _ = writeln!(o, "(assert (=> (= t{1} 1.0) (= t{0} 0.0)))", i, a[0]);
            },
            Fun::Sqrt => {
                let _ = writeln!(o, "(assert (=> (>= t{1} 0.0) (and (>= t{0} 0.0) (= (* t{0} t{0}) t{1}))))", i, a[0]);
            },
            Fun::Pow => {
                let _ = writeln!(o, "(assert (=> (> t{1} 0.0) (> t{0} 0.0)))", i, a[0]);
                let _ = writeln!(o, "(assert (=> (= t{1} 0.0) (= t{0} 1.0)))", i, a[1]);
                let _ = writeln!(o, "(assert (=> (= t{2} 1.0) (= t{0} t{1})))", i, a[0], a[1]);
                let _ = writeln!(o, "(assert (=> (and (= t{2} 2.0) (> t{1} 0.0)) (= t{0} (* t{1} t{1}))))", i, a[0], a[1]);
                let _ = writeln!(o, "(assert (=> (= t{1} 1.0) (= t{0} 1.0)))", i, a[0]);
                let _ = writeln!(o, "(assert (=> (and (= t{1} 0.0) (> t{2} 0.0)) (= t{0} 0.0)))", i, a[0], a[1]);
            },
            Fun::Sin => {
                let _ = writeln!(o, "(assert (=> (= t{1} 0.0) (= t{0} 0.0)))", i, a[0]);
                if let Some(c) = apps.get(&Fun::Cos) {
                    for (j, b) in c {
                        if a == b {
                            let _ = writeln!(o, "(assert (= (+ (* t{0} t{0}) (* t{1} t{1})) 1.0))", i, j);
                        }
                    }
                }
            },
            Fun::Cos => {
                let _ = writeln!(o, "(assert (=> (= t{1} 0.0) (= t{0} 1.0)))", i, a[0]);
            },
            _ => {},
        }

        for (j, b) in &v[..k] {
            let pairs: Vec<(Id, Id)> = a.iter().copied().zip(b.iter().copied()).filter(|(x, y)| x != y).collect();
            let consts_differ = pairs
                .iter()
                .any(|(x, y)| matches!((term::as_const(*x), term::as_const(*y)), (Some(p), Some(q)) if p != q));

            if !consts_differ {
                let eqs: String = pairs.iter().map(|(x, y)| format!(" (= t{} t{})", x, y)).collect();
                let _ = writeln!(o, "(assert (=> (and true{}) (= t{} t{})))", eqs, i, j);
            }

            match f {
                Fun::Exp => {
                    let _ = writeln!(o, "(assert (=> (= (+ t{2} t{3}) 0.0) (= (* t{0} t{1}) 1.0)))", i, j, a[0], b[0]);
                    let _ = writeln!(o, "(assert (=> (= t{2} (* 2.0 t{3})) (= t{0} (* t{1} t{1}))))", i, j, a[0], b[0]);
                    let _ = writeln!(o, "(assert (=> (= t{3} (* 2.0 t{2})) (= t{1} (* t{0} t{0}))))", i, j, a[0], b[0]);
                },
                Fun::Pow if a[0] == b[0] => {
                    let _ = writeln!(o, "(assert (=> (and (> t{4} 0.0) (= t{2} (+ t{3} 1.0))) (= t{0} (* t{1} t{4}))))", i, j, a[1], b[1], a[0]);
                    let _ = writeln!(o, "(assert (=> (and (> t{4} 0.0) (= t{3} (+ t{2} 1.0))) (= t{1} (* t{0} t{4}))))", i, j, a[1], b[1], a[0]);
                    let _ = writeln!(o, "(assert (=> (and (> t{4} 0.0) (= t{2} (+ t{3} 2.0))) (= t{0} (* t{1} (* t{4} t{4})))))", i, j, a[1], b[1], a[0]);
                    let _ = writeln!(o, "(assert (=> (and (> t{4} 0.0) (= t{3} (+ t{2} 2.0))) (= t{1} (* t{0} (* t{4} t{4})))))", i, j, a[1], b[1], a[0]);
                },
                Fun::Sin | Fun::Erf | Fun::Atan | Fun::Asin => {
                    let _ = writeln!(o, "(assert (=> (= (+ t{2} t{3}) 0.0) (= (+ t{0} t{1}) 0.0)))", i, j, a[0], b[0]);
                },
                Fun::Cos => {
                    let _ = writeln!(o, "(assert (=> (= (+ t{2} t{3}) 0.0) (= t{0} t{1})))", i, j, a[0], b[0]);
                },
                _ => {},
            }
        }
    }
}

/// Contracts every IEEE-correct-to-a-few-ulp libm satisfies; a counterexample is replayed natively.
fn fp_axioms(f: Fun, v: &[(Id, Vec<Id>)], o: &mut String) {
    let c = |s: &str| format!("((_ to_fp 11 53) RNE {})", s);

    for (k, (i, a)) in v.iter().enumerate() {
        let x = format!("t{}", a[0]);
        let r = format!("t{}", i);

        match f {
            Fun::Exp => {
                let _ = writeln!(o, "(assert (= (fp.isNaN {x}) (fp.isNaN {r})))");
                let _ = writeln!(o, "(assert (=> (not (fp.isNaN {x})) (fp.geq {r} {})))", c("0.0"));
                let _ = writeln!(o, "(assert (=> (not (fp.isNaN {x})) (not (fp.isNegative {r}))))");
                let _ = writeln!(o, "(assert (=> (fp.leq {x} {}) (fp.leq {r} {})))", c("0.0"), c("1.0"));
                let _ = writeln!(o, "(assert (=> (fp.geq {x} {}) (fp.geq {r} {})))", c("0.0"), c("1.0"));
                let _ = writeln!(o, "(assert (=> (fp.geq {x} {}) (fp.isInfinite {r})))", c("709.8"));
                let _ = writeln!(o, "(assert (=> (fp.leq {x} {}) (not (fp.isInfinite {r}))))", c("709.7"));
                let _ = writeln!(o, "(assert (=> (fp.leq {x} {}) (fp.isZero {r})))", c("(- 745.2)"));
                let _ = writeln!(o, "(assert (=> (fp.geq {x} {}) (fp.gt {r} {})))", c("(- 745.0)"), c("0.0"));
            },
            Fun::Ln => {
                let _ = writeln!(o, "(assert (= (or (fp.isNaN {x}) (fp.lt {x} {})) (fp.isNaN {r})))", c("0.0"));
                let _ = writeln!(o, "(assert (=> (fp.isZero {x}) (= {r} (_ -oo 11 53))))");
                let _ = writeln!(o, "(assert (=> (= {x} (_ +oo 11 53)) (= {r} (_ +oo 11 53))))");
                let _ = writeln!(o, "(assert (=> (and (fp.gt {x} {}) (not (fp.isInfinite {x}))) (and (fp.leq {r} {}) (fp.geq {r} {}))))", c("0.0"), c("709.8"), c("(- 744.5)"));
                let _ = writeln!(o, "(assert (=> (and (fp.gt {x} {}) (fp.leq {x} {})) (fp.leq {r} {})))", c("0.0"), c("1.0"), c("0.0"));
                let _ = writeln!(o, "(assert (=> (fp.geq {x} {}) (fp.geq {r} {})))", c("1.0"), c("0.0"));
            },
            Fun::Pow => {
                let y = format!("t{}", a[1]);
                let (zero, one) = (c("0.0"), c("1.0"));
                let _ = writeln!(o, "(assert (=> (or (fp.isZero {y}) (fp.eq {x} {one})) (= {r} {one})))");
                let _ = writeln!(o, "(assert (=> (fp.eq {y} {one}) (= {r} {x})))");
                let _ = writeln!(o, "(assert (=> (and (fp.isNaN {x}) (not (fp.isZero {y}))) (fp.isNaN {r})))");
                let _ = writeln!(o, "(assert (=> (and (fp.isNaN {y}) (not (fp.eq {x} {one}))) (fp.isNaN {r})))");
                let _ = writeln!(o, "(assert (=> (and (fp.isZero {x}) (fp.gt {y} {zero})) (fp.isZero {r})))");
                let _ = writeln!(o, "(assert (=> (and (fp.isZero {x}) (fp.lt {y} {zero})) (fp.isInfinite {r})))");
                let _ = writeln!(o, "(assert (=> (and (fp.geq {x} {zero}) (not (fp.isNaN {y}))) (fp.geq {r} {zero})))");
                let _ = writeln!(o, "(assert (=> (and (fp.eq {y} {}) (not (fp.isNaN {x}))) (fp.geq {r} {zero})))", c("2.0"));
            },
            Fun::Sin | Fun::Cos => {
                let _ = writeln!(o, "(assert (= (or (fp.isNaN {x}) (fp.isInfinite {x})) (fp.isNaN {r})))");
                let _ = writeln!(o, "(assert (=> (not (fp.isNaN {r})) (and (fp.leq {r} {}) (fp.geq {r} {}))))", c("1.0"), c("(- 1.0)"));
            },
            Fun::Sqrt => {
                let _ = writeln!(o, "(assert (= {r} (fp.sqrt RNE {x})))");
            },
            Fun::Other("tanh") => {
                let _ = writeln!(o, "(assert (= (fp.isNaN {x}) (fp.isNaN {r})))");
                let _ = writeln!(o, "(assert (=> (not (fp.isNaN {x})) (and (fp.leq {r} {}) (fp.geq {r} {}))))", c("1.0"), c("(- 1.0)"));
                let _ = writeln!(o, "(assert (=> (fp.geq {x} {0}) (fp.geq {r} {0})))", c("0.0"));
                let _ = writeln!(o, "(assert (=> (fp.leq {x} {0}) (fp.leq {r} {0})))", c("0.0"));
            },
            _ => {},
        }

        for (j, b) in &v[..k] {
            let eqs: String = a.iter().zip(b.iter()).map(|(p, q)| format!(" (= t{} t{})", p, q)).collect();
            let _ = writeln!(o, "(assert (=> (and true{}) (= t{} t{})))", eqs, i, j);
            if matches!(f, Fun::Exp | Fun::Ln) {
                let _ = writeln!(o, "(assert (=> (fp.leq t{2} t{3}) (or (fp.isNaN t{0}) (fp.leq t{0} t{1}))))", i, j, a[0], b[0]);
                let _ = writeln!(o, "(assert (=> (fp.leq t{3} t{2}) (or (fp.isNaN t{1}) (fp.leq t{1} t{0}))))", i, j, a[0], b[0]);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Unsat,
    Sat(HashMap<String, f64>, HashMap<String, bool>),
    Unknown(String),
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Proc {
    fn spawn(cmd: &[&str]) -> Option<Proc> {
        let mut child = Command::new(cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let stdin = child.stdin.take()?;
        let stdout = child.stdout.take()?;
        let (tx, rx) = channel();

        std::thread::spawn(move || {
            for line in BufReader::new(stdout).lines() {
                match line {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    },
                    Err(_) => break,
                }
            }
        });

        Some(Proc { child, stdin, rx })
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default)]
pub struct Solver {
    procs: HashMap<&'static str, Proc>,
    pub queries: u64,
    pub by_solver: BTreeMap<&'static str, u64>,
    pub time: Duration,
    pub slowest: Duration,
}

const MARK: &str = "@@done";

impl Solver {
    fn ask(&mut self, which: &'static str, script: &Script, ms: u64) -> Answer {
        let cmd: &[&str] = match which {
            "z3-new" => &["z3-new", "-in"],
            "z3" => &["z3", "-in"],
            _ => &["cvc5", "--incremental", "--produce-models", "--lang=smt2", "-q"],
        };

        if which == "cvc5" {
            // one process per query: cvc5 takes its time limit on the command line
            self.procs.remove(which);
        }
        if !self.procs.contains_key(which) {
            let lim = format!("--tlimit-per={}", ms);
            let mut c = cmd.to_vec();
            if which == "cvc5" {
                c.push(&lim);
            }
            match Proc::spawn(&c) {
                Some(p) => {
                    self.procs.insert(which, p);
                },
                None => return Answer::Unknown(format!("cannot start {}", which)),
            }
        }

        let mut text = String::new();
        if which != "cvc5" {
            text.push_str("(reset)\n");
            let _ = writeln!(text, "(set-option :timeout {})", ms);
            text.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n");
        }
        text.push_str(&script.text);
        let _ = writeln!(text, "(check-sat)\n(echo \"{}\")", MARK);

        let lines = match self.talk(which, &text, ms + 4000) {
            Some(l) => l,
            None => {
                self.procs.remove(which);
                return Answer::Unknown(format!("{}: no reply within {} ms", which, ms));
            },
        };

        if lines.iter().any(|l| l.contains("(error")) {
            self.procs.remove(which);
            return Answer::Unknown(format!("{}: {}", which, lines.join(" ")));
        }

        match lines.first().map(|s| s.as_str()) {
            Some("unsat") => Answer::Unsat,
            Some("sat") => {
                let mut env = HashMap::new();
                let mut benv = HashMap::new();

                if !script.vars.is_empty() || !script.bools.is_empty() {
                    let mut names: Vec<String> = script.vars.iter().map(|v| format!("v_{}", v)).collect();
                    names.extend(script.bools.iter().map(|b| format!("b_{}", b)));
                    let q = format!("(get-value ({}))\n(echo \"{}\")\n", names.join(" "), MARK);
                    if let Some(l) = self.talk(which, &q, 10_000) {
                        parse_model(&l.join(" "), &mut env, &mut benv);
                    }
                }

                Answer::Sat(env, benv)
            },
            Some(o) => Answer::Unknown(format!("{}: {}", which, o)),
            None => Answer::Unknown(format!("{}: empty reply", which)),
        }
    }

    fn talk(&mut self, which: &'static str, text: &str, ms: u64) -> Option<Vec<String>> {
        let p = self.procs.get_mut(which)?;
        p.stdin.write_all(text.as_bytes()).ok()?;
        p.stdin.flush().ok()?;

        let deadline = Instant::now() + Duration::from_millis(ms);
        let mut out = vec![];

        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match p.rx.recv_timeout(left) {
                Ok(l) if l.contains(MARK) => return Some(out),
                Ok(l) => out.push(l),
                Err(_) => return None,
            }
        }
    }

    /// Decide the script with a portfolio of solvers and rising limits.
    pub fn check(&mut self, script: &Script, budget: &[(&'static str, u64)]) -> Answer {
        let t0 = Instant::now();
        let mut last = Answer::Unknown("no solver".into());

        self.queries += 1;
        for (which, ms) in budget {
            last = self.ask(which, script, *ms);
            if !matches!(last, Answer::Unknown(_)) {
                *self.by_solver.entry(which).or_insert(0) += 1;
                break;
            }
        }

        let dt = t0.elapsed();
        self.time += dt;
        self.slowest = self.slowest.max(dt);

        last
    }
}

pub const FULL: &[(&str, u64)] = &[("z3-new", 4000), ("z3", 6000), ("cvc5", 15000), ("z3-new", 40000), ("z3", 40000)];
pub const QUICK: &[(&str, u64)] = &[("z3-new", 3000), ("z3", 3000)];

fn parse_model(s: &str, env: &mut HashMap<String, f64>, benv: &mut HashMap<String, bool>) {
    // Tiny s-expression reader: ((v_x 1.0) (v_y (- (/ 1.0 2.0))) (b_p true))
    #[derive(Debug, Clone)]
    enum S {
        A(String),
        L(Vec<S>),
    }
    fn read(t: &[String], p: &mut usize) -> S {
        if t[*p] == "(" {
            *p += 1;
            let mut v = vec![];
            while *p < t.len() && t[*p] != ")" {
                v.push(read(t, p));
            }
            *p += 1;
            S::L(v)
        } else {
            *p += 1;
            S::A(t[*p - 1].clone())
        }
    }
    fn bits(s: &str) -> Option<u64> {
        if let Some(b) = s.strip_prefix("#b") {
            u64::from_str_radix(b, 2).ok()
        } else {
            u64::from_str_radix(s.strip_prefix("#x")?, 16).ok()
        }
    }
    fn val(e: &S) -> Option<f64> {
        match e {
            S::A(a) => a.trim_end_matches('?').parse().ok(),
            S::L(v) => match v.as_slice() {
                [S::A(f), a, b, c] if f == "fp" => {
                    let g = |s: &S| match s {
                        S::A(a) => bits(a),
                        _ => None,
                    };
                    Some(f64::from_bits((g(a)? << 63) | (g(b)? << 52) | g(c)?))
                },
                [S::A(u), S::A(k), _, _] if u == "_" => match k.as_str() {
                    "+oo" => Some(f64::INFINITY),
                    "-oo" => Some(f64::NEG_INFINITY),
                    "NaN" => Some(f64::NAN),
                    "+zero" => Some(0.0),
                    "-zero" => Some(-0.0),
                    _ => None,
                },
                [S::A(m), a] if m == "-" => Some(-val(a)?),
                [S::A(m), a, b] if m == "/" => Some(val(a)? / val(b)?),
                [S::A(m), a, b] if m == "+" => Some(val(a)? + val(b)?),
                [S::A(m), a, b] if m == "*" => Some(val(a)? * val(b)?),
                // cvc5: (_ real_algebraic_number <p, (lo, hi)>) or z3 root-obj: left to sampling
                _ => None,
            },
        }
    }

    let spaced = s.replace('(', " ( ").replace(')', " ) ");
    let toks: Vec<String> = spaced.split_whitespace().map(|x| x.to_string()).collect();
    if toks.is_empty() {
        return;
    }
    let mut p = 0;
    if let S::L(entries) = read(&toks, &mut p) {
        for e in entries {
            if let S::L(kv) = e {
                if let [S::A(name), v] = kv.as_slice() {
                    if let Some(n) = name.strip_prefix("v_") {
                        if let Some(x) = val(v) {
                            env.insert(n.to_string(), x);
                        }
                    } else if let Some(n) = name.strip_prefix("b_") {
                        if let S::A(b) = v {
                            benv.insert(n.to_string(), b == "true");
                        }
                    }
                }
            }
        }
    }
}
