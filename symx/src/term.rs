//! Hash-consed term arena.  A `Sym` scalar is an index into this arena; running the real library
//! code on `Sym` builds the terms that the SMT solver later decides about.
use std::cell::RefCell;
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fun {
    Exp,
    Ln,
    Pow,
    Sin,
    Cos,
    Asin,
    Acos,
    Atan,
    Atan2,
    Cbrt,
    Sqrt,
    Gamma,
    LogGamma,
    DiGamma,
    Erf,
    Floor,
    /// Derivative-only helpers have no native counterpart here.
    Other(&'static str),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Const(i128, i128),
    Var(String),
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    Div(Id, Id),
    Neg(Id),
    Abs(Id),
    Sgn(Id),
    Fun(Fun, Vec<Id>),
    Inf,
    NegInf,
    NaN,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Mathematical reals (QF_NRA, transcendental functions constrained by sound axioms).
    Real,
    /// IEEE-754 binary64, round-to-nearest-even, bit-precise (QF_FP).
    Fp,
}

pub struct Arena {
    pub terms: Vec<T>,
    pub total: Vec<bool>,
    map: HashMap<T, Id>,
    pub mode: Mode,
}

impl Arena {
    fn new() -> Self {
        Arena { terms: vec![], total: vec![], map: HashMap::new(), mode: Mode::Real }
    }

    fn intern(&mut self, t: T) -> Id {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }

        let total = match &t {
            T::Const(..) | T::Var(_) => true,
            T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) => {
                self.total[*a as usize] && self.total[*b as usize]
            },
            T::Neg(a) | T::Abs(a) | T::Sgn(a) => self.total[*a as usize],
            T::Div(a, b) => {
                self.total[*a as usize] && matches!(self.terms[*b as usize], T::Const(n, _) if n != 0)
            },
            T::Fun(Fun::Exp, v) | T::Fun(Fun::Sin, v) | T::Fun(Fun::Cos, v) => {
                v.iter().all(|a| self.total[*a as usize])
            },
            _ => false,
        };
        let id = self.terms.len() as Id;

        self.terms.push(t.clone());
        self.total.push(total);
        self.map.insert(t, id);

        id
    }

    fn cst(&self, a: Id) -> Option<(i128, i128)> {
        match self.terms[a as usize] {
            T::Const(n, d) => Some((n, d)),
            _ => None,
        }
    }
}

thread_local! {
    static ARENA: RefCell<Arena> = RefCell::new(Arena::new());
}

pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}

pub fn reset(mode: Mode) {
    with(|a| {
        *a = Arena::new();
        a.mode = mode;
    })
}

pub fn mode() -> Mode {
    with(|a| a.mode)
}

pub fn get(i: Id) -> T {
    with(|a| a.terms[i as usize].clone())
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

fn norm(n: i128, d: i128) -> (i128, i128) {
    let g = gcd(n, d).max(1);
    let s = if d < 0 { -1 } else { 1 };

    (s * n / g, s * d / g)
}

pub fn constant(n: i128, d: i128) -> Id {
    let (n, d) = norm(n, d);

    with(|a| a.intern(T::Const(n, d)))
}

pub fn var(name: &str) -> Id {
    with(|a| a.intern(T::Var(name.to_string())))
}

pub fn raw(t: T) -> Id {
    with(|a| a.intern(t))
}

pub fn as_const(i: Id) -> Option<(i128, i128)> {
    with(|a| a.cst(i))
}

fn is(i: Id, n: i128) -> bool {
    as_const(i) == Some((n, 1))
}

fn real() -> bool {
    mode() == Mode::Real
}

fn rat2(
    a: (i128, i128),
    b: (i128, i128),
    op: char,
) -> Option<(i128, i128)> {
    let (n, d) = match op {
        '+' => (
            a.0.checked_mul(b.1)?.checked_add(b.0.checked_mul(a.1)?)?,
            a.1.checked_mul(b.1)?,
        ),
        '-' => (
            a.0.checked_mul(b.1)?.checked_sub(b.0.checked_mul(a.1)?)?,
            a.1.checked_mul(b.1)?,
        ),
        '*' => (a.0.checked_mul(b.0)?, a.1.checked_mul(b.1)?),
        _ => {
            if b.0 == 0 {
                return None;
            }
            (a.0.checked_mul(b.1)?, a.1.checked_mul(b.0)?)
        },
    };

    Some(norm(n, d))
}

pub fn add(a: Id, b: Id) -> Id {
    if real() {
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            if let Some((n, d)) = rat2(x, y, '+') {
                return constant(n, d);
            }
        }
        if is(a, 0) {
            return b;
        }
        if is(b, 0) {
            return a;
        }

        return raw(T::Add(a.min(b), a.max(b)));
    }

    raw(T::Add(a, b))
}

pub fn sub(a: Id, b: Id) -> Id {
    if real() {
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            if let Some((n, d)) = rat2(x, y, '-') {
                return constant(n, d);
            }
        }
        if is(b, 0) {
            return a;
        }
        if is(a, 0) {
            return neg(b);
        }
    }

    raw(T::Sub(a, b))
}

pub fn mul(a: Id, b: Id) -> Id {
    if real() {
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            if let Some((n, d)) = rat2(x, y, '*') {
                return constant(n, d);
            }
        }
        if is(a, 1) {
            return b;
        }
        if is(b, 1) {
            return a;
        }
        let (ta, tb) = with(|r| (r.total[a as usize], r.total[b as usize]));
        if (is(a, 0) && tb) || (is(b, 0) && ta) {
            return constant(0, 1);
        }

        return raw(T::Mul(a.min(b), a.max(b)));
    }

    raw(T::Mul(a, b))
}

pub fn div(a: Id, b: Id) -> Id {
    if real() {
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            if let Some((n, d)) = rat2(x, y, '/') {
                return constant(n, d);
            }
        }
        if is(b, 1) {
            return a;
        }
    }

    raw(T::Div(a, b))
}

pub fn neg(a: Id) -> Id {
    if real() {
        if let Some((n, d)) = as_const(a) {
            return constant(-n, d);
        }
        match get(a) {
            T::Neg(b) => return b,
            T::Inf => return raw(T::NegInf),
            T::NegInf => return raw(T::Inf),
            _ => {},
        }
    }

    raw(T::Neg(a))
}

pub fn abs(a: Id) -> Id {
    if real() {
        if let Some((n, d)) = as_const(a) {
            return constant(n.abs(), d);
        }
    }

    raw(T::Abs(a))
}

/// Rust's `signum`: 1 for x >= 0, -1 for x < 0 (so signum(0.0) = 1).
pub fn sgn(a: Id) -> Id {
    if real() {
        if let Some((n, _)) = as_const(a) {
            return constant(if n >= 0 { 1 } else { -1 }, 1);
        }
    }

    raw(T::Sgn(a))
}

pub fn fun(f: Fun, args: Vec<Id>) -> Id {
    if real() {
        match f {
            Fun::Pow => {
                let (x, e) = (args[0], args[1]);

                if let Some((n, 1)) = as_const(e) {
                    if n.abs() <= 8 {
                        let mut p = constant(1, 1);

                        for _ in 0..n.abs() {
                            p = mul(p, x);
                        }

                        return if n < 0 { div(constant(1, 1), p) } else { p };
                    }
                }
                if is(x, 1) {
                    return x;
                }
            },
            Fun::Exp if is(args[0], 0) => return constant(1, 1),
            Fun::Ln if is(args[0], 1) => return constant(0, 1),
            Fun::Sin if is(args[0], 0) => return constant(0, 1),
            Fun::Cos if is(args[0], 0) => return constant(1, 1),
            Fun::Erf if is(args[0], 0) => return constant(0, 1),
            Fun::Asin | Fun::Atan if is(args[0], 0) => return constant(0, 1),
            Fun::Acos if is(args[0], 1) => return constant(0, 1),
            Fun::LogGamma if is(args[0], 1) || is(args[0], 2) => return constant(0, 1),
            Fun::Gamma if is(args[0], 1) || is(args[0], 2) => return constant(1, 1),
            Fun::Sqrt if is(args[0], 0) || is(args[0], 1) => return args[0],
            _ => {},
        }
    }

    raw(T::Fun(f, args))
}

/// Native double evaluation of a term, used to validate the encoding against the real code.
pub fn eval(i: Id, env: &HashMap<String, f64>) -> f64 {
    fn go(i: Id, env: &HashMap<String, f64>, memo: &mut HashMap<Id, f64>) -> f64 {
        use num_traits::Float;
        use special_fun::FloatSpecial;

        if let Some(v) = memo.get(&i) {
            return *v;
        }

        let v = match get(i) {
            T::Const(n, d) => n as f64 / d as f64,
            T::Var(s) => env.get(&s).copied().unwrap_or(f64::NAN),
            T::Add(a, b) => go(a, env, memo) + go(b, env, memo),
            T::Sub(a, b) => go(a, env, memo) - go(b, env, memo),
            T::Mul(a, b) => go(a, env, memo) * go(b, env, memo),
            T::Div(a, b) => go(a, env, memo) / go(b, env, memo),
            T::Neg(a) => -go(a, env, memo),
            T::Abs(a) => go(a, env, memo).abs(),
            T::Sgn(a) => go(a, env, memo).signum(),
            T::Inf => f64::INFINITY,
            T::NegInf => f64::NEG_INFINITY,
            T::NaN => f64::NAN,
            T::Fun(f, args) => {
                let v: Vec<f64> = args.iter().map(|a| go(*a, env, memo)).collect();
                match f {
                    Fun::Exp => v[0].exp(),
                    Fun::Ln => v[0].ln(),
                    Fun::Pow => v[0].powf(v[1]),
                    Fun::Sin => v[0].sin(),
                    Fun::Cos => v[0].cos(),
                    Fun::Asin => v[0].asin(),
                    Fun::Acos => v[0].acos(),
                    Fun::Atan => v[0].atan(),
                    Fun::Atan2 => v[0].atan2(v[1]),
                    Fun::Cbrt => v[0].cbrt(),
                    Fun::Sqrt => v[0].sqrt(),
                    Fun::Gamma => FloatSpecial::gamma(v[0]),
                    Fun::LogGamma => v[0].loggamma(),
                    Fun::DiGamma => v[0].digamma(),
                    Fun::Erf => FloatSpecial::erf(v[0]),
                    Fun::Floor => Float::floor(v[0]),
                    Fun::Other(n) => match n {
                        "exp2" => v[0].exp2(),
                        "log2" => v[0].log2(),
                        "log10" => v[0].log10(),
                        "tan" => v[0].tan(),
                        "exp_m1" => v[0].exp_m1(),
                        "ln_1p" => v[0].ln_1p(),
                        "sinh" => v[0].sinh(),
                        "cosh" => v[0].cosh(),
                        "tanh" => v[0].tanh(),
                        "asinh" => v[0].asinh(),
                        "acosh" => v[0].acosh(),
                        "atanh" => v[0].atanh(),
                        "ceil" => v[0].ceil(),
                        "round" => v[0].round(),
                        "trunc" => v[0].trunc(),
                        _ => f64::NAN,
                    },
                }
            },
        };

        memo.insert(i, v);
        v
    }

    go(i, env, &mut HashMap::new())
}

pub fn show(i: Id) -> String {
    fn go(i: Id, depth: usize) -> String {
        if depth == 0 {
            return "…".into();
        }
        let d = depth - 1;

        match get(i) {
            T::Const(n, 1) => format!("{}", n),
            T::Const(n, m) => format!("{}/{}", n, m),
            T::Var(s) => s,
            T::Add(a, b) => format!("({} + {})", go(a, d), go(b, d)),
            T::Sub(a, b) => format!("({} - {})", go(a, d), go(b, d)),
            T::Mul(a, b) => format!("({} * {})", go(a, d), go(b, d)),
            T::Div(a, b) => format!("({} / {})", go(a, d), go(b, d)),
            T::Neg(a) => format!("-{}", go(a, d)),
            T::Abs(a) => format!("|{}|", go(a, d)),
            T::Sgn(a) => format!("sgn({})", go(a, d)),
            T::Inf => "inf".into(),
            T::NegInf => "-inf".into(),
            T::NaN => "nan".into(),
            T::Fun(f, v) => format!(
                "{:?}({})",
                f,
                v.iter().map(|a| go(*a, d)).collect::<Vec<_>>().join(", ")
            ),
        }
    }

    go(i, 12)
}
