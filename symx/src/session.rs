//! Path exploration of the real code over symbolic scalars, discharge of the obligations by the
//! solver, and native replay of models.
use crate::smt::{self, encode, Answer, Formula, Solver};
use crate::term::{self, Id, Mode};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

#[derive(Clone)]
pub struct Case {
    pub id: String,
    pub mode: Mode,
    /// Only run in the thorough tier.
    pub deep: bool,
    pub sym: fn(),
    pub nat: fn(),
}

struct Abort;
struct Skip;

#[derive(Clone)]
struct Ob {
    label: String,
    f: Formula,
    pair: Option<(Id, Id)>,
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Idle,
    Sym,
    Nat,
}

struct S {
    kind: Kind,
    mode: Mode,
    solver: Solver,
    prefix: Vec<(bool, bool)>,
    trail: Vec<(bool, bool)>,
    pc: Vec<Formula>,
    obs: Vec<Ob>,
    inputs: BTreeSet<String>,
    env: HashMap<String, f64>,
    benv: HashMap<String, bool>,
    fails: Vec<(String, String)>,
    vals: Vec<(f64, f64)>,
    rng: u64,
    reads: BTreeMap<String, String>,
    feasibility: u64,
}

thread_local! {
    static SES: RefCell<S> = RefCell::new(S {
        kind: Kind::Idle, mode: Mode::Real, solver: Solver::default(), prefix: vec![], trail: vec![],
        pc: vec![], obs: vec![], inputs: BTreeSet::new(), env: HashMap::new(), benv: HashMap::new(),
        fails: vec![], vals: vec![], rng: 1, reads: BTreeMap::new(), feasibility: 0,
    });
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

fn ses<R>(f: impl FnOnce(&mut S) -> R) -> R {
    SES.with(|s| f(&mut s.borrow_mut()))
}

static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn set_thorough() {
    THOROUGH.store(true, std::sync::atomic::Ordering::SeqCst)
}

/// Whether the deeper bounds are wanted.
pub fn thorough() -> bool {
    THOROUGH.load(std::sync::atomic::Ordering::SeqCst)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}

pub fn note_input(name: &str) {
    ses(|s| {
        if !s.inputs.contains(name) {
            s.inputs.insert(name.to_string());
        }
    })
}

fn next(rng: &mut u64) -> u64 {
    *rng ^= *rng << 13;
    *rng ^= *rng >> 7;
    *rng ^= *rng << 17;
    *rng
}

fn sample(rng: &mut u64) -> f64 {
    // IEEE cases also draw from the edges of the format
    const EDGES: [f64; 14] = [-0.0, 0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, -1e308, f64::MAX, 5e-324, -5e-324,
        f64::MIN_POSITIVE, 710.0, -746.0, 37.0];
    if FP.with(|f| f.get()) && next(rng) % 2 == 0 {
        return EDGES[(next(rng) % 14) as usize];
    }
    const G: [f64; 13] = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 0.25, 1.5, -1.5, 4.0];
    let k = next(rng);

    if k % 3 == 0 {
        G[(next(rng) % 13) as usize]
    } else {
        let u = (next(rng) % 1_000_000) as f64 / 1_000_000.0;
        if k % 3 == 1 {
            u * 6.0 - 3.0
        } else {
            u * 2.0 + 0.1
        }
    }
}

thread_local! {
    static FP: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn native_input(name: &str) -> f64 {
    ses(|s| {
        let v = match s.env.get(name) {
            Some(v) => *v,
            None => {
                let v = sample(&mut s.rng);
                s.env.insert(name.to_string(), v);
                v
            },
        };
        s.reads.insert(name.to_string(), format!("{:?}", v));
        v
    })
}

/// A symbolic boolean: both outcomes are explored.
pub fn choice(name: &str) -> bool {
    let kind = ses(|s| s.kind);

    if kind == Kind::Nat {
        ses(|s| {
            let v = match s.benv.get(name) {
                Some(v) => *v,
                None => {
                    let v = next(&mut s.rng) % 2 == 0;
                    s.benv.insert(name.to_string(), v);
                    v
                },
            };
            s.reads.insert(name.to_string(), format!("{}", v));
            v
        })
    } else {
        decide(Formula::Bool(name.to_string()))
    }
}

/// A symbolic number in 0..n: every value is explored.
pub fn pick(name: &str, n: usize) -> usize {
    for i in 0..n - 1 {
        if choice(&format!("{}_is{}", name, i)) {
            return i;
        }
    }

    n - 1
}

pub fn decide(f: Formula) -> bool {
    match f {
        Formula::True => return true,
        Formula::False => return false,
        _ => {},
    }

    let known = ses(|s| {
        assert!(s.kind == Kind::Sym, "symx: symbolic comparison outside a symbolic run");
        if s.pc.contains(&f) {
            Some(true)
        } else if s.pc.contains(&f.clone().not()) {
            Some(false)
        } else {
            None
        }
    });
    if let Some(b) = known {
        return b;
    }

    let taken = ses(|s| s.prefix.get(s.trail.len()).copied());
    let (value, open) = match taken {
        Some(v) => v,
        None => {
            let yes = feasible(&f);
            let no = feasible(&f.clone().not());

            match (yes, no) {
                (true, true) => (true, true),
                (true, false) => (true, false),
                (false, true) => (false, false),
                (false, false) => panic_any(Abort),
            }
        },
    };

    ses(|s| {
        s.trail.push((value, open));
        s.pc.push(if value { f } else { f.not() });
    });

    value
}

fn feasible(f: &Formula) -> bool {
    // A symbolic boolean that does not occur on the path yet is free both ways.
    let (fs, mode, trivially) = ses(|s| {
        let mut fs = s.pc.clone();
        let triv = matches!(f, Formula::Bool(_))
            || matches!(f, Formula::Not(g) if matches!(**g, Formula::Bool(_)));
        fs.push(f.clone());
        (fs, s.mode, triv)
    });
    if trivially {
        return true;
    }
    ses(|s| s.feasibility += 1);

    !matches!(query(&fs, mode, smt::QUICK), Answer::Unsat)
}

fn query(fs: &[Formula], mode: Mode, budget: &[(&'static str, u64)]) -> Answer {
    if fs.iter().any(|f| *f == Formula::False) {
        return Answer::Unsat;
    }
    // definedness of every term the formulas speak about is part of what they say
    let script = encode(fs, mode);
    let mut solver = ses(|s| std::mem::take(&mut s.solver));
    let a = solver.check(&script, budget);
    ses(|s| s.solver = solver);

    a
}

/// Restrict the inputs.  Only before any obligation: assumptions are not retroactive.
pub fn assume(f: Formula) {
    match ses(|s| s.kind) {
        Kind::Nat => {
            if f != Formula::True {
                panic_any(Skip)
            }
        },
        _ => {
            ses(|s| assert!(s.obs.is_empty(), "symx: assumption after an obligation"));
            if f == Formula::False {
                panic_any(Abort)
            }
            if f != Formula::True {
                ses(|s| s.pc.push(f))
            }
        },
    }
}

pub fn obligation(label: &str, f: Formula, pair: Option<(Id, Id)>) {
    ses(|s| s.obs.push(Ob { label: label.to_string(), f, pair }))
}

/// Assert a formula on the current path.
pub fn check(label: &str, f: Formula) {
    match ses(|s| s.kind) {
        Kind::Nat => {
            if f != Formula::True {
                ses(|s| s.fails.push((label.to_string(), "does not hold".into())))
            }
        },
        _ => obligation(label, f, None),
    }
}

/// Whether two native results are told apart.
pub fn differ(got: f64, want: f64) -> bool {
    ses(|s| {
        if s.mode == Mode::Fp {
            !(got == want || (got.is_nan() && want.is_nan()))
        } else if want.is_nan() || want.is_infinite() {
            false
        } else {
            // far from the origin, rounding alone may cost digits
            let mild = s.env.iter().all(|(k, v)| !s.reads.contains_key(k) || v.abs() <= 1e3);
            let tol = if mild { 1e-6 } else { 1e-3 };
            !((got - want).abs() <= tol * (1.0 + got.abs().max(want.abs())))
        }
    })
}

pub fn native_eq(label: &str, got: f64, want: f64) {
    ses(|s| s.vals.push((got, want)));
    if differ(got, want) {
        ses(|s| s.fails.push((label.to_string(), format!("got {:?}, want {:?}", got, want))));
    }
}

pub fn native() -> bool {
    ses(|s| s.kind == Kind::Nat)
}

pub struct Native {
    pub skipped: bool,
    pub fails: Vec<(String, String)>,
    pub reads: BTreeMap<String, String>,
    vals: Vec<(f64, f64)>,
}

pub fn run_native(case: &Case, env: HashMap<String, f64>, benv: HashMap<String, bool>, seed: u64) -> Native {
    FP.with(|f| f.set(case.mode == Mode::Fp));
    ses(|s| {
        s.kind = Kind::Nat;
        s.mode = case.mode;
        s.env = env;
        s.benv = benv;
        s.fails.clear();
        s.vals.clear();
        s.reads.clear();
        s.rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    });
    let r = catch_unwind(AssertUnwindSafe(|| (case.nat)()));
    ses(|s| s.kind = Kind::Idle);
    let mut skipped = false;
    let mut fails = ses(|s| s.fails.clone());

    if let Err(e) = r {
        if e.downcast_ref::<Skip>().is_some() {
            skipped = true;
            fails.clear();
        } else {
            fails.push(("panic".into(), PANIC.with(|p| p.borrow().clone())));
        }
    }

    Native { skipped, fails, reads: ses(|s| s.reads.clone()), vals: ses(|s| s.vals.clone()) }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub env: Vec<(String, f64)>,
    pub benv: Vec<(String, bool)>,
    pub reads: Vec<(String, String)>,
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub paths: u64,
    pub decisions: u64,
    pub obligations: u64,
    pub folded: u64,
    pub discharged: u64,
    pub queries: u64,
    pub solver_ms: u64,
    pub slowest_ms: u64,
    pub by_solver: BTreeMap<&'static str, u64>,
    pub witnessed: u64,
    pub validated: u64,
    pub mismatches: Vec<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub sample: String,
    pub native_runs: u64,
}

/// Explore one case completely.
pub fn explore(case: &Case, seed: u64, late: &dyn Fn() -> bool, max_paths: u64) -> Outcome {
    let mut o = Outcome::default();
    FP.with(|f| f.set(case.mode == Mode::Fp));
    let mut prefix: Vec<(bool, bool)> = vec![];

    ses(|s| {
        s.solver = Solver::default();
        s.mode = case.mode;
        s.inputs.clear();
    });

    loop {
        term::reset(case.mode);
        ses(|s| {
            s.kind = Kind::Sym;
            s.mode = case.mode;
            s.prefix = prefix.clone();
            s.trail.clear();
            s.pc.clear();
            s.obs.clear();
        });

        let r = catch_unwind(AssertUnwindSafe(|| (case.sym)()));
        ses(|s| s.kind = Kind::Idle);
        let aborted = matches!(&r, Err(e) if e.downcast_ref::<Abort>().is_some());
        let panicked = if r.is_err() && !aborted { Some(PANIC.with(|p| p.borrow().clone())) } else { None };

        if !aborted {
            o.paths += 1;
            finish_path(case, panicked, &mut o, seed);
        }

        // next path: flip the last open decision
        let trail = ses(|s| s.trail.clone());
        o.decisions += (trail.len() - prefix.len().min(trail.len())) as u64;
        match trail.iter().rposition(|t| t.1) {
            Some(i) => {
                prefix = trail[..i].to_vec();
                prefix.push((!trail[i].0, false));
            },
            None => break,
        }
        if o.violations.len() >= 40 {
            break;
        }
        if o.paths >= max_paths {
            o.inconclusive.push(format!("path limit {} reached", max_paths));
            break;
        }
        if late() {
            o.inconclusive.push("time limit reached".into());
            break;
        }
    }

    let solver = ses(|s| std::mem::take(&mut s.solver));
    o.queries = solver.queries;
    o.solver_ms = solver.time.as_millis() as u64;
    o.slowest_ms = solver.slowest.as_millis() as u64;
    o.by_solver = solver.by_solver.clone();

    o
}

fn finish_path(case: &Case, panicked: Option<String>, o: &mut Outcome, seed: u64) {
    let (pc, obs) = ses(|s| (s.pc.clone(), s.obs.clone()));

    // Reachability witness: the path condition itself must be satisfiable.
    let reach = query(&pc, case.mode, smt::QUICK);
    if reach == Answer::Unsat {
        o.paths -= 1;
        return;
    }
    let witness = match &reach {
        Answer::Sat(e, b) => {
            o.witnessed += 1;
            Some((e.clone(), b.clone()))
        },
        _ => None,
    };
    if o.sample.is_empty() {
        o.sample = obs
            .iter()
            .find_map(|ob| ob.pair.filter(|p| p.0 != p.1).or(ob.pair).map(|p| (ob, p)))
            .map(|(ob, p)| {
                let mut t = format!("{}: {} == {}", ob.label, term::show(p.0), term::show(p.1));
                if t.len() > 400 {
                    t = t.chars().take(400).collect::<String>() + "…";
                }
                t
            })
            .unwrap_or_else(|| obs.first().map(|ob| ob.label.clone()).unwrap_or_default());
    }

    if let Some((env, benv)) = &witness {
        validate(case, env, benv, &obs, panicked.is_some(), o, seed);
    }

    if let Some(msg) = panicked {
        if msg.starts_with("symx:") {
            o.inconclusive.push(msg);
        } else {
            confirm(case, &format!("panic: {}", msg), witness.clone(), o, seed);
        }
        // obligations collected before the panic are still checked below
    }

    o.obligations += obs.len() as u64;
    let mut seen = BTreeSet::new();
    let goals: Vec<&Ob> = obs
        .iter()
        .filter(|ob| {
            if ob.f == Formula::True {
                o.folded += 1;
                false
            } else {
                seen.insert(format!("{:?}", ob.f)) || {
                    o.folded += 1;
                    false
                }
            }
        })
        .collect();

    // Obligations whose two sides the simplifier made one term: the solver confirms them together.
    let folded: Vec<Formula> = obs
        .iter()
        .filter(|ob| ob.f == Formula::True)
        .filter_map(|ob| ob.pair.filter(|p| p.0 == p.1).map(|p| Formula::Eq(p.0, p.1).not()))
        .collect();
    if goals.is_empty() && !folded.is_empty() && case.mode == term::Mode::Real {
        let mut q = pc.clone();
        q.push(Formula::Or(folded));
        match query(&q, case.mode, smt::QUICK) {
            Answer::Unsat => {},
            a => o.inconclusive.push(format!("solver does not confirm the simplifier: {:?}", a)),
        }
    }

    // One query for all, then one each if that one does not settle it.
    for chunk in goals.chunks(24) {
        let mut q = pc.clone();
        q.push(Formula::or(chunk.iter().map(|g| g.f.clone().not()).collect()));
        if query(&q, case.mode, smt::QUICK) == Answer::Unsat {
            o.discharged += chunk.len() as u64;
            continue;
        }
        for g in chunk {
            let mut q = pc.clone();
            q.push(g.f.clone().not());
            match query(&q, case.mode, smt::FULL) {
                Answer::Unsat => o.discharged += 1,
                Answer::Sat(e, b) => confirm(case, &g.label, Some((e, b)), o, seed),
                Answer::Unknown(why) => {
                    let n = o.violations.len();
                    let m = o.inconclusive.len();
                    confirm(case, &g.label, witness.clone(), o, seed);
                    if o.violations.len() == n {
                        o.inconclusive.truncate(m);
                        o.inconclusive.push(format!("{}: solver gave up ({})", g.label, why));
                    }
                },
            }
            if o.violations.len() >= 40 {
                return;
            }
        }
    }
}

/// Compare the terms with the real code run natively on the same inputs.
fn validate(
    case: &Case,
    env: &HashMap<String, f64>,
    benv: &HashMap<String, bool>,
    obs: &[Ob],
    panicked: bool,
    o: &mut Outcome,
    seed: u64,
) {
    let n = run_native(case, env.clone(), benv.clone(), seed);
    o.native_runs += 1;
    if n.skipped || panicked {
        return;
    }
    let full: HashMap<String, f64> = ses(|s| s.env.clone());
    // a model may interpret a transcendental function in a way the native one does not: then the
    // native run takes another path and says nothing about this one
    if !ses(|s| s.pc.clone()).iter().all(|f| f.holds(&full, benv)) {
        return;
    }
    let pairs: Vec<_> = obs.iter().filter_map(|ob| ob.pair.map(|p| (&ob.label, p))).collect();
    if pairs.len() != n.vals.len() {
        return;
    }
    let close = |a: f64, b: f64| {
        (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()))
    };
    for ((label, p), v) in pairs.iter().zip(&n.vals) {
        let (g, w) = (term::eval(p.0, &full), term::eval(p.1, &full));
        // not-a-number on either side means the point left the function's domain in f64
        if g.is_finite() && v.0.is_finite() && w.is_finite() && v.1.is_finite() && !(close(g, v.0) && close(w, v.1)) {
            o.mismatches.push(format!("{}: encoded {:?}/{:?}, native {:?}/{:?}", label, g, w, v.0, v.1));
            return;
        }
    }
    o.validated += 1;
}

/// Replay a model against the real code on `f64`; only what reproduces is a violation.
fn confirm(
    case: &Case,
    label: &str,
    model: Option<(HashMap<String, f64>, HashMap<String, bool>)>,
    o: &mut Outcome,
    seed: u64,
) {
    let mut tries: Vec<(HashMap<String, f64>, HashMap<String, bool>)> = vec![];
    let (menv, mben) = model.clone().unwrap_or_default();
    tries.push((menv.clone(), mben.clone()));

    // the branch choices of the path, with the numbers left to sampling around the model
    let names: Vec<String> = ses(|s| s.inputs.iter().cloned().collect());
    let mut rng = seed.wrapping_add(77).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for k in 0..4000u32 {
        let mut e = HashMap::new();
        for n in &names {
            let m = menv.get(n).copied();
            let r = next(&mut rng) % 4;
            match (m, r, k % 4) {
                (Some(v), 0, _) | (Some(v), _, 0) if k % 8 != 7 => {
                    let j = if k % 8 == 4 { (next(&mut rng) % 1000) as f64 * 1e-4 } else { 0.0 };
                    e.insert(n.clone(), v + j);
                },
                _ => {
                    e.insert(n.clone(), sample(&mut rng));
                },
            }
        }
        tries.push((e, mben.clone()));
    }

    for (k, (e, b)) in tries.into_iter().enumerate() {
        let n = run_native(case, e, b, seed + k as u64);
        o.native_runs += 1;
        if n.skipped || n.fails.is_empty() {
            continue;
        }
        let (env, benv) = ses(|s| (s.env.clone(), s.benv.clone()));
        let (l, d) = n.fails.iter().find(|f| f.0 == label).unwrap_or(&n.fails[0]).clone();
        let mut env: Vec<_> = env.into_iter().filter(|(k, _)| n.reads.contains_key(k)).collect();
        let mut benv: Vec<_> = benv.into_iter().filter(|(k, _)| n.reads.contains_key(k)).collect();
        env.sort_by(|a, b| a.0.cmp(&b.0));
        benv.sort();
        if !o.violations.iter().any(|v| v.label == l) {
            o.violations.push(Violation {
                label: l,
                detail: d,
                env,
                benv,
                reads: n.reads.into_iter().collect(),
            });
        }
        return;
    }

    o.inconclusive.push(format!("{}: counterexample does not reproduce natively", label));
}
