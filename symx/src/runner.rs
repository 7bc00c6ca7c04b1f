//! Runs the cases of one property on all cores and reports JSON.
use crate::session::{self, explore, install_panic_hook, run_native, Case, Outcome};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Command line: `--out FILE --seconds N --seed N --thorough --only SUBSTRING --list
/// --replay FILE` where FILE is what a violation wrote (`case`, then `name=value` lines).
pub fn main_with(property: &str, cases: Vec<Case>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();

    let all = ["--thorough", "--replay", "--list"].iter().any(|k| args.iter().any(|a| a == k));
    let cases: Vec<Case> = cases.into_iter().filter(|c| all || !c.deep).collect();
    {
        let mut ids: Vec<&str> = cases.iter().map(|c| c.id.as_str()).collect();
        ids.sort();
        for w in ids.windows(2) {
            assert!(w[0] != w[1], "duplicate case {}", w[0]);
        }
    }
    if args.iter().any(|a| a == "--list") {
        for c in &cases {
            println!("{}", c.id);
        }
        return;
    }
    install_panic_hook();
    if let Some(f) = opt("--replay") {
        std::process::exit(replay(&cases, &f));
    }

    let seconds: u64 = opt("--seconds").and_then(|s| s.parse().ok()).unwrap_or(600);
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let max_paths: u64 = opt("--paths").and_then(|s| s.parse().ok()).unwrap_or(200_000);
    let only = opt("--only");
    if args.iter().any(|a| a == "--thorough") {
        session::set_thorough();
    }
    let verbose = args.iter().any(|a| a == "-v");
    let todo: Vec<&Case> =
        cases.iter().filter(|c| only.as_ref().map_or(true, |o| c.id.contains(o.as_str()))).collect();
    let start = Instant::now();
    // Shared by the workers: the first violation of an unknown kind leaves the others little time.
    let stop = AtomicU64::new(seconds * 1000);
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, Outcome, f64)>> = Mutex::new(vec![]);
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(todo.len().max(1));

    std::thread::scope(|sc| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= todo.len() {
                        break;
                    }
                    let t0 = Instant::now();
                    // code that branches on the entries of a long buffer cannot be explored
                    let cap = if todo[i].id.contains("long") { seconds / 5 } else { seconds * 3 / 5 };
                    let late = || start.elapsed().as_millis() as u64 > stop.load(Ordering::SeqCst) || t0.elapsed().as_secs() > cap;
                    let o = explore(todo[i], seed, &late, max_paths);
                    if !o.violations.is_empty() && !todo[i].id.starts_with("known/") {
                        stop.fetch_min(start.elapsed().as_millis() as u64 + 40_000, Ordering::SeqCst);
                    }
                    let dt = t0.elapsed().as_secs_f64();
                    if verbose {
                        println!(
                            "{:<60} {:6.2}s paths {} obl {} folded {} viol {} inconcl {} mism {}",
                            todo[i].id, dt, o.paths, o.obligations, o.folded,
                            o.violations.len(), o.inconclusive.len(), o.mismatches.len()
                        );
                    }
                    results.lock().unwrap().push((i, o, dt));
                })
                .unwrap();
        }
    });

    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);

    let mut tot = Outcome::default();
    let mut by: BTreeMap<&str, u64> = BTreeMap::new();
    let mut js = String::new();
    let mut cj = vec![];
    let mut viol = vec![];
    let mut inc = vec![];
    let mut samples = vec![];

    for (i, o, dt) in &results {
        let c = todo[*i];
        tot.paths += o.paths;
        tot.decisions += o.decisions;
        tot.obligations += o.obligations;
        tot.folded += o.folded;
        tot.discharged += o.discharged;
        tot.queries += o.queries;
        tot.solver_ms += o.solver_ms;
        tot.slowest_ms = tot.slowest_ms.max(o.slowest_ms);
        tot.witnessed += o.witnessed;
        tot.validated += o.validated;
        tot.native_runs += o.native_runs;
        for (k, n) in &o.by_solver {
            *by.entry(k).or_insert(0) += n;
        }
        cj.push(format!(
            "{{\"id\":{},\"paths\":{},\"obligations\":{},\"queries\":{},\"seconds\":{:.3}}}",
            esc(&c.id), o.paths, o.obligations, o.queries, dt
        ));
        for m in &o.inconclusive {
            inc.push(format!("{}: {}", c.id, m));
        }
        for m in &o.mismatches {
            inc.push(format!("{}: encoding and native run disagree: {}", c.id, m));
        }
        if o.paths > 0 && o.obligations == 0 && o.violations.is_empty() {
            inc.push(format!("{}: no obligation reached", c.id));
        }
        if o.paths == 0 && o.violations.is_empty() {
            inc.push(format!("{}: no feasible path", c.id));
        }
        if o.witnessed == 0 && o.violations.is_empty() && o.paths > 0 {
            inc.push(format!("{}: no path witnessed by a model", c.id));
        }
        for v in &o.violations {
            let mut lines = vec![format!("property={}", property), format!("case={}", c.id)];
            lines.push(format!("# {}: {}", v.label, v.detail.replace('\n', " ")));
            lines.extend(v.env.iter().map(|(k, x)| format!("num {}={:?}", k, x)));
            lines.extend(v.benv.iter().map(|(k, x)| format!("bool {}={}", k, x)));
            viol.push(format!(
                "{{\"case\":{},\"label\":{},\"detail\":{},\"replay\":[{}]}}",
                esc(&c.id),
                esc(&v.label),
                esc(&v.detail),
                lines.iter().map(|l| esc(l)).collect::<Vec<_>>().join(",")
            ));
        }
        if !o.sample.is_empty() && samples.len() < 400 {
            samples.push(format!("{}: {}", c.id, o.sample));
        }
    }
    let step = (samples.len() / 12).max(1);
    let samples: Vec<String> = samples.iter().step_by(step).take(12).map(|s| esc(s)).collect();

    let _ = write!(
        js,
        "{{\"property\":{},\"cases\":{},\"paths\":{},\"decisions\":{},\"obligations\":{},\"folded\":{},\"discharged\":{},\"queries\":{},\"solver_ms\":{},\"slowest_ms\":{},\"witnessed\":{},\"validated\":{},\"native_runs\":{},\"wall_s\":{:.2},\"by_solver\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"inconclusive\":[{}],\"per_case\":[{}]}}",
        esc(property),
        results.len(),
        tot.paths,
        tot.decisions,
        tot.obligations,
        tot.folded,
        tot.discharged,
        tot.queries,
        tot.solver_ms,
        tot.slowest_ms,
        tot.witnessed,
        tot.validated,
        tot.native_runs,
        start.elapsed().as_secs_f64(),
        by.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect::<Vec<_>>().join(","),
        samples.join(","),
        viol.join(","),
        inc.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        cj.join(",")
    );
    if let Some(f) = opt("--out") {
        std::fs::write(&f, &js).expect("write result");
    }
    println!(
        "{}: {} cases, {} paths, {} obligations ({} folded, {} discharged), {} queries, {} ms solver (slowest {}), {} validated, {} violations, {} inconclusive, {:.1} s",
        property, results.len(), tot.paths, tot.obligations, tot.folded, tot.discharged, tot.queries,
        tot.solver_ms, tot.slowest_ms, tot.validated, viol.len(), inc.len(), start.elapsed().as_secs_f64()
    );
    for v in viol.iter().take(if verbose { 1000 } else { 20 }) {
        println!("  violation {}", v);
    }
    for v in inc.iter().take(if verbose { 1000 } else { 20 }) {
        println!("  inconclusive {}", v);
    }
    std::process::exit(if !viol.is_empty() { 1 } else if !inc.is_empty() { 2 } else { 0 });
}

fn replay(cases: &[Case], file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let mut id = String::new();
    let mut env = HashMap::new();
    let mut ben = HashMap::new();

    for l in text.lines() {
        if let Some(v) = l.strip_prefix("case=") {
            id = v.to_string();
        } else if let Some((k, v)) = l.strip_prefix("num ").and_then(|l| l.split_once('=')) {
            env.insert(k.to_string(), v.parse::<f64>().expect("number"));
        } else if let Some((k, v)) = l.strip_prefix("bool ").and_then(|l| l.split_once('=')) {
            ben.insert(k.to_string(), v == "true");
        }
    }
    let case = match cases.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            println!("no case {}", id);
            return 2;
        },
    };
    let n = run_native(case, env, ben, 1);
    for (k, v) in &n.reads {
        println!("  {} = {}", k, v);
    }
    for (l, d) in &n.fails {
        println!("FAILS {}: {}", l, d);
    }
    let _ = session::native();
    if n.fails.is_empty() {
        println!("holds");
        0
    } else {
        1
    }
}
