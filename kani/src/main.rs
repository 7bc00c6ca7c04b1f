//! Native runs of the harnesses: `replay HARNESS FILE` (bytes), `replay --random HARNESS SEED RUNS`.
#![cfg(not(kani))]
use aegir_kani::io::{Mode, Skip, MODE, REACHED};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn run(f: fn()) -> Result<bool, String> {
    REACHED.with(|r| r.set(false));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Ok(REACHED.with(|r| r.get())),
        Err(e) if e.downcast_ref::<Skip>().is_some() => Ok(false),
        Err(e) => Err(e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let text = i.to_string();
        if let Some(at) = text.find("unsafe precondition") {
            eprintln!("{}", text[at..].replace('\n', " "));
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let table = aegir_kani::table();
    if a[1] == "--list" {
        table.iter().for_each(|t| println!("{}", t.0));
        return;
    }
    if a[1] == "--random" {
        let (seed, runs): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
        for (n, f) in table.iter().filter(|t| t.0.starts_with(&a[2])) {
            let (mut ok, mut bad) = (0, vec![]);
            for k in 0..runs {
                let s = (seed + k).wrapping_mul(0x9E3779B97F4A7C15) | 1;
                MODE.with(|m| *m.borrow_mut() = Mode::Random(s));
                match run(*f) {
                    Ok(r) => ok += r as u64,
                    Err(e) => bad.push(e),
                }
            }
            println!("{} reached={} failed={} {}", n, ok, bad.len(), bad.first().cloned().unwrap_or_default());
        }
        return;
    }
    let f = table.iter().find(|t| t.0 == a[1]).expect("unknown harness").1;
    let text = std::fs::read_to_string(&a[2]).expect("replay file");
    let bytes = text
        .lines()
        .filter_map(|l| l.strip_prefix("bytes="))
        .map(|l| l.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        .collect();
    MODE.with(|m| *m.borrow_mut() = Mode::Bytes(bytes));
    match run(f) {
        Ok(true) => println!("PASS {}", a[1]),
        Ok(false) => println!("SKIP {}", a[1]),
        Err(e) => {
            println!("FAIL {}: {}", a[1], e.replace('\n', " "));
            std::process::exit(1);
        },
    }
}
