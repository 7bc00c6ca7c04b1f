#!/usr/bin/env python3
"""Decide one property of /repo's current tree.

  check.py CXX                 quick tier
  check.py CXX --thorough      thorough tier
  check.py CXX --replay FILE   run the recorded counterexample against the real code

Exit 0: the property held on everything explored.  Exit 1: a `VIOLATION property=.. replay=..` line
was printed.  Exit 2: no answer (build failure, solver gave up, time ran out).
"""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import kanirun  # noqa: E402
from props import PROPS  # noqa: E402

STABLE = "stable-x86_64-unknown-linux-gnu"
WORK = os.path.join(HERE, ".work")


def env():
    e = dict(os.environ)
    e.update(
        CARGO_TARGET_DIR=os.path.join(HERE, "symx", "target"),
        RUSTUP_TOOLCHAIN=STABLE,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUST_BACKTRACE="0",
    )
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def build(binary, deep=False):
    t0 = time.time()
    cmd = ["cargo", "rustc", "--offline", "--quiet", "--bin", binary]
    if deep:
        cmd += ["--features", "deep"]
    cwd = os.path.join(HERE, "symx")
    p = None
    try:
        # the parallel front end only makes the build faster; without it should it not work
        p = subprocess.run(cmd + ["--", "-Zthreads=8"], cwd=cwd, env=dict(env(), RUSTC_BOOTSTRAP="1"),
                           capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        pass
    if p is None or p.returncode != 0:
        p = subprocess.run(cmd, cwd=cwd, env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        print(p.stdout[-2000:] + p.stderr[-6000:])
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return os.path.join(HERE, "symx", "target", "debug", binary), time.time() - t0


def known_findings(prop):
    """`finding: property=<id> case=<case> label=<label prefix> :: what fails`"""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path, encoding="utf-8"):
        m = re.match(r"finding: property=(\S+) case=(.*?) label=(.*?) :: (.*)$", line.strip())
        if m and m.group(1) == prop:
            out.append(m.groups()[1:])
    return out


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    if "--replay" in sys.argv:
        f = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        sys.exit(replay(cfg, f))
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)

    # errors: no answer; undecided: (part, what) for single cases or harnesses without a verdict
    violations, errors, undecided = [], [], []
    sx, kn = None, None
    if cfg.get("bin"):
        exe, built = build(cfg["bin"], tier == "thorough")
        out = os.path.join(WORK, prop + ".json")
        if os.path.exists(out):
            os.remove(out)
        limit = 3000 if tier == "thorough" else 500
        cmd = [exe, "--out", out, "--seconds", str(limit), "--seed", str(seed)]
        if tier == "thorough":
            cmd.append("--thorough")
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 200, env=env())
            log = p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            log, p = "time limit", None
        if p is None or p.returncode not in (0, 1, 2) or not os.path.exists(out):
            print(log[-4000:])
            errors.append("symbolic execution did not finish")
        else:
            sx = json.load(open(out, encoding="utf-8"))
            sx["build_s"] = round(built, 1)
            violations += sx["violations"]
            undecided += sx["inconclusive"]
            # a long buffer whose entries decide branches is beyond exploration; its short siblings decide
            if too_many(sum(any(u.startswith(c["id"] + ": ") for u in sx["inconclusive"]) for c in sx["per_case"]
                            if "long" not in c["id"]), sx["cases"]):
                errors += sx["inconclusive"]
    known = known_findings(prop)
    found = any(not any(v["case"] == k[0] and v["label"].startswith(k[1]) for k in known) for v in violations)
    if cfg.get("kani") and not (found and tier == "quick"):
        kn = kanirun.run(prop, cfg["kani"], tier, seed)
        violations += kn["violations"]
        errors += kn["errors"]
        undecided += kn["undecided"]
        if too_many(len(kn["undecided"]), kn["harnesses"]) and not (sx and kn["tool_failed"]):
            errors += kn["undecided"]

    new, hit = [], []
    for v in violations:
        k = next((k for k in known if v["case"] == k[0] and v["label"].startswith(k[1])), None)
        if k is None:
            new.append(v)
        elif k not in hit:
            hit.append(k)
    for k in hit:
        print("KNOWN-FINDING: property=%s %s (case %s)" % (prop, k[2], k[0]))

    write_evidence(prop, cfg, tier, seed, time.time() - t0, sx, kn, new, hit, errors, undecided)
    if new:
        # one line per violation, the replay file being the counterexample itself
        for i, v in enumerate(new[:20]):
            path = os.path.join(HERE, "replays", "%s-%d.txt" % (prop, i))
            with open(path, "w", encoding="utf-8") as f:
                f.write("\n".join(v["replay"]) + "\n")
            print("case %s: %s: %s" % (v["case"], v["label"], v["detail"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print("INCONCLUSIVE %s" % e)
        sys.exit(2)
    for u in undecided[:20]:
        print("NOT-DECIDED property=%s %s" % (prop, u))
    parts = []
    if sx:
        parts.append("%d cases, %d paths, %d obligations" % (sx["cases"], sx["paths"], sx["obligations"]))
    if kn:
        parts.append("%d Kani harnesses, %d checks" % (kn["harnesses"], kn["checks"]))
    print("%s holds within its bounds: %s (%.1f s)" % (prop, "; ".join(parts), time.time() - t0))
    sys.exit(0)


def too_many(undecided, total):
    """Up to one case in twenty (or a single one) may be left open, and is named; beyond, there is no answer."""
    return undecided > max(1, total // 20)


def write_evidence(prop, cfg, tier, seed, wall, sx, kn, new, hit, errors, undecided):
    cov = {
        "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
        "functions_encoded": cfg["functions"],
        "bounds": cfg["bounds"],
        "known_findings_reproduced": [list(k) for k in hit],
        "undecided": undecided + [e for e in errors if e not in undecided],
    }
    if sx:
        cov["states"] += sx["paths"]
        cov["transitions"] += sx["decisions"]
        cov["traces_validated_against_impl"] += sx["validated"]
        cov["samples"] += sx["samples"]
        cov["symbolic_execution"] = {
            "cases": sx["cases"], "paths_with_satisfying_witness": sx["witnessed"],
            "obligations": sx["obligations"], "identical_terms": sx["folded"],
            "discharged_by_solver": sx["discharged"], "solver_queries": sx["queries"],
            "solver_ms": sx["solver_ms"], "slowest_query_ms": sx["slowest_ms"],
            "answers_by_solver": sx["by_solver"], "native_runs": sx["native_runs"],
            "build_s": sx["build_s"], "run_s": sx["wall_s"],
        }
    if kn:
        cov["states"] += kn["harnesses"]
        cov["transitions"] += kn["checks"]
        cov["traces_validated_against_impl"] += kn["validated"]
        cov["samples"] += kn["samples"]
        cov["kani"] = {k: kn[k] for k in ("harnesses", "names", "checks", "covers", "solver_s", "slowest_s", "wall_s")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": cov, "assumptions": cfg["assumptions"],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


def replay(cfg, path):
    text = open(path, encoding="utf-8").read()
    if re.search(r"^harness=", text, re.M):
        return kanirun.replay(path)
    exe, _ = build(cfg["bin"])
    return subprocess.run([exe, "--replay", path], env=env()).returncode


if __name__ == "__main__":
    main()
