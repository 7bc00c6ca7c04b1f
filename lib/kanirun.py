"""Bounded model checking of the compiled crate with Kani; counterexamples are replayed natively."""
import os
import re
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(HERE, "kani")
WORK = os.path.join(HERE, ".work")
TIMEOUT = {"quick": 240, "thorough": 1500}

# What cannot be decided is not a violation.
UNDECIDED = re.compile(r"unwinding assertion|not currently supported|unsupported|recursion unwinding")
# Undefined behaviour need not show natively: such counterexamples are replayed under Miri.
UB = re.compile(r"pointer|dereference|uninitialized|undefined|alignment|invalid value|memory|bounds|unreachable|"
                r"object|offset|allocat|free|intrinsic|assum|safety|precondition")


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUSTFLAGS="-Awarnings")
    for k in ("CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def native_cmd(deep):
    return ["cargo", "+stable", "build", "--offline", "--quiet", "--bin", "replay",
            "--target-dir", os.path.join(WORK, "kani-native")] + (["--features", "deep"] if deep else [])


EXE = os.path.join(WORK, "kani-native", "debug", "replay")


def kani(args, deep, limit):
    cmd = ["cargo", "kani", "--lib", "--target-dir", os.path.join(WORK, "kani"), "--no-assertion-reach-checks"]
    if deep:
        cmd += ["--features", "deep"]
    try:
        p = subprocess.run(cmd + args, cwd=CRATE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=limit, errors="replace")
        return p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return out.decode(errors="replace") if isinstance(out, bytes) else out


def parse(text):
    """Results per harness from the terse multi-threaded output."""
    name, res, cur = {}, {}, None
    for line in text.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            name[m.group(1)] = m.group(2)
            cur = m.group(2) if m.group(1) is None else cur
            if m.group(1) is None:
                res.setdefault(cur, "")
            continue
        m = re.match(r"Thread (\d+):(.*)", line)
        if m and m.group(1) in name:
            cur = name[m.group(1)]
            res.setdefault(cur, "")
            continue
        if line.startswith("Manual Harness Summary"):
            cur = None
        if cur:
            res[cur] = res.get(cur, "") + line + "\n"
    out = {}
    for n, t in res.items():
        m = re.search(r"\*\* (\d+) of (\d+) failed", t)
        c = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", t)
        tm = re.search(r"Verification Time: ([\d.]+)", t)
        out[n.split("::")[-1]] = {
            "path": n,
            "ok": "VERIFICATION:- SUCCESSFUL" in t,
            "done": "VERIFICATION:-" in t and tm is not None,
            "checks": int(m.group(2)) if m else 0,
            "covered": bool(c) and c.group(1) == c.group(2),
            "time": float(tm.group(1)) if tm else 0.0,
            "failed": re.findall(r"^Failed Checks: (.*)$", t, re.M),
        }
    return out


def vectors(text):
    """The byte lists of the printed concrete playback tests, failing checks first."""
    out = []
    for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(1))]
        if vals not in out:
            out.append(vals)
    return out


def write_replay(path, harness, vals):
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(["harness=" + harness] + ["bytes=" + ",".join(map(str, v)) for v in vals]) + "\n")


def run_native(path, harness, miri=False):
    """(failed, message)"""
    if miri:
        e = env()
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", os.path.join(WORK, "miri"),
               "--bin", "replay", "--", harness, path]
    else:
        e, cmd = env(), [EXE, harness, path]
    try:
        p = subprocess.run(cmd, cwd=CRATE, env=e, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, "time limit"
    m = re.search(r"^FAIL \S+: (.*)$", p.stdout, re.M)
    if m:
        return not harness.endswith("_or_panics"), m.group(1)
    m = re.search(r"^error: (Undefined Behavior.*)$", p.stderr, re.M) or \
        re.search(r"(unsafe precondition\(s\) violated.*)$", p.stderr, re.M)
    if m:
        return True, m.group(1)
    if p.returncode < 0:
        return True, "terminated by signal %d" % -p.returncode
    return False, (p.stdout + p.stderr)[-300:]


def tolerated(n, f):
    """Harnesses of operations that may stop with a panic, but not touch what is not theirs."""
    return n.endswith("_or_panics") and (re.match(r"index out of bounds|range |slice index|attempt to|internal error: entered", f)
                                         or not (UB.search(f) or re.match(r"read something|length", f)))


def confirm(prop, n, r, deep):
    """Turn a failed harness into a violation that the real code reproduces, or into an error."""
    real = [f for f in r["failed"] if not UNDECIDED.search(f) and not tolerated(n, f)]
    if not real:
        return None, "%s: %s" % (n, "; ".join(r["failed"])[:300] or "no verdict")
    text = kani(["--harness", r["path"], "--exact", "-Z", "concrete-playback", "--concrete-playback=print"], deep, 400)
    tmp = os.path.join(WORK, "%s.replay" % n)
    vecs = vectors(text) or [[]]
    for miri in (True,) if n.endswith("_or_panics") else (False, True):
        if miri and not any(UB.search(f) for f in real):
            break
        for vals in vecs:
            write_replay(tmp, n, vals)
            bad, msg = run_native(tmp, n, miri)
            if bad:
                lines = open(tmp, encoding="utf-8").read().splitlines()
                lines.insert(0, "property=%s" % prop)
                if miri:
                    lines.insert(1, "interpreter=miri")
                lines.append("# Kani: " + "; ".join(real)[:400].replace("\n", " "))
                lines.append("# " + ("Miri: " if miri else "native: ") + msg[:400])
                return {"case": n, "label": msg.split(":")[0] if miri else msg, "detail": "; ".join(real)[:300], "replay": lines}, None
    return None, "%s: counterexample does not reproduce natively (%s)" % (n, "; ".join(real)[:300])


def run(prop, prefixes, tier, seed):
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    deep = tier == "thorough"
    res = {"violations": [], "errors": [], "undecided": [], "tool_failed": False, "harnesses": 0, "checks": 0, "covers": 0, "slowest_s": 0.0,
           "solver_s": 0.0, "wall_s": 0.0, "validated": 0, "samples": [], "names": []}
    build = subprocess.Popen(native_cmd(deep), cwd=CRATE, env=env(), stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True)
    args = ["--output-format", "terse", "-j", "8", "-Z", "unstable-options",
            "--harness-timeout", "%ds" % TIMEOUT[tier]]
    for p in prefixes:
        args += ["--harness", p]
    text = kani(args, deep, 640 if tier == "quick" else 5000)
    with open(os.path.join(WORK, "kani-%s.log" % prop), "w", encoding="utf-8") as f:
        f.write(text)
    log, _ = build.communicate(timeout=600)
    if build.returncode != 0:
        res["errors"].append("the native harnesses do not build against /repo: " + log[-1500:])
        return res
    got = parse(text)
    want = subprocess.run([EXE, "--list"], env=env(), capture_output=True, text=True).stdout.split()
    want = [n for n in want if any(n.startswith(p) for p in prefixes)]
    if not want:
        res["errors"].append("no harness")
    if want and not got and "internal compiler error" in text:
        # Kani itself fails on some harness: give each one its own compilation
        res["tool_failed"] = True
        end = time.time() + (420 if tier == "quick" else 4000)
        for n in want:
            if time.time() > end:
                break
            got.update(parse(kani(["--output-format", "terse", "--harness", n], deep, TIMEOUT[tier])))
    elif want and not got:
        res["errors"].append("Kani did not run: " + text[-1500:])
        return res
    for n in want:
        r = got.get(n)
        res["harnesses"] += 1
        res["names"].append(n)
        if r is None or not r["done"]:
            res["undecided"].append("%s: no verdict within the time limit" % n)
            continue
        res["checks"] += r["checks"]
        res["solver_s"] = round(res["solver_s"] + r["time"], 2)
        res["slowest_s"] = max(res["slowest_s"], r["time"])
        res["covers"] += r["covered"]
        if r["ok"] or (r["failed"] and all(tolerated(n, f) for f in r["failed"])):
            if not r["covered"]:
                res["undecided"].append("%s: the end of the harness is unreachable" % n)
            continue
        v, e = confirm(prop, n, r, deep)
        if v:
            res["violations"].append(v)
        else:
            res["undecided"].append(e)
    # the harnesses themselves, run natively on random inputs
    runs = 100 if tier == "quick" else 2000
    for p in prefixes:
        out = subprocess.run([EXE, "--random", p, str(seed), str(runs)], env=env(), capture_output=True, text=True).stdout
        for m in re.finditer(r"^(\S+) reached=(\d+) failed=(\d+) (.*)$", out, re.M):
            res["validated"] += int(m.group(2))
            if int(m.group(3)) and not m.group(1).endswith("_or_panics") and got.get(m.group(1), {}).get("ok"):
                res["errors"].append("%s: proved, yet a native run fails: %s" % (m.group(1), m.group(4)))
    res["samples"] = ["Kani harness %s: %d checks, %.1f s" % (n, got[n]["checks"], got[n]["time"]) for n in want if n in got][:6]
    res["wall_s"] = round(time.time() - t0, 1)

    return res


def replay(path):
    text = open(path, encoding="utf-8").read()
    n = re.search(r"^harness=(\S+)", text, re.M).group(1)
    miri = re.search(r"^interpreter=miri", text, re.M) is not None
    p = subprocess.run(native_cmd(True), cwd=CRATE, env=env())
    if p.returncode != 0:
        return 2
    bad, msg = run_native(os.path.abspath(path), n, miri)
    print(("reproduced: " if bad else "not reproduced: ") + msg)
    return 1 if bad else 0
