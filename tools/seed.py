#!/usr/bin/env python3
"""Plants bugs: makes seeded/<id>/ from a specification and confirms it in a scratch copy of /repo.

    seed.py add FILE.py [ID...]     FILE.py defines BUGS, a list of dicts
    seed.py check [ID...]           runs the quick check of each bug's property with the bug applied to /repo
    seed.py all ID                  runs every quick check with the bug applied

The demonstration of a bug is a small program (main.rs) that prints one labelled result per line; demo.sh
compares what it prints with expected.txt, recorded on the unchanged tree.
"""
import concurrent.futures, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")

DEMO = r'''#!/bin/bash
# prints results of the library and compares them with those of the unchanged tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
sgp4 = {path = "$repo", default-features = false, features = [@FEATURES@]}
@DEPS@
[workspace]
EOF
cd "$work" || exit 3
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cargo build --offline --quiet 2> "$work/log" || { cat "$work/log"; exit 4; }
timeout 100 "$work/target/debug/demo" > "$work/out" 2> "$work/err" || { echo "the demonstration failed"; cat "$work/err"; exit 1; }
python3 - "$here/expected.txt" "$work/out" <<'EOF'
import sys
def words(path):
    return [line.split() for line in open(path)]
a, b = words(sys.argv[1]), words(sys.argv[2])
def same(x, y):
    if x == y:
        return True
    try:
        x, y = float(x), float(y)
    except ValueError:
        return False
    return abs(x - y) <= @TOLERANCE@ * max(1.0, abs(x))
bad = [(x, y) for x, y in zip(a, b) if len(x) != len(y) or not all(map(same, x, y))]
if len(a) != len(b) or bad:
    print("expected", bad[0][0] if bad else len(a))
    print("found   ", bad[0][1] if bad else len(b))
    sys.exit(1)
EOF
'''

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use sgp4::*;

fn show<E: std::fmt::Debug>(label: &str, r: Result<Prediction, E>) {
    match r {
        Ok(p) => println!("{label} {:?} {:?} {:?} {:?} {:?} {:?}", p.position[0], p.position[1], p.position[2], p.velocity[0], p.velocity[1], p.velocity[2]),
        Err(e) => println!("{label} {:?}", e),
    }
}

fn orbit(i: f64, node: f64, e: f64, argp: f64, m: f64, n: f64) -> Orbit {
    Orbit { inclination: i, right_ascension: node, eccentricity: e, argument_of_perigee: argp, mean_anomaly: m, mean_motion: n }
}

fn check(line: &str) -> String {
    let s: u32 = line.bytes().map(|c| match c { b'0'..=b'9' => (c - b'0') as u32, b'-' => 1, _ => 0 }).sum();
    format!("{line}{}", s % 10)
}
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def scratch(label):
    d = f"/tmp/seed/{label}"
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs("/tmp/seed", exist_ok=True)
    sh(["cp", "-a", "/repo", d])
    return d


STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(d, log):
    """the stable tests, in a scratch copy (as /opt/vp/test.sh does it)"""
    for name in ("build.sh", "test.sh"):
        text = open(f"/opt/vp/{name}").read().replace("/repo", d)
        open(f"{d}/.{name}", "w").write(text)
    b = sh(["bash", f"{d}/.build.sh"])
    if b.returncode:
        return "build failed: " + b.stdout[-1500:]
    out = f"{d}/.result.json"
    t = sh(["bash", f"{d}/.test.sh", out])
    r = json.load(open(out))
    passed = set(r.get("passed", []))
    missing = STABLE - passed
    return f"tests fail: {sorted(missing)}" if missing else None


def add(bug):
    ident = bug["id"]
    d = os.path.join(SEEDED, ident)
    w = scratch(ident)
    try:
        edits = bug["edits"]
        os.makedirs(d, exist_ok=True)
        with open(f"{d}/main.rs", "w") as f:
            f.write(PRELUDE + bug["demo"].strip("\n") + "\n")
        demo = DEMO.replace("@FEATURES@", ", ".join(f'"{x}"' for x in bug.get("features", ["std", "alloc", "serde"])))
        demo = demo.replace("@DEPS@", "".join(f"{x}\n" for x in bug.get("deps", []))).replace("@TOLERANCE@", str(bug.get("tolerance", 1e-9)))
        with open(f"{d}/demo.sh", "w") as f:
            f.write(demo)
        os.chmod(f"{d}/demo.sh", 0o755)
        if not os.path.exists(f"{d}/expected.txt"):
            open(f"{d}/expected.txt", "w").close()
        # record on the unchanged tree
        rec = open(f"{d}/demo.sh").read().replace('python3 - "$here/expected.txt" "$work/out"', 'cp "$work/out" "$here/expected.txt"; exit 0; python3 - x y')
        open(f"{w}/.rec.sh", "w").write(rec.replace('$(cd "$(dirname "$0")" && pwd)', d))
        r = sh(["bash", f"{w}/.rec.sh"], cwd=w)
        if r.returncode:
            return ident, "demo does not run on the unchanged tree: " + r.stdout[-1500:]
        r = sh(["bash", f"{d}/demo.sh"], cwd=w)
        if r.returncode:
            return ident, "demo is not repeatable: " + r.stdout
        for path, old, new in edits:
            p = os.path.join(w, path)
            s = open(p).read()
            if s.count(old) != bug.get("count", 1):
                return ident, f"{s.count(old)} occurrences of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff", "--", "src", "Cargo.toml"], cwd=w).stdout
        with open(f"{d}/patch.diff", "w") as f:
            f.write(diff)
        with open(f"{d}/meta.json", "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        problem = tests(w, None)
        if problem:
            return ident, problem
        r = sh(["bash", f"{d}/demo.sh"], cwd=w)
        if r.returncode == 0:
            return ident, "demo passes with the bug"
        if r.returncode == 4:
            return ident, "demo does not build with the bug: " + r.stdout[-500:]
        return ident, None
    finally:
        shutil.rmtree(w)


def check(ident, props=None):
    meta = json.load(open(f"{SEEDED}/{ident}/meta.json"))
    sh(["git", "-C", "/repo", "checkout", "--", "."])
    r = sh(["git", "-C", "/repo", "apply", f"{SEEDED}/{ident}/patch.diff"])
    if r.returncode:
        print(ident, "does not apply", r.stdout)
        return
    try:
        hits = []
        for p in props or [meta["property"]]:
            r = sh([sys.executable, f"{HERE}/check.py", p, "quick"], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout:
                hits.append(p)
                line = [x for x in r.stdout.splitlines() if "violated on build" in x]
                print("   ", p, line[0][:220] if line else "", flush=True)
            elif r.returncode != 0:
                print("   ", p, "ERROR", r.returncode, r.stdout[-300:])
        print(ident, meta["property"], "caught by " + " ".join(hits) if hits else "MISSED", flush=True)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])


def main():
    what, rest = sys.argv[1], sys.argv[2:]
    if what == "add":
        scope = {}
        exec(open(rest[0]).read(), scope)
        bugs = [b for b in scope["BUGS"] if not rest[1:] or b["id"] in rest[1:]]
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            for ident, problem in pool.map(add, bugs):
                print(ident, problem or "ok", flush=True)
                if problem and not problem.startswith("demo is not rep"):
                    shutil.rmtree(os.path.join(SEEDED, ident), ignore_errors=True)
    elif what == "check":
        for ident in rest or sorted(os.listdir(SEEDED)):
            check(ident)
    elif what == "all":
        for ident in rest:
            check(ident, [f"C{k:02d}" for k in range(1, 24)])


main()
