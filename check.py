#!/usr/bin/env python3
"""Decides one property of the sgp4 crate by bounded exhaustive exploration of the real code.

    check.py ID [quick|thorough]     run a check (tier defaults to $VERIF_TIER, then quick)
    check.py replay FILE             run the single case recorded in a replay file
    check.py build                   build every harness

Exit status: 0 the property held on everything explored, 1 it was violated (a line
`VIOLATION property=ID replay=FILE` is printed), anything else is an error of the check itself.
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")

# the two builds whose arithmetic differs; all five are compared with each other by C19
BUILDS = {"std": "std,alloc,serde", "libm": "libm,alloc,serde"}
PROBES = {
    "default": "std,alloc,serde",
    "std": "std",
    "libm": "libm",
    "libm-alloc": "libm,alloc",
    "libm-serde": "libm,alloc,serde",
}
MEMORY = 20 << 30


def fail(message, status=2):
    print(f"CHECK-ERROR: {message}", flush=True)
    sys.exit(status)


def tree_hash():
    h = hashlib.sha256()
    names = ["Cargo.toml"]
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        names += [os.path.relpath(os.path.join(base, f), REPO) for f in sorted(files)]
    for name in names:
        h.update(name.encode() + b"\0")
        with open(os.path.join(REPO, name), "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()


class BuildFailed(Exception):
    def __init__(self, log, library):
        super().__init__("build failed")
        self.log, self.library = log, library


def build(crate, features, label):
    """Builds a harness crate against /repo and returns its executable."""
    target = os.path.join(TARGET, label)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # file times cannot be trusted when trees are copied around: rebuild whenever the content differs
        stamp = os.path.join(target, "tree")
        now = tree_hash()
        try:
            with open(stamp) as f:
                before = f.read()
        except FileNotFoundError:
            before = ""
        if before != now:
            prints = os.path.join(target, "release", ".fingerprint")
            if os.path.isdir(prints):
                for d in os.listdir(prints):
                    if d.startswith("sgp4-") or d.startswith(crate + "-"):
                        shutil.rmtree(os.path.join(prints, d))
            if os.path.exists(stamp):
                os.remove(stamp)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        for name in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(name, None)
        if label == "libm":
            # the other build is one a user ships: neither debug assertions nor overflow checks
            env.update(CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="false", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="false")
        done = subprocess.run(
            ["cargo", "build", "--release", "--offline", "--locked", "--features", features],
            cwd=os.path.join(HERE, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if done.returncode != 0:
            raise BuildFailed(done.stdout, "could not compile `sgp4`" in done.stdout)
        with open(stamp, "w") as f:
            f.write(now)
    return os.path.join(target, "release", crate)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(command, limit, **kwargs):
    return subprocess.run(command, timeout=limit, preexec_fn=limits, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kwargs)


def replay_path(prop, label, case):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{label}.json")
    with open(path, "w") as f:
        json.dump(case, f, indent=1)
        f.write("\n")
    return path


def replay_case(case):
    """Runs one recorded case; returns (status, output), where a death by signal counts as a violation."""
    if case["property"] == "C19":
        reports, violations = probe_all(case["tier"])
        return (1, violations[0][1]["message"]) if violations else (0, "every feature combination agrees")
    binary = build("mc", BUILDS[case["build"]], case["build"])
    try:
        done = run([binary, "replay", case["property"], case["tier"], case["space"], str(case["index"])], 300)
    except subprocess.TimeoutExpired:
        return 1, "no return within 300 s"
    if done.returncode < 0:
        return 1, f"killed by {signal.Signals(-done.returncode).name}: {done.stdout}"
    return done.returncode, done.stdout


def known_findings():
    found = {}
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property="):
                    ident, _, text = line[len("known: property="):].partition(" ")
                    found.setdefault(ident, []).append(text)
    except FileNotFoundError:
        pass
    return found


def explore(prop, tier, label):
    """Runs the exploration of one property on one build; returns its report."""
    binary = build("mc", BUILDS[label], label)
    out = os.path.join(TARGET, label, f"{prop}-report.json")
    crumbs = os.path.join(TARGET, label, f"{prop}-crumbs")
    for path in (out, crumbs):
        if os.path.exists(path):
            os.remove(path)
    limit = 11000 if tier == "thorough" else 780
    try:
        done = run([binary, "run", prop, tier, out, crumbs], limit)
    except subprocess.TimeoutExpired:
        fail(f"{prop} on {label}: no verdict within {limit} s")
    if done.returncode < 0:
        # the process died: find out whether a case in flight does it again on its own
        with open(crumbs, "rb") as f:
            words = struct.unpack("<512Q", f.read(4096))
        for index in sorted({w - 1 for w in words[:64] if w}):
            case = {"property": prop, "tier": tier, "build": label, "space": str(words[100]), "index": index}
            status, output = replay_case(case)
            if status == 1:
                case["message"] = output.strip()
                return {"states": 0, "transitions": 0, "traces": 0, "points": 0, "classes": {}, "spaces": [],
                        "samples": [], "wall_s": 0, "violation": case}
        fail(f"{prop} on {label}: engine killed by {signal.Signals(-done.returncode).name} and no case reproduces it\n{done.stdout[-2000:]}")
    if done.returncode not in (0, 1) or not os.path.exists(out):
        fail(f"{prop} on {label}: engine status {done.returncode}\n{done.stdout[-4000:]}")
    with open(out) as f:
        report = json.load(f)
    if done.returncode == 1:
        v = report["violation"]
        case = {"property": prop, "tier": tier, "build": label, "space": v["space"], "index": v["index"], "message": v["message"]}
        if v["message"].startswith("no return"):
            status, output = replay_case(case)
            if status != 1:
                fail(f"{prop} on {label}: {v['space']}[{v['index']}] was slow once but returns on its own")
        report["violation"] = case
    return report


def merge(reports, key):
    return sum(r[key] for r in reports.values())


def write_evidence(prop, tier, wall, coverage, assumptions, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 3), "violations": violations}, f, indent=1)
        f.write("\n")


def verdict(prop, violations):
    for label, case in violations:
        path = replay_path(prop, label, case)
        print(f"{prop} violated on build {label}: {case.get('space', '')}[{case.get('index', '')}] {case['message'][:3000]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    for text in known_findings().get(prop, []):
        print(f"KNOWN-FINDING: property={prop} {text}")
    return 1 if violations else 0


def probe(label, tier):
    """Builds and runs the probe with one feature combination; returns the file it wrote."""
    binary = build("probe", PROBES[label], "probe-" + label)
    out = os.path.join(TARGET, "probe-" + label, "probe.txt")
    if os.path.exists(out):
        os.remove(out)
    limit = 3000 if tier == "thorough" else 600
    try:
        done = run([binary, "run", tier, out], limit)
    except subprocess.TimeoutExpired:
        return out, f"no return within {limit} s"
    if done.returncode < 0:
        return out, f"killed by {signal.Signals(-done.returncode).name}"
    if done.returncode != 0:
        fail(f"probe {label}: status {done.returncode}\n{done.stdout[-2000:]}")
    return out, None


def probe_all(tier):
    """Runs the same cases with every feature combination and compares the results with those of the default one."""
    reports, violations = {}, []

    def differ(label, message):
        violations.append((label, {"property": "C19", "tier": tier, "build": label, "message": message}))

    with concurrent.futures.ThreadPoolExecutor(len(PROBES)) as pool:
        jobs = {label: pool.submit(probe, label, tier) for label in PROBES}
        concurrent.futures.wait(jobs.values())
    files, broken = {}, {}
    for label, job in jobs.items():
        try:
            files[label], problem = job.result()
            if problem:
                broken[label] = problem
        except BuildFailed as e:
            if label == "default" or not e.library:
                fail(f"probe {label} does not build\n{e.log[-4000:]}")
            differ(label, f"the library does not compile with features {PROBES[label]}\n{e.log[-2000:]}")
    if len(broken) == len(PROBES):
        fail(f"the probe fails with every feature combination: {broken}")
    for label, problem in broken.items():
        if "default" in broken:
            label = "default"
        differ(label, f"features {PROBES[label]}: {problem}, unlike other combinations")
        return reports, violations
    for label, path in files.items():
        distinct, cases = set(), 0
        with open(path, errors="replace") as f:
            for line in f:
                distinct.add(hash(line.partition(" | ")[2]))
                cases += 1
        reports[label] = {"states": len(distinct), "cases": cases, "compared": 0, "absent": 0, "rounded": 0}
        if label == "default":
            continue
        done = run([os.path.join(TARGET, "probe-default", "release", "probe"), "compare", files["default"], path], 600)
        if done.returncode == 1:
            differ(label, f"features {PROBES['default']} and {PROBES[label]} differ: {done.stdout.strip()}")
        elif done.returncode != 0:
            fail(f"comparison with {label}: status {done.returncode}\n{done.stdout[-2000:]}")
        else:
            n, absent, rounded = map(int, done.stdout.split())
            reports[label].update(compared=n - absent, absent=absent, rounded=rounded)
    return reports, violations


def check_features(prop, tier):
    t0 = time.time()
    reports, violations = probe_all(tier)
    samples = []
    with open(os.path.join(TARGET, "probe-default", "probe.txt"), errors="replace") as f:
        for k, line in enumerate(f):
            if k % 20000 == 0:
                samples.append(line.strip()[:300])
    coverage = {
        "states": sum(r["states"] for r in reports.values()),
        "transitions": sum(r["cases"] for r in reports.values()),
        "traces_validated_against_impl": sum(r["compared"] for r in reports.values()),
        "samples": samples[:12],
        "exhaustive": not violations,
        "outcomes": reports,
    }
    status = verdict(prop, violations)
    write_evidence(prop, tier, time.time() - t0, coverage, COMMON, len(violations))
    print(f"{prop} {tier}: {len(reports)} feature combinations, {coverage['states']} distinct results, {coverage['transitions']} cases, "
          f"{coverage['traces_validated_against_impl']} compared with the default build, {time.time() - t0:.1f} s: "
          f"{'violated' if status else 'held'}")
    return status


def check(prop, tier):
    if prop == "C19":
        return check_features(prop, tier)
    t0 = time.time()
    reports = {}
    violations = []
    for label in BUILDS:
        try:
            reports[label] = explore(prop, tier, label)
        except BuildFailed as e:
            fail(f"build {label} failed\n{e.log[-4000:]}")
        if reports[label].get("violation"):
            violations.append((label, reports[label].pop("violation")))
            break
    coverage = {
        "states": merge(reports, "states"),
        "transitions": merge(reports, "transitions"),
        "traces_validated_against_impl": merge(reports, "traces"),
        "schedules": merge(reports, "points"),
        "samples": [f"{label}/{s}" for label, r in reports.items() for s in r["samples"]][:12],
        "exhaustive": not violations,
        "spaces": {label: {s["name"]: s["size"] for s in r["spaces"]} for label, r in reports.items()},
        "outcomes": {label: r["classes"] for label, r in reports.items()},
    }
    status = verdict(prop, violations)
    write_evidence(prop, tier, time.time() - t0, coverage, ASSUMPTIONS.get(prop, []) + COMMON, len(violations))
    print(f"{prop} {tier}: {coverage['states']} states, {coverage['transitions']} transitions, "
          f"{coverage['traces_validated_against_impl']} model traces compared, {coverage['schedules']} cases, "
          f"{sum(len(r['classes']) for r in reports.values())} outcome classes, {time.time() - t0:.1f} s: "
          f"{'violated' if status else 'held'}")
    return status


COMMON = ["the enumerated bounds given in DESIGN.md", "rustc, chrono, serde_json and libm are trusted"]
ASSUMPTIONS = {
    "C01": ["the reference model in mc/src/refm.rs, written from the published equations, is trusted"],
}
for _p in ("C02", "C03", "C06", "C17", "C18"):
    ASSUMPTIONS[_p] = ASSUMPTIONS["C01"]


def main():
    args = sys.argv[1:]
    if args[:1] == ["build"]:
        for crate, prefix, table in (("mc", "", BUILDS), ("probe", "probe-", PROBES)):
            for label, features in table.items():
                try:
                    build(crate, features, prefix + label)
                except BuildFailed as e:
                    fail(f"build {label} failed\n{e.log[-4000:]}")
        return 0
    if args[:1] == ["replay"] and len(args) == 2:
        with open(args[1]) as f:
            case = json.load(f)
        status, output = replay_case(case)
        print(output.strip())
        return status
    if not args:
        print(__doc__)
        return 2
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        fail(f"unknown tier {tier}")
    return check(args[0], tier)


if __name__ == "__main__":
    sys.exit(main())
