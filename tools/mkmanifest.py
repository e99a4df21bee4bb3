#!/usr/bin/env python3
"""Writes MANIFEST.json (one place to edit what each check claims)."""
import json, os

TRUST = "rustc, chrono, serde_json and libm are trusted; nothing is claimed outside the bounds listed in DESIGN.md."
REF = "The reference model (mc/src/refm.rs, written from the published equations) is trusted; every one of its traces is replayed against the real code. "
A = "exhaustive exploration of a bounded product space, model traces replayed against the real code"

T = {
    "C01": (A, REF),
    "C02": (A, REF),
    "C03": (A, REF),
    "C04": ("explicit-state exploration of all call sequences over the real resonance state", "Every reachable integrator state to the given depth is visited; each answer is compared with a fresh propagation. "),
    "C05": ("exhaustive exploration of both sides of every seam of the trajectory", "Continuity is judged on both sides of each boundary and along dense time sweeps. "),
    "C06": (A, REF),
    "C07": ("exhaustive enumeration of field texts from a grammar model, replayed on the real parser", "A TLE writer states what each text means in integers; complete domains of most fields. "),
    "C08": ("exhaustive fault enumeration against a three-valued validity model of the lines", "The model says must-accept, must-reject or either; all single-byte faults and bounded pairs of faults. "),
    "C09": ("exhaustive fault enumeration of bounded inputs on the real parser, overflow checks on", "All byte values at all positions, runs, pairs and short texts. "),
    "C10": ("exhaustive exploration of extreme inputs under a watchdog, overflow checks on", "Panics, hangs and non-finite predictions are detected directly on the real code. "),
    "C11": ("exhaustive enumeration of record sequences, compared with record-wise parsing", "All sequences over an alphabet of records to a depth, and long texts with a defect at every position. "),
    "C12": ("exhaustive enumeration of JSON values per field against an integer model", "All representations and type boundaries of every field. "),
    "C13": ("exhaustive enumeration of every calendar day and TLE day against a calendar model", "Integer calendar model; every day of the range. "),
    "C14": ("exhaustive enumeration of epoch/time pairs against an exact integer model", "Integer nanosecond model; all magnitudes and the limits of the representation. "),
    "C15": ("exhaustive enumeration of epochs against a model of the published polynomials", "The polynomials, evaluated in another order, are the oracle. "),
    "C16": (A, REF),
    "C17": (A, REF),
    "C18": (A, REF),
    "C19": ("exhaustive comparison of one case set over all five feature combinations of the real code", "Each combination is compiled and run on the same cases; results are compared with the default build. "),
    "C20": ("exhaustive enumeration of round trips and field removals on the real code", "Every kind of constants, every field removed in turn. "),
    "C21": ("exhaustive histories, and instruction-level schedules under a controlled scheduler", "All call sequences of length 3 against fresh-process baselines; every preemption point (single-stepped) of one call with another call inside it. "),
    "C23": ("exhaustive enumeration of error kinds and held values, printed and read back", "Every kind of error, every binary magnitude of the values it holds. "),
    "C22": ("exhaustive exploration of pairs of runs related by a symmetry, on the real code", "Relates propagations of the implementation to each other. "),
    "C24": ("explicit-state exploration of wrong calls and of copies of the real resonance state", "Every kind of orbit with every state of a set of donors; every pair of stops around a copy. "),
    "C25": ("exhaustive exploration of pairs of runs related by a symmetry, on the real code", "Relates propagations of the implementation to each other and to a Kepler ellipse found by bisection. "),
}

checks = []
for k in sorted(T):
    technique, note = T[k]
    checks.append({
        "property": k,
        "quick_cmd": f"python3 check.py {k} quick",
        "thorough_cmd": f"python3 check.py {k} thorough",
        "evidence_file": f"evidence/{k}.json",
        "technique": technique,
        "level": "model_checking",
        "level_note": note + TRUST,
    })

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(here, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f]
assert sorted(ids) == sorted(T), set(ids) ^ set(T)
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 check.py build",
        "hooks": {"guard": "none", "enable": "no hooks: every check goes through the public API", "source_commits": []},
        "checks": checks,
        "not_applicable": [],
        "notes": "Every check rebuilds its harness from /repo's working tree (std and libm builds; C19 all five feature combinations). "
                 "`python3 check.py replay FILE` runs a recorded violation again.",
    }, f, indent=1)
    f.write("\n")
