#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
MODEL = "model-based random histories (rapid) against a reference model, with shrinking"
TECH = {
    "C03": "random histories with a structural invariant checker and comparator counting, plus an exhaustive small-case sweep",
    "C07": "model-based random histories plus a structural invariant and a metamorphic rebuild check",
    "C08": "model-based random histories with metamorphic respelling of every argument",
    "C20": "three-way differential random histories (copying / in place / mixed) against a reference model",
    "C21": "bounded-exhaustive and random strings against an independent reference parser",
    "C22": "random names in random spellings against the canonical labels they were made from",
    "C23": "random labels and spellings: round trips and an independent reference codec",
    "C25": "random concurrent programs under the Go race detector, each goroutine against its own model",
    "C26": "random schedules of interleaved enumerations and updates against snapshots of a model",
    "C27": "random histories; the dump is parsed back and compared with the contents",
    "C28": "random template catalogues and data, the real program run in a scratch directory, against an oracle renderer",
    "C29": "differential random histories: freshly generated packages against the shipped ones and a model",
    "C30": "differential random histories: fixed-width against generic packages and a model",
    "C33": "random wrapped values against direct parsing",
}
TECH["C34"] = "random large trees and operations; allocations measured against a bound linear in the path length"
TECH["C35"] = "random churning histories; reachable objects against a fresh tree with the same contents, weak references to values"
TECH["C36"] = "random histories and schedules of enumerations; goroutine count before and after"
for c in ("C04", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"):
    TECH[c] = MODEL + ", plus every small tree of an enumerated family with every operation"
TECH["C01"] = TECH["C02"] = MODEL + ", plus every tree reachable over a few keys with every operation"
for c in ("C17", "C18", "C19"):
    TECH[c] = "random version graphs: every older version re-checked against its model and its first dump"
NOTE = ("Seeded search over generated cases, not a proof: holds for every case executed (counts, distribution and samples in the "
        "evidence file). Replays and committed regression cases are executed first.")
checks = []
for p in props:
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing: " + TECH.get(p["id"], MODEL),
        "level": "exploration",
        "level_note": NOTE,
    })
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
