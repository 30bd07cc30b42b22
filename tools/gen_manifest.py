#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
REF = {"C24", "C25", "C26", "C27", "C28", "C19", "C20"}
HIST = {"C09", "C10", "C11", "C07", "C08"}
def technique(i):
    if i == "C22": return "exhaustive exploration of call sequences (all ordered pairs/triples of an alphabet of calls, fresh-process, repeated, reversed and multi-threaded schedules) on the real code"
    if i in REF: return "bounded exhaustive enumeration of inputs and match histories on the real code, every step compared with an independent reference model"
    if i in HIST: return "explicit-state exploration of all match histories up to a depth and all inputs of a finite alphabet on the real code, invariants monitored in every state"
    return "bounded exhaustive enumeration of inputs, result lists, rankings and configurations on the real code with a relational oracle"
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
        technique="model checking: " + technique(i), level="model_checking",
        level_note="Every element of the finite alphabets and every sequence up to the stated bounds is executed on the code in /repo (no sampling); nothing is claimed about f64 values outside the alphabets or longer histories. Trusted: the oracle in mc/src, rustc, libm."))
json.dump(dict(version=1, setup_cmd="cd mc && CARGO_NET_OFFLINE=true cargo build --release --offline --quiet --no-default-features --features C15", checks=checks, not_applicable=[],
    notes="No hooks: everything is explored through the public API. See DESIGN.md. tools/gen_properties.py and tools/gen_manifest.py write properties.jsonl and this file."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
