#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from runs import RUNS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Holds for every input, key order, tree shape and operation sequence within the bounds of runs.py (listed in the evidence); larger ones are outside. "
        "Trusted: the engine's LLVM semantics (sampled paths are compared with the native code on every run), z3, rustc's IR, and SHA-256 taken as collision-free.")
checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
    technique="symbolic execution of the compiled crate (rustc LLVM IR) with z3 deciding branches and assertions; counterexamples replayed natively",
    level="model_checking", level_note=NOTE) for p in props if p["id"] in RUNS]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
    not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in RUNS],
    notes="No hooks are needed in /repo: the harness crates use its public interface. known-findings.txt lists findings and repairs; DESIGN.md describes the method.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
