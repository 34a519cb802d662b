#!/usr/bin/env python3
"""Times the runs of the tiers: timeruns.py quick|thorough [PROPERTY...]. Builds must be in .build/ir (by feature)."""
import json, subprocess, sys, os, glob
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from runs import RUNS
import check
tier = sys.argv[1]; todo = sys.argv[2:] or sorted(RUNS)
last = None
for p in todo:
    f, q, t = RUNS[p]
    bc = check.build_ir(f)
    for r in (q if tier == "quick" else t):
        cap = "60" if tier == "quick" else "300"
        subprocess.run([check.ENGINE, bc, "--out", "/tmp/tr.json", "--time", cap, "--known", "x"] + sum([["--known", k] for k in check.known_tags(p)], []) + ["--run", r], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        d = json.load(open("/tmp/tr.json")); x = d["runs"][0]
        print(f"{p} {r:50s} {d['wall_s']:7.2f}s load {d['load_s']:.1f} paths {x['paths']} most {x['max_path_insts']/1e6:.0f}M viol {x['violation_count']} inc {x['incomplete'] or ''}", flush=True)
