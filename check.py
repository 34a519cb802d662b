#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code: check.py PROPERTY [quick|thorough]

Builds the engine, the property's harnesses linked with /repo's crate as LLVM IR, and the same harnesses natively.
The engine runs every harness symbolically and asks the solver about every assertion; a counterexample is replayed
natively before it is reported. check.py --replay FILE runs a reported counterexample again."""
import json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from runs import RUNS
BUILD = os.path.join(VERIF, ".build")
ENGINE = os.path.join(BUILD, "engine/release/svengine")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
RUSTFLAGS_IR = ["--emit=llvm-bc", "-C", "no-vectorize-slp", "-C", "no-vectorize-loops", "-C", "linker=/bin/true"]

def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "CARGO_BUILD_TARGET"): e.pop(k, None)
    return e
class Broken(Exception): pass
def cargo(dir, target, args):
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    r = subprocess.run(["cargo"] + args, cwd=os.path.join(VERIF, dir), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise Broken(f"building {dir} failed:\n" + r.stdout[-6000:])
def forget(target):
    """Has cargo look at the sources again, whatever their modification times are."""
    d = os.path.join(BUILD, target, "release/.fingerprint")
    for f in os.listdir(d) if os.path.isdir(d) else []:
        if f.startswith(("certified-vars-", "vh-")):
            for g in os.listdir(os.path.join(d, f)): os.unlink(os.path.join(d, f, g))
def build_engine(): cargo("engine", "engine", ["build", "--release", "--offline", "--locked"]); return ENGINE
def build_ir(feature):
    forget("ir")
    out = os.path.join(BUILD, "ir", feature + ".bc")
    if os.path.exists(out): os.unlink(out)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cargo("harness/ir", "ir", ["rustc", "--release", "--offline", "--locked", "--features", feature, "--"] + RUSTFLAGS_IR[:0] + [f"--emit=llvm-bc={out}"] + RUSTFLAGS_IR[1:])
    if not os.path.exists(out): raise Broken("no IR was written")
    return out
def build_native(feature):
    forget("native")
    cargo("harness/native", "native", ["build", "--release", "--offline", "--locked", "--features", feature])
    return os.path.join(BUILD, "native/release/vh")

# ---------- known findings ----------
def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) harness=(\S+) tag=(\S+) (.*)", l.strip())
        if m and m[1] == pid: out.append((m[2], m[3], m[4]))
    return out
def known_tags(pid): return sorted({t for _, t, _ in known_findings(pid)})

# ---------- native runs ----------
def split(run):
    h, _, p = run.partition(":")
    return h, p
def native(vh, run, inputs, timeout=20):
    """Outcome of one concrete run of the real code: (kind, detail, observations)."""
    h, p = split(run)
    try: r = subprocess.run([vh, h, p, "-"], input=inputs.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired: return "nontermination", "no end within %d s" % timeout, ""
    out = r.stdout.decode("utf8", "replace")
    obs = next((l[4:] for l in out.splitlines() if l.startswith("OBS ")), "")
    last = out.strip().splitlines()[-1] if out.strip() else ""
    if r.returncode < 0: return ("abort" if r.returncode == -6 else "memory"), "signal %d" % -r.returncode, obs
    kind = {0: "ok", 10: "fail", 11: "panic", 12: "desync", 13: "assume", 14: "memory"}.get(r.returncode, "error")
    if last.startswith("FENCE"): kind = "error"
    return kind, last, obs
def reproduces(tag, kind, detail):
    # whatever goes wrong natively on the very inputs the solver gave is the same violation; only a run that ends well is none
    return kind in ("fail", "panic", "memory", "abort", "nontermination")

# ---------- evidence ----------
def functions_of(lines):
    """The functions of /repo that executed lines belong to, by the last fn above them."""
    by = {}
    for f, n in lines: by.setdefault(f, set()).add(n)
    out = {}
    for f, ns in sorted(by.items()):
        try: src = open(os.path.join(REPO, f)).read().splitlines()
        except OSError: continue
        cur = None; at = []
        for i, l in enumerate(src, 1):
            m = re.search(r"\bfn\s+(\w+)", l)
            if m and not l.strip().startswith("//"): cur = m[1]
            if i in ns and cur and cur not in at: at.append(cur)
        out[f] = at
    return out
OUTSIDE = [
  "sizes, lengths and numbers of operations beyond the bounds listed per run",
  "SHA-256 is taken as an uninterpreted collision-free function: two digests are equal exactly when the digested bytes are",
  "allocation never fails; threads, signals and stack exhaustion are not modelled; uninitialised memory reads as zero; environment variables read as unset",
  "the code is the LLVM IR that rustc emits for x86-64 at opt-level 1 with overflow checks and debug assertions on",
]

def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    feature, quick, thorough = RUNS[pid]
    runs = quick if tier == "quick" else thorough
    limit = 480 if tier == "quick" else 600
    jobs = {}
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(build_engine), ex.submit(build_ir, feature), ex.submit(build_native, feature)]
        engine, bc, vh = [f.result() for f in fs]
    built = time.time() - t0
    out = os.path.join(BUILD, pid + ".json")
    if os.path.exists(out): os.unlink(out)
    known = known_findings(pid)
    cmd = [engine, bc, "--out", out, "--threads", str(os.cpu_count() or 8), "--time", str(limit), "--seed", str(seed), "--samples", "6" if tier == "quick" else "20", "--filter", REPO + "/"]
    for t in known_tags(pid): cmd += ["--known", t]
    for r in runs: cmd += ["--run", r]
    try: e = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 90)
    except subprocess.TimeoutExpired: raise Broken("the engine did not end in time")
    if e.returncode or not os.path.exists(out): raise Broken("the engine failed:\n" + e.stdout[-4000:])
    d = json.load(open(out))

    # counterexamples, replayed
    found, seen_known, unconfirmed = [], {}, []
    cands = {}
    for r in d["runs"]:
        for v in r["violations"]: cands.setdefault((r["run"], v["tag"]), []).append(v)
    def confirm(item):
        (run, tag), vs = item
        res = None
        for v in vs[:4]:
            kind, detail, _ = native(vh, run, v["inputs"])
            res = (run, tag, v, kind, detail)
            if reproduces(tag, kind, detail): return res, True
        return res, False
    with ThreadPoolExecutor(8) as ex:
        for (run, tag, v, kind, detail), ok in ex.map(confirm, sorted(cands.items())):
            k = next((k for k in known if k[0] == split(run)[0] and k[1] == tag), None)
            rec = dict(property=pid, run=run, tag=tag, message=v["msg"], inputs=v["inputs"], native_outcome=kind, native_detail=detail)
            if not ok: unconfirmed.append(rec)
            elif k: seen_known[k] = rec
            else: found.append(rec)
    # sampled paths, compared with the native code
    def validate(x):
        run, s = x
        kind, detail, obs = native(vh, run, s["inputs"])
        good = kind == "ok" and obs == s["obs"] and (detail == "PANICKED") == bool(s["panicked"])
        return run, s, good, f"{kind} {detail} {obs[:200]}"
    checked, differing = 0, []
    with ThreadPoolExecutor(8) as ex:
        for run, s, good, what in ex.map(validate, [(r["run"], s) for r in d["runs"] for s in r["samples"]]):
            if good: checked += 1
            else: differing.append(dict(run=run, inputs=s["inputs"], engine=s["obs"][:200], native=what))

    def total(k): return sum(r[k] for r in d["runs"])
    incomplete = {}
    for r in d["runs"]:
        for k, n in r["incomplete"].items(): incomplete[f"{r['run']}: {k}"] = n
    executed, coded = {}, {}
    for f, n in d["lines"]: executed.setdefault(f, set()).add(n)
    for f, n in d["all_lines"]: coded.setdefault(f, set()).add(n)
    rep = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(pid + "-"): os.unlink(os.path.join(rep, f))
    for i, v in enumerate(found):
        v["path"] = os.path.join(rep, f"{pid}-{i + 1}.json")
        v["feature"] = feature
        v["how"] = f"python3 {VERIF}/check.py --replay {v['path']}"
        json.dump(v, open(v["path"], "w"), indent=1)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(found),
      assumptions=OUTSIDE,
      coverage=dict(
        states=total("paths") + total("pruned") + total("forks"), transitions=total("insts"),
        states_are="leaves and branching points of the symbolic execution tree", transitions_are="LLVM instructions executed on symbolic states",
        traces_validated_against_impl=checked,
        samples=[dict(run=r["run"], inputs=r["samples"][0]["inputs"], observed=r["samples"][0]["obs"][:120]) for r in d["runs"] if r["samples"]],
        exhaustive=not incomplete and not d["timed_out"],
        functions_encoded=functions_of(d["lines"]),
        lines_executed={f: f"{len(executed.get(f, ()))} of {len(coded[f])}" for f in sorted(coded)},
        module=dict(functions=d["functions"], instructions=d["instructions"]),
        bounds=[r["run"] for r in d["runs"]], bounds_meaning=__import__("runs").__doc__.strip().split("\n\n")[1], outside=OUTSIDE,
        paths=total("paths"), infeasible_or_assumed_away=total("pruned"), largest_input_bits=max((r["inputs_bits"] for r in d["runs"]), default=0),
        assertions=dict(checked=total("asserts"), by_rewriting=total("asserts_rewritten"), by_path_facts=total("asserts_by_facts"), by_solver=total("asserts_by_solver")),
        queries=dict(sat=total("sat"), unsat=total("unsat"), unknown=total("unknown")), solver="z3 " + d["z3"], solver_s=round(total("solver_time"), 2), engine_s=d["wall_s"], build_s=round(built, 2),
        covers={r["run"]: r["covers"] for r in d["runs"]}, tags={r["run"]: r["tags"] for r in d["runs"]},
        incomplete=incomplete, timed_out=d["timed_out"], unconfirmed=unconfirmed, differing=differing, known_findings=sorted(" ".join(k) for k in seen_known)))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: {len(d['runs'])} runs, {total('paths')} paths, {total('asserts')} assertions, {total('sat') + total('unsat')} queries, solver {total('solver_time'):.1f} s, engine {d['wall_s']:.1f} s, build {built:.1f} s, {checked} traces validated")
    for k in incomplete: print("INCOMPLETE", k, incomplete[k])
    for k in known:
        if k in seen_known: print(f"KNOWN-FINDING: property={pid} {k[2]}")
    for x in unconfirmed: print("UNCONFIRMED", json.dumps(x)[:600])
    for x in differing[:5]: print("DIFFERING", json.dumps(x)[:600])
    for v in found:
        print(f"  {v['run']} {v['tag']}: {v['message']}; inputs {v['inputs'][:300]}; natively {v['native_outcome']} {v['native_detail']}")
        print(f"VIOLATION property={pid} replay={v['path']}")
    if found: return 1
    if unconfirmed or differing: print("the engine and the native code do not agree: no answer"); return 2
    if not total("paths") or not total("asserts"): print("nothing was explored: no answer"); return 2
    return 0

def replay(path):
    v = json.load(open(path))
    vh = build_native(v["feature"])
    kind, detail, obs = native(vh, v["run"], v["inputs"])
    print(kind, detail)
    return 1 if reproduces(v["tag"], kind, detail) else 0

if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a[0] == "--replay": sys.exit(replay(a[1]))
        if a[0] == "--setup": build_engine(); sys.exit(0)
        sys.exit(main(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
    except Broken as e:
        print("CHECK BROKEN:", e); sys.exit(2)
