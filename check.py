#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree.

Builds the symbolic executor and the harness (which compiles /repo's current sources to LLVM IR), runs the jobs that
catalogue.py lists for the property, replays every counterexample natively and reports it if the native run fails too.
Exit 0: the property held on everything explored; exit 1: a line VIOLATION per confirmed counterexample."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "replay"))
import catalogue, native

TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
LSX = os.path.join(HERE, "engine/target/release/lsx")
IR = os.path.join(HERE, "harness/target/release/deps/harness.ll")
WORK = os.path.join(HERE, "build")
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def cargo(args, cwd, env=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, **(env or {}))
    for k in ["CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"]:
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = os.path.join(cwd, "target")
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("build failed in %s:\n%s" % (cwd, r.stderr[-4000:]))


def sources():
    """a digest of the crate under test, wherever the harness's manifest says it is"""
    repo = re.search(r'futures-signals = \{ path = "([^"]*)"', open(os.path.join(HERE, "harness/Cargo.toml")).read()).group(1)
    h = hashlib.sha1()
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src"))):
        for f in sorted(fs):
            h.update(f.encode() + open(os.path.join(d, f), "rb").read())
    h.update(open(os.path.join(repo, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def build():
    """engine and harness, both from their current sources; cargo decides what is out of date"""
    flags = {"RUSTFLAGS": "-Awarnings --cap-lints allow"}
    with concurrent.futures.ThreadPoolExecutor(2) as p:
        a = p.submit(cargo, ["build", "--offline", "--release"], os.path.join(HERE, "engine"))
        # the emitted IR must come from this very build, and from the current contents of the sources (cargo itself
        # only compares their times)
        if os.path.exists(IR):
            os.remove(IR)
            os.utime(os.path.join(HERE, "harness/src/lib.rs"))
        stamp, now = os.path.join(HERE, "harness/target/sources"), sources()
        if os.path.exists(stamp) and open(stamp).read() != now:
            shutil.rmtree(os.path.join(HERE, "harness/target/release"), ignore_errors=True)
        os.makedirs(os.path.dirname(stamp), exist_ok=True)
        open(stamp, "w").write(now)
        b = p.submit(
            cargo,
            ["rustc", "--offline", "--release", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
            os.path.join(HERE, "harness"),
            flags,
        )
        a.result()
        b.result()
    if not os.path.exists(IR):
        raise RuntimeError("the build left no IR")


def run_job(entry, params, opts, time_s, prop, seed, samples):
    a = [LSX, "run", "--ir", IR, "--entry", entry, "--params", params, "--workers", str(os.cpu_count() or 4)]
    a += ["--time", "%.1f" % time_s, "--preempt", str(opts.get("preempt", 2)), "--max-viol", "3", "--seed", str(seed), "--samples", str(samples)]
    only, ignore = catalogue.ONLY.get(prop, ""), catalogue.IGNORE.get(prop, "leak:|repoll:|kept:" if prop not in catalogue.ONLY else "")
    if only:
        a += ["--only", only]
    if ignore:
        a += ["--ignore", ignore]
    r = subprocess.run(a, capture_output=True, text=True, timeout=time_s + 120)
    if r.returncode:
        raise RuntimeError("lsx failed on %s %s: %s" % (entry, params, r.stderr[-500:]))
    return json.loads(r.stdout)


def confirmed(kind, rc):
    """does the native run show the failure?  10: an assertion of the harness or of the runtime failed (this includes
    the checked allocator, the race detector and the deadlock detector); negative: killed by a signal"""
    if rc == 10:
        return True
    if kind == "nontermination":
        return rc in (-14, "timeout")
    if kind in ("memory", "ub", "abort", "panic", "stack"):
        return rc in (-6, -11, -7, -4, 134, 139, 101)
    return False


def native_run(case, name):
    try:
        return native.replay(IR, case, os.path.join(WORK, "replay", name))
    except subprocess.TimeoutExpired:
        return "timeout", ""


def known_findings():
    r = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("finding:"):
            f = dict(x.split("=", 1) for x in l[8:].strip().split(" ", 3)[:3])
            f["text"] = l.strip().split(" ", 4)[-1]
            r.append(f)
    return r


def main():
    prop = sys.argv[1]
    if prop == "--build":
        return build()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = {"quick": 330.0, "thorough": 3 * 3600.0}[tier]
    build()
    log("built")
    shutil.rmtree(os.path.join(WORK, "replay"), ignore_errors=True)
    jobs = catalogue.QUICK[prop] if tier == "quick" else catalogue.QUICK[prop] + catalogue.THOROUGH.get(prop, [])
    cap = 120.0 if tier == "quick" else 1800.0
    t1 = time.time()
    done, viols, notes, covers, fns, samples = [], [], [], {}, set(), []
    tot = {}
    for n, (entry, params, opts) in enumerate(jobs):
        left = budget - (time.time() - t1)
        if left < 2:
            notes.append("not run, time budget: %s" % ", ".join("%s %s" % (e, p) for e, p, _ in jobs[n:]))
            break
        if prop == "C27":
            p = params.split(",")
            params = ",".join(p + ["0"] * (15 - len(p)) + ["1"])
        try:
            d = run_job(entry, params, opts, min(cap, left), prop, seed, 2 if n < 12 else 1)
        except Exception as e:
            notes.append("no result: %s %s: %s" % (entry, params, e))
            log("NO RESULT", entry, params, e)
            continue
        for k, v in d["stats"].items():
            if k.startswith("max_"):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        fns |= {f for f in d["functions"] if "futures_signals" in f}
        covers.setdefault(entry, set()).update(d["covers"])
        for s in d["samples"]:
            samples.append(dict(s, entry=entry, params=[int(x) for x in params.split(",")]))
        if not d["complete"] and not d["violations"]:
            notes.append("incomplete: %s %s: %s" % (entry, params, d["reasons"]))
        done.append(
            dict(harness=entry, params=params, preempt=opts.get("preempt", 2), complete=d["complete"], paths=d["stats"]["paths"], pruned=d["stats"]["pruned_paths"],
                 queries=d["stats"]["queries"], solver_s=d["stats"]["solver_s"], wall_s=d["wall_s"])
        )
        log(entry, params, "complete" if d["complete"] else "INCOMPLETE %s" % d["reasons"], "paths", d["stats"]["paths"], "queries", d["stats"]["queries"], "%.1fs" % d["wall_s"])
        for v in d["violations"]:
            viols.append(dict(v, entry=entry, params=[int(x) for x in params.split(",")], preempt=opts.get("preempt", 2)))
        if d["violations"] and tier == "quick" and len({(v["entry"], v["kind"], v["label"]) for v in viols}) >= 4:
            notes.append("stopped after enough violations")
            break
    # counterexamples: replayed against the real code
    known = [f for f in known_findings() if f["property"] == prop]
    reported, seen, shown, unconfirmed = 0, set(), set(), 0
    for v in viols:
        key = (v["entry"], v["kind"], v["label"])
        if key in seen:
            continue
        case = {k: v[k] for k in ["entry", "params", "kind", "label", "values", "schedule", "stack"]}
        rc, out = native_run(case, prop)
        case.update(property=prop, native_rc=rc, native_output=out[-2000:])
        if not confirmed(v["kind"], rc):
            unconfirmed += 1
            notes.append("not confirmed natively (rc %s), not reported: %s %s %s: %s" % (rc, v["entry"], v["params"], v["kind"], v["label"]))
            log("UNCONFIRMED", rc, v["entry"], v["params"], v["kind"], v["label"], out[-200:])
            continue
        seen.add(key)
        k = [f for f in known if f["harness"] == v["entry"] and v["label"].replace(" ", "_").startswith(f["label"])]
        if k:
            if k[0]["text"] not in shown:
                shown.add(k[0]["text"])
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["text"]))
            continue
        os.makedirs(os.path.join(HERE, "evidence/replay"), exist_ok=True)
        h = hashlib.sha1(json.dumps([case[x] for x in ("entry", "params", "kind", "label", "values", "schedule")]).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "evidence/replay", "%s-%s.json" % (prop, h))
        json.dump(case, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s %s: %s: %s" % (v["entry"], ",".join(map(str, v["params"])), v["kind"], v["label"]))
        print("  inputs %s schedule %s" % (v["values"], v["schedule"]))
        sys.stdout.flush()
        reported += 1
    # completed paths of the symbolic execution: the native run with the same inputs must complete, too
    checked, wrong, per = 0, 0, set()
    if not reported:
        pick = []
        for s in samples:
            if s["entry"] not in per and len(pick) < (6 if tier == "quick" else 40):
                per.add(s["entry"])
                pick += [x for x in samples if x["entry"] == s["entry"]][:3]
        one = lambda e: [(s, native_run(dict(s, kind="assert"), prop + "-" + e)) for s in pick if s["entry"] == e]
        with concurrent.futures.ThreadPoolExecutor(6) as pool:
            results = [x for l in pool.map(one, sorted(per)) for x in l]
        for s, (rc, out) in results:
            checked += 1
            if rc != 11:
                wrong += 1
                notes.append("MISMATCH: a path completes symbolically, but its native run gives %s: %s %s %s %s: %s" % (rc, s["entry"], s["params"], s["values"], s["schedule"], out[-300:]))
                log(notes[-1])
    wall = time.time() - T0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot.get("paths", 0), transitions=tot.get("decisions", 0) + tot.get("scheduling_points", 0), traces_validated_against_impl=checked - wrong,
            samples=[dict(harness=s["entry"], params=s["params"], inputs=s["values"], schedule=s["schedule"]) for s in samples[:12]],
            exhaustive=bool(done) and all(d["complete"] for d in done) and len(done) == len(jobs),
            what="states = paths of the symbolic execution (each covers every input value that takes it), transitions = symbolic branch decisions and scheduling points",
            functions_encoded=sorted(fns), jobs=done, totals=tot, reached={k: sorted(v) for k, v in covers.items()}, solver="Z3 (C API), quantifier-free bit-vectors",
            solver_queries=tot.get("queries", 0), solver_unsat=tot.get("solver_unsat", 0), solver_sat=tot.get("solver_sat", 0), solver_unknown=tot.get("solver_unknown", 0),
            solver_s=round(tot.get("solver_s", 0.0), 2), counterexamples=len(viols), counterexamples_not_confirmed=unconfirmed, native_mismatches=wrong, notes=notes,
            known_findings=sorted(shown),
        ),
        assumptions=[
            "bounds: the parameters of every job listed under jobs (numbers of changes, pendings, elements, threads' operations); nothing is said beyond them",
            "interleavings are sequentially consistent, at atomic operations, with at most `preempt` pre-emptions per execution; data races are found with vector clocks that follow the orderings in the IR",
            "the LLVM IR of the crate, compiled by rustc 1.99.1 with opt-level 1, overflow checks and debug assertions, has the semantics of LLVM's language reference; allocation never fails",
            "callbacks and wakers do not panic and do not call back into the object that called them",
        ],
        wall_s=round(wall, 2), violations=reported,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for x in notes:
        print("note:", x[:400])
    print("%s %s: %s; %d jobs (%d complete), %d paths, %d queries (%d by the solver, %.1f s), %d native traces, %.0f s" % (
        prop, tier, "VIOLATED" if reported else "held", len(done), sum(d["complete"] for d in done), tot.get("paths", 0), tot.get("queries", 0),
        tot.get("solver_sat", 0) + tot.get("solver_unsat", 0), tot.get("solver_s", 0.0), checked, wall))
    if not reported and not done:
        print("no job gave a result", file=sys.stderr)
        sys.exit(2)
    sys.exit(1 if reported else 0)


if __name__ == "__main__":
    try:
        main()
    except RuntimeError as e:
        print("error:", e, file=sys.stderr)
        sys.exit(2)
