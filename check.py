#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   -- decide one property on /repo's current tree
   check.py setup                            -- build the engine and the dependencies
   check.py run <id> <harness> [symx args]   -- debugging: one harness, raw engine output"""
import glob, json, os, re, shutil, signal, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
SYMX = f"{V}/symx/target/release/symx"
H = f"{V}/harness"
TGT = f"{H}/target"
os.environ["RUST_BACKTRACE"] = "0"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_BUILD_DIR"): ENV.pop(k, None)
BASE_ASSUMPTIONS = [
    "the LLVM IR that rustc (nightly, opt-level 1, fat LTO, debug assertions and overflow checks on) emits for the harness crate and /repo's crate represents the code that runs",
    "z3 and the symx executor are sound; every reported violation is replayed natively, sampled paths are replayed natively and compared",
    "rayon-core is replaced by a sequential stand-in that runs the two sides of a join in either order; rayon's own scheduler is not checked",
    "allocation never fails; pointers are concrete and 64 bits wide",
]

def die(msg, code=2):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(code)

def build_engine():
    if os.path.exists(SYMX): return
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=f"{V}/symx", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[-4000:]); die("engine does not build")

def build(feat, work):
    """rebuild /repo's crate and the harness from the current sources; returns (ir, so)"""
    for root in (f"{TGT}/debug", f"{TGT}/debug/build", f"{TGT}/debug/deps", f"{TGT}/debug/.fingerprint"):
        for pat in ("imageproc", "imageproc-*", "libimageproc*", "vh", "vh-*", "libvh*", "vh.*"):
            for p in glob.glob(f"{root}/{pat}"):
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    cmd = ["cargo", "rustc", "--offline", "--lib", "--target-dir", TGT]
    if feat: cmd += ["--features", feat]
    cmd += ["--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    t = time.time()
    r = subprocess.run(cmd, cwd=H, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[-6000:]); die("harness or /repo does not build")
    ll = [p for p in glob.glob(f"{TGT}/debug/**/vh*.ll", recursive=True)]
    so = [p for p in glob.glob(f"{TGT}/debug/**/libvh*.so", recursive=True)]
    if not ll or not so: die("no IR produced")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    shutil.copy(max(ll, key=os.path.getmtime), f"{work}/vh.ll")
    shutil.copy(max(so, key=os.path.getmtime), f"{work}/libvh.so")
    return time.time() - t

def limited(mem_gb):
    import resource
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def sh(cmd, timeout, mem_gb=10):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limited(mem_gb))
    try:
        o, e = p.communicate(timeout=max(timeout, 1))
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return None, "", "timeout"

def replay(work, h, inputs, timeout=20):
    """native run; returns (what, detail, obs)"""
    rc, o, e = sh([SYMX, "replay", f"{work}/libvh.so", h, inputs], timeout)
    obs = [int(l.split()[1]) for l in o.splitlines() if l.startswith("obs ")]
    if rc is None: return "hang", "no result within %d s" % timeout, obs
    m = re.search(r"^check-fail (.*)$", o, re.M)
    if m: return "check", m.group(1), obs
    if "expect-panic 1" in o and rc != 0: last = [l for l in o.splitlines() if l.startswith("expect-panic")][-1]
    else: last = ""
    if rc == 4: return "diverged", o[-300:], obs
    if rc == 5: return "assume", "", obs
    if rc == 0: return "ok", "", obs
    if last == "expect-panic 1" and not re.search("unsafe precondition|attempt to .* with overflow", e): return "expected-panic", e[-400:], obs
    return "panic", (f"signal {-rc} " if rc < 0 else f"exit {rc} ") + e.strip()[:600], obs

class Result: pass

def run_one(work, h, deadline, query_ms, samples):
    t = time.time()
    rc, o, e = sh([SYMX, "run", f"{work}/vh.ll", h, "--deadline", str(int(deadline)), "--query-ms", str(query_ms), "--samples", str(samples)], deadline + 15, 12)
    line = next((l for l in reversed(o.splitlines()) if l.startswith("{")), None)
    if line: return json.loads(line)
    r = {k: 0 for k in ("paths", "expected_panics", "forks", "merges", "instructions", "checks", "checks_symbolic", "queries", "sat", "unsat", "unknown", "solver_s", "symbolic_bits")}
    r.update(harness=h, wall_s=time.time() - t, obligations=[], covers={}, findings=[], samples=[], functions=[], killed=True,
             inconclusive=["stopped by the time limit" if rc is None else f"engine ended with {rc}: {e.strip()[-200:]}"], engine_error=rc is not None and rc != -9)
    return r

def main():
    if len(sys.argv) < 2: die(__doc__)
    if sys.argv[1] == "setup":
        build_engine()
        r = subprocess.run([SYMX, "selftest"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(r.stdout[-400:])
        if r.returncode: die("engine self-test failed")
        print("deps %.1fs" % build("", f"{V}/work/setup"))
        return 0
    if sys.argv[1] == "run":
        build_engine()
        pid, h = sys.argv[2], sys.argv[3]
        w = f"{V}/work/{pid}"
        if "--nobuild" not in sys.argv: build(pid.lower(), w)
        rest = [a for a in sys.argv[4:] if a != "--nobuild"]
        return subprocess.run([SYMX, "run", f"{w}/vh.ll", h] + rest).returncode
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build_engine()
    work = f"{V}/work/{pid}"
    build_s = build(pid.lower(), work)
    rc, o, e = sh([SYMX, "list", f"{work}/vh.ll", "q_"], 60)
    hs = [l for l in o.split() if l.startswith("q_")]
    if tier == "thorough":
        rc, o, e = sh([SYMX, "list", f"{work}/vh.ll", "t_"], 60)
        hs = [l for l in o.split() if l.startswith("t_")] + hs
    if not hs: die("no harnesses")
    meta = json.load(open(f"{V}/bounds.json")).get(pid, {})
    per = 90 if tier == "quick" else 1500
    wall = 330 if tier == "quick" else 5400
    samples = 4 if tier == "quick" else 8
    known_list = [k for k in json.load(open(f"{V}/known_findings.json")) if k.get("property") == pid and k.get("status") == "known"]
    # rough longest-first order from the committed estimates
    est = meta.get("cost", {})
    hs.sort(key=lambda h: -est.get(h, 1))
    end = t0 + wall
    stop = threading.Event()
    results, viol, errors, knowns = [], [], [], {}
    validated = mism = 0
    lock = threading.Lock()
    os.makedirs(f"{V}/evidence", exist_ok=True)
    for p in glob.glob(f"{V}/evidence/{pid}-*.replay"): os.unlink(p)

    def job(h):
        nonlocal validated, mism
        left = min(per, end - time.time())
        if stop.is_set() or left < 2:
            return
        r = run_one(work, h, left, 60000 if tier == "quick" else 600000, samples)
        fv = []
        for f in r["findings"]:
            kind, det, obs = replay(work, h, f["inputs"])
            if kind == "ok" and f["kind"] == "memory":  # an invalid access need not crash: ask valgrind
                rc, o, e = sh(["valgrind", "-q", "--error-exitcode=77", SYMX, "replay", f"{work}/libvh.so", h, f["inputs"]], 120, 24)
                if rc == 77: kind, det = "memory", e.strip()[-500:]
            bad = kind in ("check", "panic", "hang", "memory")
            if not bad:
                errors.append(f"{h}: finding does not reproduce natively ({f['kind']} {f['msg'][:120]} -> {kind} {det[:120]}) inputs {f['inputs'][:200]}")
                continue
            k = next((k for k in known_list if k["label"] in f["known"] and re.search(k.get("match", ""), f"{f['kind']} {f['msg']} {det}")), None)
            if k: knowns.setdefault(k["label"], (k, h, f)); continue
            fv.append((h, f, kind, det))
        v = m = 0
        for s in r["samples"]:
            kind, det, obs = replay(work, h, s["inputs"])
            want = ("expected-panic",) if s["panicked"] else ("ok",)
            # a replay that aborts flushes no further observations, so compare the common part there
            if kind in want and (obs == s["obs"] or s["panicked"] and obs == s["obs"][:len(obs)]): v += 1
            elif kind in ("check", "panic", "hang") and any(True for _ in r["findings"]): pass
            else:
                m += 1
                errors.append(f"{h}: native run differs from the symbolic one: {kind} {det[:150]} inputs {s['inputs'][:200]}")
        with lock:
            results.append(r); viol.extend(fv); validated += v; mism += m
        if fv and tier == "quick": stop.set()

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(job, hs))

    skipped = [h for h in hs if h not in {r["harness"] for r in results}]
    tot = lambda k: sum(r.get(k, 0) for r in results)
    incomplete = {r["harness"]: r["inconclusive"][:2] for r in results if r["inconclusive"]}
    for h in skipped: incomplete[h] = ["not run: " + ("a violation was already found" if viol else "out of time")]
    for r in results:
        if r.get("engine_error"): errors.append(f"{r['harness']}: {r['inconclusive'][0]}")
        if not r["inconclusive"] and not r["findings"]:
            if r["checks"] == 0: errors.append(f"{r['harness']}: vacuous (no assertion reached)")
            for l, n in r["covers"].items():
                if n == 0: errors.append(f"{r['harness']}: vacuous (cover '{l}' never reached)")
    # findings written out and reported
    lines = []
    for i, (h, f, kind, det) in enumerate(viol):
        path = f"{V}/evidence/{pid}-{i}.replay"
        so_hint = f"python3 {V}/check.py replay {pid} {h} {f['inputs']}"
        json.dump({"property": pid, "harness": h, "kind": f["kind"], "message": f["msg"], "inputs": f["inputs"], "stack": f["stack"], "native": kind, "native_detail": det, "rerun": so_hint}, open(path, "w"), indent=1)
        if i < 5: lines.append(f"VIOLATION property={pid} replay={path}\n  {h}: {f['kind']} {f['msg'][:200]} | native: {kind} {det[:300]}")
    repo_fn = {}
    for r in results:
        for n, c in r["functions"]:
            if "imageproc" in n: repo_fn[n] = repo_fn.get(n, 0) + c
    obl = {}
    for r in results:
        for l, n in r["obligations"]: obl[l] = obl.get(l, 0) + n
    sampl = []
    for r in results:
        for s in r["samples"][:2]:
            sampl.append({"harness": r["harness"], "inputs(width:value)": s["inputs"][:400], "observed": s["obs"][:24], "panicked": s["panicked"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": BASE_ASSUMPTIONS + meta.get("assumptions", []),
          "coverage": {
              "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated, "samples": sampl[:12],
              "exhaustive": not incomplete and not viol,
              "meaning": "states = completed symbolic paths (a path that went through joins stands for every input that reaches it); transitions = IR instructions executed symbolically; traces = solver-chosen inputs run natively with equal observations",
              "bounds": meta.get("bounds", []), "outside": meta.get("outside", []),
              "harnesses": {r["harness"]: {k: r.get(k) for k in ("paths", "forks", "merges", "instructions", "symbolic_bits", "checks", "checks_symbolic", "expected_panics", "queries", "sat", "unsat", "unknown", "solver_s", "wall_s")} | {"complete": not r["inconclusive"]} for r in sorted(results, key=lambda r: r["harness"])},
              "incomplete": incomplete, "assertions_evaluated": obl, "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"),
              "solver_s": round(tot("solver_s"), 2), "solver": next((r["solver"] for r in results if "solver" in r), ""), "build_s": round(build_s, 1),
              "functions_encoded": sorted(repo_fn), "covers": {f"{r['harness']}/{l}": n for r in results for l, n in r["covers"].items()},
              "known_findings": [{"label": l, "harness": h, "inputs": f["inputs"]} for l, (k, h, f) in knowns.items()], "errors": errors[:20]}}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {len(results)}/{len(hs)} harnesses, {len(hs) - len(incomplete)} complete, {tot('paths')} paths, {tot('queries')} queries ({tot('solver_s'):.1f} s solver), {validated} traces validated, build {build_s:.1f} s, wall {time.time()-t0:.1f} s")
    for h, why in incomplete.items(): print(f"  incomplete: {h}: {why}")
    if os.environ.get("SYMX_V"):
        for r in sorted(results, key=lambda r: -r["wall_s"]): print(f"   {r['harness']:34} {r['wall_s']:7.1f}s paths {r['paths']} checks {r['checks']}/{r['checks_symbolic']} q {r['queries']} unk {r['unknown']} solver {r['solver_s']:.1f}")
    for l, (k, h, f) in knowns.items(): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for l in lines: print(l)
    if viol: return 1
    for e in errors: print("ERROR:", e)
    if errors: return 2
    if results and len(incomplete) * 2 > len(hs): die("more than half of the harnesses did not finish")
    return 0

def do_replay():
    pid, h, inputs = sys.argv[2:5]
    print(replay(f"{V}/work/{pid}", h, inputs))
    return 0

if __name__ == "__main__":
    sys.exit(do_replay() if len(sys.argv) > 1 and sys.argv[1] == "replay" else main())
