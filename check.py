#!/usr/bin/env python3-vt
"""check.py <property id> [--thorough]: decides one property; see DESIGN.md."""
import sys, os, json, time, re, importlib, subprocess, tempfile, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv: TIER = "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
if TIER == "thorough": os.environ["IRV_TIMEOUT_MS"] = "60000"
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
from irv import build, harness as H
import specs
SPECS = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, "specs", "*.py")) if not f.endswith("__init__.py"))
BUDGET = 780 if TIER == "quick" else 3000
if TIER == "thorough": H.DEADLINE = 2400

def run_one(n): return H.run_harness(n)

def native(pid, log):
    """compiles and runs the replay programs of the property against /repo's real code -> (verdict, text)
       verdict: 'fail' (a failing input was found), 'pass', 'none'"""
    progs = sorted(glob.glob(os.path.join(HERE, "native", pid + "*.cpp")))
    if not progs: return "none", "no native replay program for this property"
    d = build.scratch(); texts = []; verdict = "none"
    INC = ["-I" + build.REPO + "/include", "-I" + build.REPO, "-I" + HERE + "/native"]; BASE = ["g++", "-std=c++20", "-O1", "-g", "-fno-access-control", "-DXTR_FUNC=", "-w"]; futs = {}; import threading, hashlib; lk = threading.Lock(); cpool = ThreadPoolExecutor(8)
    def obj(src, flags):
        """compiles one file once per set of flags -> future of (object, error)"""
        key = (src, tuple(flags))
        def job():
            o = os.path.join(d, hashlib.md5(repr(key).encode()).hexdigest() + ".o")
            try: c = subprocess.run(BASE + flags + INC + ["-c", src, "-o", o], capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired: return None, "compiler timed out"
            return (o, "") if c.returncode == 0 else (None, c.stderr[:3000])
        with lk:
            if key not in futs: futs[key] = cpool.submit(job)
            return futs[key]
    def one(p):
        src = open(p).read(); b = os.path.basename(p)[:-4]; exe = os.path.join(d, b)
        m = re.search(r"^// SRC: (.*)$", src, re.M); srcs = m[1].split() if m else []
        m = re.search(r"^// FLAGS: (.*)$", src, re.M); flags = m[1].split() if m else []
        m = re.search(r"^// LIBS: (.*)$", src, re.M); libs = m[1].split() if m else ["-lfmt", "-luring", "-lpthread"]
        if "ALL" in srcs: srcs = [os.path.relpath(x, build.REPO) for x in glob.glob(os.path.join(build.REPO, "src", "*.cpp")) if not x.endswith("xtrctl.cpp")]
        sf = [f for f in flags if not f.startswith("-DNT_")]
        try:
            os_ = [obj(p, flags)] + [obj(os.path.join(build.REPO, x), sf) for x in srcs]; rs = [f.result() for f in os_]
            e = next((e for o, e in rs if o is None), None)
            if e: return b, "none", "does not compile: " + e
            c = subprocess.run(["g++"] + flags + [o for o, _ in rs] + ["-o", exe] + libs, capture_output=True, text=True, timeout=300)
            if c.returncode: return b, "none", "does not link: " + c.stderr[:3000]
            w = tempfile.mkdtemp(dir=d)
            env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER, ASAN_OPTIONS="detect_leaks=0:exitcode=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=1", TSAN_OPTIONS="exitcode=1:halt_on_error=1", TMPDIR=w)
            r = subprocess.run([exe], cwd=w, capture_output=True, text=True, timeout=190, env=env, errors="replace")
            if r.returncode and re.search("unexpected memory mapping|failed to allocate|Cannot allocate memory|ReserveShadowMemory", r.stdout + r.stderr): return b, "none", "the sanitizer does not run here"
            return b, "pass" if r.returncode == 0 else "fail", f"exit status {r.returncode}\n" + (r.stdout + r.stderr)[-6000:]
        except subprocess.TimeoutExpired: return b, "fail" if re.search(r"^// TIMEOUT: fail", src, re.M) else "none", "timed out"
    with ThreadPoolExecutor(4) as ex:
        for b, v, t in ex.map(one, progs):
            texts.append(f"== native/{b}.cpp: {v}\n{t}")
            if v == "fail": verdict = "fail"
            elif v == "pass" and verdict == "none": verdict = "pass"
    return verdict, "\n".join(texts)

def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            l = l.strip()
            if l.startswith("finding:") and f"property={pid} " in l: out.append(l)
    except FileNotFoundError: pass
    return out

def main():
    pid = next(a for a in sys.argv[1:] if not a.startswith("-"))
    only = [a.split("=", 1)[1] for a in sys.argv[1:] if a.startswith("--only=")]
    if "--native" in sys.argv: v, t = native(pid, None); print(t); print(pid, "native:", v); build.cleanup(); sys.exit(v == "fail")
    units = set(); bad_import = []
    for s in SPECS:
        try: importlib.import_module("specs." + s)
        except Exception as e: bad_import.append(f"{s}: {e}")
    names = [n for n, (fn, props, need) in H.HARNESSES.items() if pid in props and (not only or re.search(only[0], n))]
    if not names: print(f"no harness for {pid}"); sys.exit(2)
    for n in names:
        m = sys.modules[H.HARNESSES[n][0].__module__]; units |= set(getattr(m, "UNITS_OF", lambda n: getattr(m, "UNITS", []))(n))
    def comp(u):
        try: build.compile_unit(u)
        except Exception as e: return f"{u}: {e}"
    with ThreadPoolExecutor(8) as ex: cerr = [e for e in ex.map(comp, sorted(units)) if e]
    results = []
    order = sorted(names, key=lambda n: -H.COST.get(n, 1))
    pool = mp.Pool(min(8, len(names)), maxtasksperchild=6)
    it = pool.imap_unordered(run_one, order); done = set()
    end = T0 + BUDGET - 180
    for _ in names:
        try: r = it.next(timeout=max(1, end - time.time()))
        except mp.TimeoutError: break
        except StopIteration: break
        results.append(r); done.add(r["harness"])
    pool.terminate()
    for n in names:
        if n not in done: results.append(dict(harness=n, err="unsupported: time budget", obls=[], inlined={}, contracts={}, covers={}, solver_s=0, queries=0, loops=[], wall=0, steps=0, bounded=[], targets=[]))
    results.sort(key=lambda r: r["harness"])
    failed = [(r, o) for r in results for o in r["obls"] if o["status"] == "failed"]
    unknown = [(r, o) for r in results for o in r["obls"] if o["status"] == "unknown"]
    errs = [r for r in results if r["err"]]
    nobl = sum(len(r["obls"]) for r in results); ndis = sum(1 for r in results for o in r["obls"] if o["status"] == "proved")
    kf = known_findings(pid); kfhit = []
    viol = []
    for r, o in failed:
        hit = next((k for k in kf if (m := re.search(r"match=/(.*?)/", k)) and re.search(m[1], f"{r['harness']}: {o['name']}")), None)
        if hit: kfhit.append(hit)
        else: viol.append((r, o))
    verdict, ntext = ("none", "not run: every obligation was discharged")
    if viol or unknown or errs or TIER == "thorough": verdict, ntext = native(pid, None)
    if os.environ.get("VP_VERBOSE"):
        for r in results: print(f"  {r['harness']}: {len(r['obls'])} obligations, {r['wall']:.1f}s {r['err'] or ''}")
    for r in errs: print(f"NOTE undecided by proof: {r['harness']}: {r['err'][:400]}")
    for r, o in unknown: print(f"NOTE solver gave no answer: {r['harness']}: {o['name']} at {o['loc']}")
    for e in cerr + bad_import: print("NOTE", e[:400])
    for k in sorted(set(kfhit)): print("KNOWN-FINDING: " + f"property={pid} " + re.sub(r"match=/.*?/", "", k.split(f"property={pid} ", 1)[1]).strip())
    rc = 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    nviol = 0
    if viol or verdict == "fail":
        rp = os.path.join(HERE, "evidence", f"replay_{pid}.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}\n")
            for r, o in viol[:40]:
                f.write(f"\nFAILED OBLIGATION {r['harness']}: {o['name']}\n  at {o['loc']}\n  back end {o['solver']}\n  counterexample {json.dumps(o.get('model'))}\n  path {o.get('trail')}\n")
            for r in errs: f.write(f"\nUNDECIDED {r['harness']}: {r['err']}\n")
            f.write("\nREPLAY AGAINST THE REAL CODE\n" + ntext + "\n")
        for r, o in viol[:12]: print(f"failed obligation: {r['harness']}: {o['name']} [{o['loc']}]")
        print(f"VIOLATION property={pid} replay={rp}" + ("" if verdict == "fail" else " no-failing-input-found"))
        rc = 1; nviol = max(1, len(viol))
    fns = {}
    for r in results:
        for t in r["targets"]: fns[t] = fns.get(t, 0) + 1
    assumptions = list(H.ASSUMPTIONS) + sorted({a for r in results for a in r.get("assume", [])})
    ev = dict(property=pid, tier=TIER, seed=SEED, level="proof", wall_s=round(time.time() - T0, 2), violations=nviol, assumptions=assumptions,
      coverage=dict(obligations=nobl, discharged=ndis, checker_cmd=f"python3-vt /verif/check.py {pid}",
        trusted_base=sorted({f"assumed/callee contract: {c}" for r in results for c in r["contracts"]}) + list(H.TRUSTED),
        functions_under_contract=sorted(fns), functions_inlined_into_proofs=sorted({c for r in results for c in r["inlined"]})[:400],
        backends={b: sum(1 for r in results for o in r["obls"] if o["solver"] == b and o["status"] == "proved") for b in sorted({o["solver"] for r in results for o in r["obls"]})},
        solver_seconds=round(sum(r["solver_s"] for r in results), 2), solver_queries=sum(r["queries"] for r in results),
        loops_cut_by_invariant=sum(len(r["loops"]) for r in results),
        harnesses=[dict(name=r["harness"], obligations=len(r["obls"]), discharged=sum(1 for o in r["obls"] if o["status"] == "proved"), wall_s=round(r["wall"], 2), undecided=r["err"]) for r in results],
        undecided_not_counted_as_proved=[f"{r['harness']}: {r['err']}" for r in errs] + [f"{r['harness']}: {o['name']}" for r, o in unknown],
        bounded_standin=(ntext[:3000] if (errs or unknown) else "none"), native_replay=verdict))
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid}: {ndis}/{nobl} obligations discharged in {len(results)} harnesses, {time.time() - T0:.1f} s" + (f"; undecided {len(errs) + len(unknown)}, bounded stand-in: {verdict}" if errs or unknown else ""))
    sys.stdout.flush()
    build.cleanup()
    os._exit(rc)
if __name__ == "__main__": main()
