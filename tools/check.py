#!/usr/bin/env python3
"""Build the model-checking harness of one property from /repo's working tree, run it, write evidence.

usage: check.py <property> [--thorough] [--only SCENARIO] [--bound N] [--keep-going] [--verbose]
exit:  0 property held on everything explored, 1 violation (VIOLATION line), 3 error of the check
"""
import atexit, tempfile, sys, os, json, hashlib, subprocess, time, re, concurrent.futures as cf, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = os.cpu_count() or 4
T0 = time.time()

CXX = ["clang++", "-std=gnu++17", "-O1", "-g1", "-fno-pie", "-fsanitize=thread", "-femulated-tls",
       "-mllvm", "-tsan-instrument-func-entry-exit=0", "-DNDEBUG", "-w",
       "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "h"), "-I" + os.path.join(VERIF, "h", "gpu")]
RTX = ["g++", "-std=gnu++17", "-O2", "-g1", "-fno-pie", "-w"]
# few retries before a lock sleeps: every branch of its lock() is within the explored executions
FEW = ["-DBOOST_FIBERS_RETRY_THRESHOLD=2", "-DBOOST_FIBERS_SPIN_BEFORE_SLEEP0=1", "-DBOOST_FIBERS_SPIN_BEFORE_YIELD=2"]
VARIANTS = {
    "ttas": [],
    "ttas_few": FEW,
    "single_core": ["-DBOOST_FIBERS_SPIN_SINGLE_CORE"],
    "adaptive": ["-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE"] + FEW,
    "futex": ["-DBOOST_FIBERS_SPINLOCK_TTAS_FUTEX"] + FEW,
    "adaptive_futex": ["-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX"] + FEW,
    "stdmutex": ["-DBOOST_FIBERS_SPINLOCK_STD_MUTEX"],
    "assert": ["-UNDEBUG"],                     # the library's own assertions are part of the oracle
    # lock elision with simulated transactional memory (h/tsx/rtm.hpp): transactions commit or abort / always abort
    "tsx": ["-DBOOST_USE_TSX", "-include", os.path.join(VERIF, "h", "tsx", "rtm.hpp")] + FEW,
    "tsx_abort": ["-DBOOST_USE_TSX", "-DMC_RTM_NEVER", "-include", os.path.join(VERIF, "h", "tsx", "rtm.hpp")] + FEW,
    "tsx_futex": ["-DBOOST_USE_TSX", "-DBOOST_FIBERS_SPINLOCK_TTAS_FUTEX", "-include", os.path.join(VERIF, "h", "tsx", "rtm.hpp")] + FEW,
    "tsx_adaptive": ["-DBOOST_USE_TSX", "-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE", "-include", os.path.join(VERIF, "h", "tsx", "rtm.hpp")] + FEW,
    "tsx_adaptive_futex": ["-DBOOST_USE_TSX", "-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX", "-include", os.path.join(VERIF, "h", "tsx", "rtm.hpp")] + FEW,
    # no atomic operations, no locks: executions with one thread only (rt.cpp --single)
    "no_atomics": ["-DBOOST_FIBERS_NO_ATOMICS"],
    "no_atomics_mt": ["-DBOOST_FIBERS_NO_ATOMICS"],   # the same, threads allowed
    "spmc": ["-DBOOST_FIBERS_USE_SPMC_QUEUE"],
}
# property -> list of (harness source, variant, needs numa sources[, property whose scenarios to run, how many deviations less])
PLAN = json.load(open(os.path.join(VERIF, "tools", "plan.json")))

def norm(t):   # addresses inside shared libraries differ from run to run
    return re.sub(r"pcs=[0-9,]*", "", re.sub(r"0x7[0-9a-f]{11}\b", "0x7", t))

def die(msg):
    print("ERROR: " + msg, flush=True); sys.exit(3)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(root):
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def compile_one(cmd, src, key, incl):
    out = os.path.join(BUILD, "obj", sha(" ".join(cmd), src, open(src, "rb").read(), key, incl) + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode: return None, "compiling %s failed:\n%s" % (src, r.stderr[-4000:])
        os.replace(tmp, out)
    return out, None

def build(units):
    """units: list of (harness, variant, numa) -> dict unit -> binary"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True); os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    inc = sha(tree_hash(os.path.join(REPO, "include")))
    mch = sha(tree_hash(os.path.join(VERIF, "mc")))
    hh = sha(*[open(p).read() for p in sorted(glob.glob(os.path.join(VERIF, "h", "**", "*.h*"), recursive=True))])
    lib = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")) + glob.glob(os.path.join(REPO, "src", "algo", "*.cpp")))
    numa = sorted(glob.glob(os.path.join(REPO, "src", "numa", "linux", "*.cpp")) + glob.glob(os.path.join(REPO, "src", "numa", "algo", "*.cpp")))
    jobs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        rt = ex.submit(compile_one, RTX, os.path.join(VERIF, "mc", "rt.cpp"), mch, "")
        def sub(src, var, key2):
            k = (src, var)
            if k not in jobs: jobs[k] = ex.submit(compile_one, CXX + VARIANTS[var], src, inc, key2)
            return jobs[k]
        parts = {}
        for (h, v, n) in units:
            parts[(h, v, n)] = [sub(os.path.join(VERIF, "h", h), v, hh + mch)]
        for (h, v, n) in units:
            parts[(h, v, n)] += [sub(s, v, "") for s in lib + (numa if n else [])]
        bins = {}
        r, e = rt.result()
        if e: die(e)
        for u, fs in parts.items():
            objs = []
            for f in fs:
                o, e = f.result()
                if e: die(e)
                objs.append(o)
            b = os.path.join(BUILD, "bin", sha(r, *objs))
            if not os.path.exists(b):
                tmp = b + ".%d.tmp" % os.getpid()
                cmd = ["clang++", "-no-pie", "-rdynamic", "-o", tmp] + objs + [r, "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"]
                cmd += ["-Wl,-Bstatic", "-lboost_context"] + (["-lboost_filesystem"] if u[2] else []) + ["-Wl,-Bdynamic", "-lpthread", "-ldl"]
                p = subprocess.run(cmd, capture_output=True, text=True)
                if p.returncode: die("link failed:\n" + p.stderr[-4000:])
                os.replace(tmp, b)
            bins[u] = b
    return bins

def prune_cache():
    # bound the cache: keep the newest files only
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d): continue
        fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
        lim = 1500 if sub == "obj" else 300
        for _, f in fs[:-lim]:
            try: os.unlink(os.path.join(d, f))
            except OSError: pass

def symbolize(binary, pcs):
    res = []
    for pc in pcs:
        if not pc: continue
        r = subprocess.run(["addr2line", "-e", binary, "-f", "-C", "-i", hex(pc - 1)], capture_output=True, text=True)
        l = r.stdout.split("\n"); out = []
        for i in range(0, len(l) - 1, 2): out.append("%s at %s" % (l[i], l[i + 1]))
        res.append(out)
    return res

def known_findings():
    ks = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) message=(.*?) \| (.*)$", l.strip())
            if m: ks.append({"property": m.group(1), "scenario": m.group(2), "message": m.group(3), "what": m.group(4)})
    return ks

SCRATCH = None
def cleanup():
    if SCRATCH: shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(cleanup)

def main():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="mcfs.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None); os.environ["MC_SCRATCH"] = SCRATCH
    a = sys.argv[1:]
    if not a: die("usage")
    prop = a[0]; thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    only = a[a.index("--only") + 1] if "--only" in a else None
    bound = a[a.index("--bound") + 1] if "--bound" in a else None
    cap = float(a[a.index("--cap") + 1]) if "--cap" in a else (3600.0 if thorough else 240.0)
    total = 1e9 if thorough else 600.0
    if prop == "--build-all":
        us = sorted({tuple(u[:3]) for us in PLAN.values() for u in us})
        build(us); return 0
    if prop not in PLAN: die("unknown property " + prop)
    units = [(tuple(u[:3]), u[3] if len(u) > 3 else prop, u[4] if len(u) > 4 else 0) for u in PLAN[prop]]
    if "--variant" in a: units = sorted({((h, a[a.index("--variant") + 1], n), p, l) for ((h, v, n), p, l) in units})
    if "--from" in a: units = [u for u in units if u[1] == a[a.index("--from") + 1]]
    bins = build([u for u, _, _ in units]); tb = time.time() - T0
    tier = "thorough" if thorough else "quick"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rows = []; viol = None; knownhits = []
    KF = [k for k in known_findings() if k["property"] == prop]
    for u, src, less in units:
        b = bins[u]
        names = [l.split()[1] for l in subprocess.run([b, "--list"], capture_output=True, text=True).stdout.splitlines() if l.split()[0] == src]
        if not names: die("no scenario for %s in %s" % (src, u[0]))
        left = max(1.0, total - (time.time() - T0))
        out = os.path.join(BUILD, "out.%d.json" % os.getpid())
        cmd = [b, "--prop", src, "--less", str(less), "--jobs", str(JOBS), "--cap", str(cap), "--total", str(left), "--out", out]
        single = ["--single"] if u[1] == "no_atomics" else []
        cmd += single
        if thorough: cmd.append("--thorough")
        if only: cmd += ["--only", only]
        if bound: cmd += ["--bound", bound]
        if "--keep-going" in a: cmd.append("--keep-going")
        for k in KF: cmd += ["--known", k["scenario"], k["message"]]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode not in (0, 1): die("%s failed with %d: %s" % (b, r.returncode, (r.stderr or "")[-2000:]))
        res = json.load(open(out)); os.unlink(out)
        for x in res:
            if single and not x["complete"] and not x["violation"]: continue   # needs more than one thread
            x["variant"] = u[1]; x["harness"] = u[0]; rows.append(x)
            for kh in x.get("known", []): knownhits.append((x["scenario"], kh))
            if x["violation"] and viol is None:
                devs = ",".join("%d:%d:%d:%d" % tuple(d) for d in x["deviations"])
                rc = [b, "--replay", x["scenario"], "--devs", devs] + (["--thorough"] if thorough else []) + single
                r1 = subprocess.run(rc, capture_output=True, text=True); r2 = subprocess.run(rc, capture_output=True, text=True)
                l1 = r1.stdout.strip().split("\n")[-1]
                if r1.returncode != 1 or norm(r1.stdout) != norm(r2.stdout): die("violation in %s does not replay: %s / %s" % (x["scenario"], l1, r2.stdout[-300:]))
                sym = symbolize(b, x["pcs"])
                path = os.path.join(VERIF, "replays", "%s-%s%s-%s.json" % (prop, "" if src == prop else src + ".", x["scenario"], u[1]))
                json.dump({"property": prop, "harness": u[0], "scenario": x["scenario"], "what": x["what"], "variant": u[1], "message": x["message"], "where": sym,
                           "deviations": x["deviations"], "replay_cmd": "tools/check.py %s --replay %s" % (prop, path), "devs": devs, "flags": rc[5:], "trace": r1.stdout.split("\n")}, open(path, "w"), indent=1)
                viol = (x, path, sym)
        if viol and "--keep-going" not in a: break
    ok = [x for x in rows if not x["violation"]]
    cov = {
        "states": sum(x["states"] for x in rows), "transitions": sum(x["steps"] for x in rows),
        "traces_validated_against_impl": sum(x["executions"] for x in rows),
        "exhaustive": all(not (x["capped"] & 5) and not x["violation"] for x in rows),
        "explanation": "Every execution is the real library code (compiled from /repo) under the controlled scheduler; "
                       "'states' counts distinct happens-before states at choice points, 'transitions' the synchronisation operations executed, "
                       "'traces_validated_against_impl' the executions (schedules) run on the implementation. Within 'bound_completed' deviations "
                       "(preemptions, early expiries, stale loads, injected spurious wake-ups) each scenario was enumerated completely.",
        "scenarios": [{k: x[k] for k in ("scenario", "what", "variant", "bound", "bound_completed", "capped", "executions", "complete", "pruned", "states", "choice_points", "steps", "max_steps", "outcomes", "discarded", "replays_checked", "seconds", "per_bound")} for x in rows],
        "samples": [{"scenario": x["scenario"], "variant": x["variant"], "distinct_outcomes": x["outcomes"], "outcomes": x["samples"][:8]} for x in rows][:60],
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": ["clang-compiled code, NDEBUG, x86-64 fcontext; interleavings at the granularity of synchronisation operations (sound for race-free code, and races are reported)",
                          "executions are sequentially consistent except in scenarios marked weak, where loads may return stale values allowed by C++ coherence and happens-before",
                          "code inside libstdc++.so/libc is not instrumented; its locks, clocks, threads and futexes are replaced by the model"],
          "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    prune_cache()
    nb = sum(1 for x in rows)
    print("%s [%s]: %d scenario runs, %d executions, %d states, %d transitions, build %.1fs, total %.1fs" % (prop, tier, nb, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], tb, time.time() - T0))
    if "--verbose" in a:
        for x in rows: print("   %-28s %-8s b=%d/%d cap=%d exec=%-8d states=%-8d outc=%-5d maxsteps=%-5d %.2fs %s" % (x["scenario"], x["variant"], x["bound_completed"], x["bound"], x["capped"], x["executions"], x["states"], x["outcomes"], x["max_steps"], x["seconds"], "VIOLATION " + x["message"] if x["violation"] else ""))
    seen = set()
    for sc, what in knownhits:
        if (sc, what) in seen: continue
        seen.add((sc, what)); print("KNOWN-FINDING: property=%s %s: %s" % (prop, sc, what))
    if viol:
        x, path, sym = viol
        print("scenario %s (%s): %s" % (x["scenario"], x["what"], x["message"]))
        for s in sym: print("   " + " <- ".join(s[:4]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0

def replay_file(path):
    d = json.load(open(path)); units = [tuple(u[:3]) for u in PLAN[d["property"]] if u[1] == d["variant"] and u[0] == d.get("harness", u[0])]
    bins = build(units)
    for u in units:
        names = [l.split()[1] for l in subprocess.run([bins[u], "--list"], capture_output=True, text=True).stdout.splitlines()]
        if d["scenario"] in names:
            r = subprocess.run([bins[u], "--replay", d["scenario"], "--devs", d["devs"]] + d.get("flags", []), capture_output=True, text=True)
            print(r.stdout); return r.returncode
    die("scenario not found")

if __name__ == "__main__":
    if "--replay" in sys.argv: sys.exit(replay_file(sys.argv[sys.argv.index("--replay") + 1]))
    sys.exit(main())
