#!/usr/bin/env python3
"""Builds /repo's library sources together with one harness, runs the exhaustive exploration and writes evidence.

usage: run_check.py <property id> [--tier quick|thorough] [--replay FILE] [--only SUITE] [--keep]
exit 0: property held on everything explored; 1: VIOLATION; 2: the check itself could not run
"""
import sys, os, json, subprocess, hashlib, glob, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LNLIB_REPO", "/repo")
SRC = os.path.join(REPO, "src", "LNLib")
CXX = ["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
       "-ftrivial-auto-var-init=pattern", "-DLNLIB_HOME", "-w", "-isystem", "/usr/include/eigen3",
       "-I" + os.path.join(SRC, "include"), "-I" + os.path.join(V, "mc")]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def build(pid):
    inc = glob.glob(os.path.join(SRC, "include", "**", "*"), recursive=True)
    inc = [p for p in inc if os.path.isfile(p)]
    srcs = sorted(glob.glob(os.path.join(SRC, "**", "*.cpp"), recursive=True))
    hk = digest(inc + [p for p in glob.glob(os.path.join(SRC, "**", "*.h"), recursive=True)], " ".join(CXX))
    cache = os.path.join(V, "build", "obj"); os.makedirs(cache, exist_ok=True)
    own = glob.glob(os.path.join(V, "mc", "*.hpp"))
    harness = os.path.join(V, "checks", pid + ".cpp")
    cc, hc, link = CXX, CXX, []
    if "MC_CONCURRENT" in open(harness).read():       # every load and store of the library is a step of the controlled scheduler (mc/sched.hpp)
        hc = [x for x in CXX if x != "-fsanitize=address"]; cc = hc + ["-fsanitize=thread"]; hk += "t"
        link = ["-Wl," + ",".join("--wrap=" + f for f in "malloc free calloc realloc memcpy memmove memset __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_once".split())]
    if "MC_CAPI" in open(harness).read():             # the C interface belongs to the code under check
        capi = os.path.join(REPO, "dotnet", "CAPI"); srcs = srcs + sorted(glob.glob(os.path.join(capi, "**", "*.cpp"), recursive=True))
        inc2 = [p for p in glob.glob(os.path.join(capi, "**", "*.h"), recursive=True)]
        cc = hc = CXX + ["-I" + os.path.join(capi, "include"), '-DMC_REPO="%s"' % REPO]; hk += digest(inc2, REPO); link = ["-rdynamic", "-ldl"]
    jobs, objs = [], []
    for s in sorted(srcs, key=lambda p: (0 if p.endswith("MathUtils.cpp") else 1, -os.path.getsize(p))):
        o = os.path.join(cache, os.path.basename(s)[:-4] + "." + digest([s], hk) + ".o"); objs.append(o)
        jobs.append((s, o))
    ho = os.path.join(cache, pid + "." + digest([harness] + own, hk) + ".o")
    jobs.insert(1, (harness, ho))
    def one(j):
        s, o = j
        if os.path.exists(o): return None
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh((hc if s == harness else cc) + ["-c", s, "-o", tmp])
        if r.returncode: return s + "\n" + r.stdout[-3000:]
        os.rename(tmp, o); return None
    with ThreadPoolExecutor(8) as ex:
        for e in ex.map(one, jobs):
            if e: sys.stderr.write("BUILD FAILED\n" + e + "\n"); sys.exit(2)
    exe = os.path.join(cache, pid + "." + hashlib.sha256(" ".join([ho] + objs).encode()).hexdigest()[:24] + ".exe")
    if not os.path.exists(exe):
        r = sh(hc + objs + [ho] + link + ["-o", exe + ".%d" % os.getpid(), "-lpthread"])
        if r.returncode: sys.stderr.write("LINK FAILED\n" + r.stdout[-3000:]); sys.exit(2)
        os.rename(exe + ".%d" % os.getpid(), exe)
    return exe

def known(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status", "open") == "open"]

def main():
    a = sys.argv[1:]; pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build(pid); tb = time.time() - t0
    out = tempfile.mkdtemp(prefix="lnmc-%s-" % pid)
    try:
        cmd = [exe, "--out", out, "--workers", "8"]
        if tier == "thorough": cmd += ["--thorough", "--time", os.environ.get("VERIF_TIME", "14000")]
        else: cmd += ["--time", os.environ.get("VERIF_TIME", "600")]
        if "--only" in a: cmd += ["--only", a[a.index("--only") + 1]]
        if "--replay" in a:
            rp = json.load(open(a[a.index("--replay") + 1]))
            cmd += ["--replay", rp["path"]] + (["--thorough"] if rp.get("tier") == "thorough" and tier != "thorough" else [])
            r = sh(cmd); print(r.stdout)
            if r.returncode: print("VIOLATION property=%s replay=%s" % (pid, a[a.index("--replay") + 1]))
            return 1 if r.returncode else 0
        kn = known(pid)
        if kn:
            kf = os.path.join(out, "known"); open(kf, "w").write("\n".join(k["key"] for k in kn) + "\n"); cmd += ["--known", kf]
        r = sh(cmd)
        sj = os.path.join(out, "summary.json")
        if not os.path.exists(sj):
            sys.stderr.write("explorer failed (%d)\n%s\n" % (r.returncode, r.stdout[-3000:])); return 2
        s = json.load(open(sj, errors="replace"), strict=False)
        viol = s.get("violation")
        os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
        meta = json.load(open(os.path.join(V, "bounds.json"))).get(pid, {})
        cov = {"states": s["states"], "transitions": s["transitions"], "traces_validated_against_impl": s["traces"],
               "samples": s["samples"] or ["(none)"], "exhaustive": s["exhaustive"],
               "executions_started": s["executions"], "infeasible_paths": s["skipped"], "outcomes": s["counters"],
               "drivers": s["suites"], "bounds": meta.get("bounds", ""),
               "how_bound_to_code": "every path is executed on the compiled sources of /repo; there is no separate implementation model"}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
              "build_s": round(tb, 2), "known_findings_hit": s["known"]}
        json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
        for k in kn:
            print("KNOWN-FINDING: property=%s %s (hit %d times)" % (pid, k["what"], s["known"].get(k["key"], 0)))
        print("%s %s: states=%d transitions=%d traces=%d exhaustive=%s build=%.1fs wall=%.1fs" % (pid, tier, s["states"], s["transitions"], s["traces"], s["exhaustive"], tb, time.time() - t0))
        for k, v in s["counters"].items(): print("  %-40s %d" % (k, v))
        if os.environ.get("MC_SURVEY"):
            seen = {}
            for x in s["samples"]:
                if x.startswith("FAIL"):
                    k = x.split(":")[0]; seen[k] = seen.get(k, 0) + 1
                    if seen[k] <= int(os.environ["MC_SURVEY"]): print(x[:450])
        if viol:
            rp = os.path.join(V, "evidence", "replays", pid + ".json")
            json.dump({"property": pid, "tier": tier, **viol, "run": "python3 run_check.py %s --replay %s" % (pid, rp)}, open(rp, "w"), indent=1)
            print("suite=%s key=%s\n  %s\n  case: %s" % (viol["suite"], viol["key"], viol["msg"], viol["case"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp)); return 1
        if s["error"]:
            sys.stderr.write("check error: %s\n" % s["error"]); return 2
        if s["traces"] == 0 or s["transitions"] == 0:
            sys.stderr.write("vacuous exploration\n"); return 2
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)
sys.exit(main())
