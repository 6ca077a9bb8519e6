#!/usr/bin/env python3
"""Runs the check of one property: builds /repo/vl from the working tree in the
variants needed, builds the property's drivers, explores, writes the evidence."""
import sys, os, json, subprocess, time, glob, shutil, hashlib, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(VERIF, "lib"); DRV = os.path.join(VERIF, "drivers")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
CC = "gcc"
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
BASE = ["-std=c99", "-D_GNU_SOURCE", "-fno-stack-protector", "-I" + REPO, "-pthread", "-w"]
VARIANTS = {
  "rel":  ["-O3", "-DNDEBUG", "-DVL_DISABLE_OPENMP", "-g1"],
  "trace": ["-O1", "-DNDEBUG", "-DVL_DISABLE_OPENMP", "-g1", "-fsanitize=thread", "-U_FORTIFY_SOURCE"],
  "omp":  ["-O1", "-DNDEBUG", "-fopenmp", "-Dnone=shared", "-g1", "-fsanitize=thread", "-U_FORTIFY_SOURCE"],
  "asan": ["-O1", "-g", "-DNDEBUG", "-DVL_DISABLE_OPENMP", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def lib_sources(): return sorted(glob.glob(REPO + "/vl/*.c"))

def build_lib(variant, extra=(), only=None):
    d = os.path.join(BUILD, "lib-" + variant); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    def one(src):
        b = os.path.basename(src); o = os.path.join(d, b[:-2] + ".o")
        fl = list(VARIANTS[variant]) + list(extra)
        if b.endswith("_sse2.c"): fl += ["-msse2"]
        if b.endswith("_avx.c"): fl += ["-mavx"]
        r = run([CC, *BASE, *fl, "-c", src, "-o", o])
        if r.returncode: raise SystemExit("cannot compile %s (%s):\n%s" % (src, variant, r.stdout))
        return o
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, [s for s in lib_sources() if not only or os.path.basename(s) in only]))
    a = os.path.join(d, "libvl.a")
    r = run(["ar", "rcs", a, *objs]); assert r.returncode == 0, r.stdout
    return a

def build_toolbox(names, variant):
    """The toolbox's MEX functions, each as one object that exports mex_<name> only."""
    d = os.path.join(BUILD, "toolbox-" + variant); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    def one(n):
        b = os.path.basename(n); o = os.path.join(d, b + ".o")
        r = run([CC, *BASE, *VARIANTS[variant], "-I" + os.path.join(LIB, "mexsim"), "-I" + REPO + "/toolbox", "-DmexFunction=mex_" + b, "-c", os.path.join(REPO, "toolbox", n + ".c"), "-o", o])
        if r.returncode: raise SystemExit("cannot compile toolbox/%s.c (%s):\n%s" % (n, variant, r.stdout))
        r = run(["objcopy", "--keep-global-symbol=mex_" + b, o]); assert r.returncode == 0, r.stdout
        return o
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, names))

def build_programs(names, variant):
    """Command line programs of src/, each as one object that exports cli_<name> (its main) only."""
    d = os.path.join(BUILD, "programs-" + variant); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    def one(n):
        o = os.path.join(d, n + ".o")
        r = run([CC, *BASE, *VARIANTS[variant], "-include", os.path.join(LIB, "clisim", "clisim.h"), "-Dmain=cli_" + n, "-c", os.path.join(REPO, "src", n + ".c"), "-o", o])
        if r.returncode: raise SystemExit("cannot compile src/%s.c (%s):\n%s" % (n, variant, r.stdout))
        r = run(["objcopy", "--keep-global-symbol=cli_" + n, o]); assert r.returncode == 0, r.stdout
        return o
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, names))

CONC_WRAP = ["-Wl,--wrap=" + ",--wrap=".join("pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_mutex_init pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_getspecific pthread_setspecific memcpy memmove memset strcpy strncpy vsnprintf vsprintf".split())]
def build_driver(name, src, variant, lib, cflags=(), ldflags=(), conc=False, toolbox=(), programs=()):
    exe = os.path.join(BUILD, "%s-%s" % (name, variant))
    fl = [f for f in VARIANTS[variant] if not f.startswith("-O")] + (["-O2"] if variant != "asan" else ["-O1"])
    if variant in ("trace", "omp"): fl = [f for f in fl if f not in ("-fsanitize=thread", "-fopenmp", "-Dnone=shared")]
    extra = [os.path.join(LIB, "conc.c")] if conc else []
    if conc: ldflags = [*ldflags, *CONC_WRAP]
    if toolbox:
        extra += [os.path.join(LIB, "mexsim", "mexsim.c"), *build_toolbox(toolbox, variant)]
        cflags = [*cflags, "-I" + os.path.join(LIB, "mexsim")]
    if programs:
        extra += [os.path.join(LIB, "clisim", "clisim.c"), *build_programs(programs, variant)]
        cflags = [*cflags, "-I" + os.path.join(LIB, "clisim")]
    r = run([CC, *[b for b in BASE if b != "-w"], "-std=gnu99", *fl, "-w", "-Werror=implicit-function-declaration", "-I" + LIB, *cflags, os.path.join(DRV, src), os.path.join(LIB, "mc.c"), *extra, lib, "-lm", *WRAP, *ldflags, "-o", exe])
    if r.returncode: raise SystemExit("cannot build driver %s (%s):\n%s" % (src, variant, r.stdout))
    return exe

def known_keys(prop):
    """known-findings.txt: lines 'known: property=C16 key=<suite:key> <description>' (fixed: lines suppress nothing)."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                k = l.split("key=", 1)[1].split(" ", 1)
                out[k[0].strip()] = k[1].strip() if len(k) > 1 else ""
    return out

def main():
    cfg = json.load(open(os.path.join(LIB, "checks.json")))
    global BUILD
    prop = sys.argv[1]; c = cfg[prop]; BUILD = os.path.join(BUILD, prop)
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): tier = sys.argv[2]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + "/" + prop + "-*"): os.unlink(f)
    kn = known_keys(prop); kf = os.path.join(BUILD, prop + ".known")
    open(kf, "w").write("".join(k + "\n" for k in kn))
    viol = []; suites = []; broken = []; seen_known = {}
    budget = c.get("budget", {}).get(tier, 240 if tier == "quick" else 700)
    if "script" in c:   # a check with a program of its own, same output conventions
        outp = os.path.join(BUILD, prop + ".json")
        r = subprocess.Popen([*c["script"], "--tier", tier, "--seed", str(seed), "--out", outp, "--replaydir", rdir, "--known", kf, "--build", BUILD, "--repo", REPO], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for l in r.stdout:
            if l.startswith("MCVIOLATION replay="): viol.append(l.strip().split("replay=", 1)[1])
            else: print(l, end="")
        rc = r.wait()
        if rc not in (0, 1): broken.append("%s ended with %d" % (c["script"], rc))
        if os.path.exists(outp): suites += json.load(open(outp))["suites"]
    libs = {}; only_variant = os.environ.get("MC_VARIANT")
    runs_left = sum(len([v for v in d.get("variants", ["rel", "asan"]) if not only_variant or v == only_variant]) for d in c.get("drivers", []))
    for d in c.get("drivers", []):
        for v in d.get("variants", ["rel", "asan"]):
            if only_variant and v != only_variant: continue
            if v not in libs: libs[v] = build_lib(v)
            name = prop + "-" + os.path.basename(d["src"])[:-2]
            exe = build_driver(name, d["src"], v, libs[v], d.get("cflags", []), d.get("ldflags", []), d.get("conc", False), d.get("toolbox", ()), d.get("programs", ()))
            outp = os.path.join(BUILD, name + "-" + v + ".json")
            if os.path.exists(outp): os.unlink(outp)
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3500:abort_on_error=0:handle_segv=1:malloc_context_size=10")
            runs_left -= 1
            if tier == "thorough": budget = max(20, (820 - (time.time() - t0)) / (runs_left + 1))   # the whole check stays within its time
            cmd = [exe, "--tier", tier, "--seed", str(seed), "--prop", prop, "--out", outp, "--replaydir", rdir, "--known", kf, "--variant", v, "--budget", str(budget)]
            if os.environ.get("MC_SUITE"): cmd += ["--suite", os.environ["MC_SUITE"]]
            print("[%s] %s (%s)" % (prop, d["src"], v), flush=True)
            r = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=BUILD)
            for l in r.stdout:
                if l.startswith("MCVIOLATION replay="): viol.append(l.strip().split("replay=", 1)[1])
                else: print(l, end="", flush=True)
            rc = r.wait()
            if rc not in (0, 1): broken.append("%s ended with %d" % (exe, rc))
            if os.path.exists(outp):
                try: suites += json.load(open(outp))["suites"]
                except Exception as e: broken.append("bad statistics: %s" % e)
    for s in suites:
        for k, m, n in s.pop("known_keys", []): seen_known.setdefault(k, [m, 0])[1] += n
    for k, (m, n) in seen_known.items(): print("KNOWN-FINDING: property=%s %s: %s (%d executions; e.g. %s)" % (prop, k, kn.get(k, ""), n, m[:200]))
    ex = sum(s["executions"] for s in suites); inner = sum(s["inner_cases"] for s in suites)
    samples = [x for s in suites for x in s.pop("samples", [])[:2]][:40]
    cov = dict(states=sum(s["states"] for s in suites), transitions=sum(s["operations"] for s in suites),
               traces_validated_against_impl=ex, samples=samples or ["(none)"],
               exhaustive=bool(suites) and not any(s["capped"] for s in suites),
               inner_cases=inner,
               rule="states: distinct fingerprints of observed results; transitions: library operations executed; traces: complete executions of the real code compared step by step with the reference; inner_cases: further comparisons inside executions",
               suites=suites)
    ev = dict(property=prop, tier=tier, seed=seed, level=c.get("level", "model_checking"), coverage=cov,
              assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: executions=%d inner=%d states=%d operations=%d exhaustive=%s violations=%d wall=%.1fs" % (prop, tier, ex, inner, cov["states"], cov["transitions"], cov["exhaustive"], len(viol), time.time() - t0))
    for v in viol: print("VIOLATION property=%s replay=%s" % (prop, v))
    sys.stdout.flush()
    if viol: sys.exit(1)
    if broken or not suites: print("BROKEN:", broken); sys.exit(3)
    sys.exit(0)
if __name__ == "__main__": main()
