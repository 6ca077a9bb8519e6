#!/usr/bin/env python3
"""Checks of the toolbox's .m functions: builds the MEX functions a suite needs
from the working tree, then runs each suite (an .m file of this directory that
enumerates its inputs exhaustively) in an Octave process of its own."""
import sys, os, json, subprocess, shutil, argparse, re, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(HERE))
import check
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--suite", default=os.environ.get("MC_SUITE"))
for o in "tier seed out replaydir known build repo".split(): ap.add_argument("--" + o)
a = ap.parse_args()
check.REPO, check.BUILD = a.repo, a.build
cfg = json.load(open(os.path.join(HERE, "suites.json")))[a.prop]
known = set(open(a.known).read().split()) if a.known and os.path.exists(a.known) else set()
mex = sorted({m for s in cfg for m in s.get("mex", [])})
mdir = os.path.join(a.build, "mex"); shutil.rmtree(mdir, ignore_errors=True); os.makedirs(mdir)
if mex:
    lib = check.build_lib("rel", ["-fPIC"])
    def one(n):
        b = os.path.basename(n)
        r = check.run(["mkoctfile", "--mex", "-DNDEBUG", "-DVL_DISABLE_OPENMP", "-DMWSIZE_MAX=2147483647", "-w", "-I" + a.repo, "-I" + a.repo + "/toolbox",
                       os.path.join(a.repo, "toolbox", n + ".c"), lib, "-lpthread", "-lm", "-o", os.path.join(mdir, b + ".mex")],
                      env=dict(os.environ, OCT_LINK_OPTS="-Wl,-Bsymbolic", HOME=a.build), cwd=mdir)
        if r.returncode: raise SystemExit("cannot compile toolbox/%s.c:\n%s" % (n, r.stdout))
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, mex))
dirs = sorted({d for d, _, fs in os.walk(os.path.join(a.repo, "toolbox")) if any(f.endswith(".m") for f in fs)
               and os.path.relpath(d, os.path.join(a.repo, "toolbox")).split(os.sep)[0] not in ("xtest", "demo", "noprefix", "mex")})
LIMIT = 400 if a.tier == "quick" else 800
def suite(s):
    n = s["name"]; scratch = os.path.join(a.build, "scratch-" + n); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    ev = "".join("addpath('%s');" % d for d in [*dirs, mdir, HERE]) + "oc_run('%s','%s',%d)" % (n, s["fn"], a.tier != "quick")
    t = time.time()
    try:
        r = subprocess.run(["octave-cli", "--norc", "--no-history", "--quiet", "--no-gui", "--eval", ev], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", cwd=scratch, timeout=LIMIT, env=dict(os.environ, HOME=scratch, OMP_NUM_THREADS="1", LC_ALL="C.UTF-8"))
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace"), "timeout"
    shutil.rmtree(scratch, ignore_errors=True)
    return s, out, rc, time.time() - t
res = []; bad = 0
sel = [s for s in cfg if not a.suite or s["name"] == a.suite]
with cf.ThreadPoolExecutor(8) as ex: runs = list(ex.map(suite, sel))
for s, out, rc, dt in runs:
    n = s["name"]; st = re.search(r"^OCSTAT (\d+) (\d+) (\d+) (\d+)$", out, re.M)
    fails = re.findall(r"^OCFAIL (\S+) (\d+) (.*)$", out, re.M)
    if not st or rc != 0:
        fails.append(("stopped", "1", "Octave ended with %s before the suite was complete: %s" % (rc, " | ".join(out.strip().splitlines()[-4:])[:400])))
    kk = []
    for k, c, m in fails:
        key = n + ":" + k
        if key in known: kk.append([key, m, int(c)]); continue
        bad = 1; p = os.path.join(a.replaydir, "%s-%s-%s.txt" % (a.prop, n, re.sub(r"\W+", "_", k)))
        open(p, "w").write("property %s\nvariant octave\nsuite %s\nkey %s\n# %s\n# replay: python3 lib/replay.py %s\n# output:\n%s" % (a.prop, n, k, m, p, "".join("# " + l + "\n" for l in out.splitlines()[-40:])))
        print("FAIL suite=%s variant=octave key=%s (%s cases): %s" % (n, k, c, m[:600])); print("MCVIOLATION replay=" + p)
    e, i, so, op = map(int, st.groups()) if st else (0, 0, 0, 0)
    print("  suite %-14s executions=%d inner=%d states=%d ops=%d wall=%.1fs" % (n, e, i, so, op, dt))
    res.append(dict(name=n, variant="octave", bound=s["bound"] + ("" if a.tier == "quick" else (" (thorough: %s)" % s["thorough"] if "thorough" in s else "")), executions=e, inner_cases=i, states=so, operations=op,
                    capped=False, wall_s=round(dt, 1), known_keys=kk, samples=re.findall(r"^OCSAMPLE (.*)$", out, re.M)[:2]))
json.dump({"suites": res}, open(a.out, "w")); sys.exit(bad)
