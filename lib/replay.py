#!/usr/bin/env python3
"""replay.py FILE: rebuilds the driver of a replay file from /repo's working tree and replays that one execution."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
f = sys.argv[1]; h = dict(l.split(None, 1) for l in open(f) if l[0] != "#" and " " in l)
prop, variant, suite = h["property"].strip(), h["variant"].strip(), h["suite"].strip()
check.BUILD = os.path.join(check.BUILD, prop + "-replay"); os.makedirs(check.BUILD, exist_ok=True)
cfg = json.load(open(os.path.join(check.LIB, "checks.json")))[prop]
if "script" in cfg:   # the whole suite is run again
    b = check.BUILD; sys.exit(subprocess.call([*cfg["script"], "--suite", suite, "--tier", "quick", "--seed", "1", "--out", b + "/out.json", "--replaydir", b, "--known", b + "/none", "--build", b, "--repo", check.REPO], cwd=check.VERIF))
lib = check.build_lib(variant)
for d in cfg["drivers"]:
    if variant not in d.get("variants", ["rel", "asan"]): continue
    if ('"%s"' % suite) not in open(os.path.join(check.DRV, d["src"])).read(): continue
    exe = check.build_driver(prop, d["src"], variant, lib, d.get("cflags", []), d.get("ldflags", []), d.get("conc", False), d.get("toolbox", ()))
    sys.exit(subprocess.call([exe, "--prop", prop, "--variant", variant, "--replay", f]))
sys.exit("no driver has suite %s" % suite)
