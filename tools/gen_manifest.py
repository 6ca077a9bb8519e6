#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
cfg = json.load(open(V + "/lib/checks.json"))
na = json.load(open(V + "/lib/not_applicable.json")) if os.path.exists(V + "/lib/not_applicable.json") else {}
checks, nots = [], []
for p in props:
    c = cfg.get(p["id"])
    if c:
        checks.append(dict(property=p["id"], quick_cmd="python3 lib/check.py %s quick" % p["id"], thorough_cmd="python3 lib/check.py %s thorough" % p["id"],
            technique=c.get("technique", "stateless model checking of the real code: exhaustive depth-first enumeration of bounded operation sequences and inputs against a reference model"),
            level=c.get("level", "model_checking"),
            level_note=c.get("note", "Holds for every execution within the bounds listed in the evidence file, on the shipped code compiled as released and under AddressSanitizer; trusts the reference in the driver, the compiler and libm.")))
    else: nots.append(dict(property=p["id"], reason=na.get(p["id"], "No check has been built yet.")))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=nots,
  notes="Every check compiles /repo/vl from the working tree into /verif/build/<id> (ignored by git), in a release-like and an AddressSanitizer variant. No hooks in /repo are needed. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nots), "not applicable")
