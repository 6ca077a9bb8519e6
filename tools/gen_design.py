#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from the suites of the drivers, the notes below,
the known-findings file and the planted bugs (run after editing any of them)."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = json.load(open(f"{V}/lib/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
# id: (oracle, what is left out or tolerated and why, seconds of the quick check on 8 cores)
N = json.load(open(f"{V}/lib/design_notes.json"))
def suites(src):
    s = open(f"{V}/drivers/{src}").read(); i = s.rfind("mc_suites[]"); t = s[i:]
    return re.findall(r'\{\s*"([\w+-]+)",\s*\w+,\s*"((?:[^"\\]|\\.)*)"', t)
OCT = json.load(open(f"{V}/lib/octave/suites.json"))
fixed, known = {}, {}
for l in open(f"{V}/known-findings.txt"):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if m: fixed.setdefault(m[1], []).append((m[2], m[3]))
    m = re.match(r"known: property=(C\d+) (.*)", l)
    if m: known.setdefault(m[1], []).append(m[2])
seeds = {}
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["needs"]))
out = [open(f"{V}/lib/design_head.md").read().rstrip(), "", "## Property by property", ""]
for p in props:
    i = p["id"]; n = N.get(i, {}); out += [f"### {i} {p['title']}", ""]
    if i not in checks: out += ["No check: listed under not_applicable in MANIFEST.json.", ""]; continue
    out += [f"*Oracle.* {n.get('oracle', 'The definition in the statement, written naively in the driver.')}", ""]
    out += ["*Enumerated* (bounds of the quick tier; in brackets or by larger constants those of the thorough tier):", ""]
    for x in OCT.get(i, []): out += [f"* `{x['name']}` (`lib/octave/{x['fn']}.m`): {x['bound']}" + (f" [{x['thorough']}]" if "thorough" in x else "")]
    for d in checks[i].get("drivers", []):
        ss = suites(d["src"])
        if not ss: out += [f"* `{d['src']}`"]
        for name, b in ss: out += [f"* `{name}`: {b}"]
    out += [""]
    if n.get("out"): out += [f"*Left out or tolerated.* {n['out']}", ""]
    if n.get("cost"): out += [f"*Cost.* about {n['cost']} s quick on the 8 cores, compilation included."]
    if i in fixed: out += [f"*Defects found and repaired:* " + "; ".join(f"{t} ({h})" for h, t in fixed[i]) + "."]
    if i in known: out += [f"*Known findings:* " + "; ".join(known[i]) + "."]
    if i in seeds: out += ["*Planted bugs:* " + "; ".join(f"`{a}` ({b.rstrip('.')})" for a, b, c in seeds[i]) + " — all caught by this check."]
    out += [""]
open(f"{V}/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
