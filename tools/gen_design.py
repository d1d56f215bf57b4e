#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design/*.md, the checks, the known findings and the seeded bugs' results (design/seeds.json)."""
import json, os, importlib, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
out = [open(os.path.join(V, "design", "intro.md")).read()]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out.append("\n## Properties and their checks\n")
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    f = os.path.join(V, "design", i + ".md")
    out.append(open(f).read() if os.path.exists(f) else "(no notes)\n")
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        try:
            m = importlib.import_module(i)
            out.append("\nWhat counts as one observation: %s.\n" % m.RULE)
            out.append("\nAssumptions: %s.\n" % "; ".join(m.ASSUMPTIONS))
        except Exception as e:
            out.append("(%s)\n" % e)
    out.append("\n")
k = json.load(open(os.path.join(V, "known_findings.json")))
out.append("## Defects found in mpb\n\nRepaired (one `fix:` commit each):\n\n")
out += ["- %s\n" % x for x in k["fixed"]]
out.append("\nRecorded, not repaired (the check prints KNOWN-FINDING for exactly these and stays quiet):\n\n")
out += ["- %s `%s`: %s\n" % (x["property"], x["key"], x["what"]) for x in k["findings"]]
out.append("\n## Planted bugs\n\nEach was confirmed: builds, passes the 87 stable tests, its demo passes without and fails with it. `caught` means the quick check of its property reported a violation.\n\n| bug | property | needs | result |\n|---|---|---|---|\n")
sj = os.path.join(V, "design", "seeds.json")
res = json.load(open(sj)) if os.path.exists(sj) else {}
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, "meta.json")))
    out.append("| %s | %s | %s: %s | %s |\n" % (d, m["property"], m["needs"], m["what_it_breaks"], res.get(d, "")))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
