#!/usr/bin/env python3
"""finding.py fixed P06 <commit> text | finding.py known P06 key text: edits known_findings.json (never called by a check)"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
if sys.argv[1] == "fixed":
    d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[2:5]))
else:
    d["findings"].append({"property": sys.argv[2], "key": sys.argv[3], "what": sys.argv[4]})
json.dump(d, open(p, "w"), indent=1)
