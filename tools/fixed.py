"""Append a 'fixed' entry: python3 tools/fixed.py PROPERTY COMMIT WHAT"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, c, w = sys.argv[1:4]
with open(V + "/known_findings.jsonl", "a") as f:
    f.write(json.dumps(dict(status="fixed", property=p, commit=c, what=w, line=f"fixed: property={p} {c} {w}")) + "\n")
