#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after changing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in check.AREAS:
        t, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "the checks need no hooks: harnesses enter through go build -overlay", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; their behaviours are replayed on code built from /repo's working tree (harness/, areas/). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
