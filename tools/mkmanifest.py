#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks = {}
p = os.path.join(R, "tools", "checks.json")
if os.path.exists(p):
    checks = json.load(open(p))
out = {"version": 1,
       "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "verif (no hooks are needed: no build-tagged code exists in /repo)",
                 "enable": "plain build; everything is observed through exported API, CLI and files",
                 "source_commits": []},
       "checks": [], "not_applicable": []}
for q in props:
    i = q["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append({"property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": c["technique"], "level": c.get("level", "exploration"),
            "level_note": c.get("level_note", "sampled inputs")})
    else:
        out["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(out, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
