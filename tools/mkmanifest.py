#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/plans.py's PLANS."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import plans  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
m = {"version": 1,
     "setup_cmd": "python3 harness/setup.py",
     "checks": [], "not_applicable": []}
for p in ids:
    if p in plans.PLANS:
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 harness/check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py %s" % p,
            "technique": plans.TECHNIQUE.get(p, "explicit TLA+ specification; recorded runs of the real program replayed through it by TLC"),
            "level": "model_checking",
            "level_note": plans.NOTE.get(p, "TLC replays generated runs of the real program through the specification's actions; bounded to the generator's inputs")})
    else:
        m["not_applicable"].append({"property": p, "reason": plans.NOTYET.get(p, "machinery not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
