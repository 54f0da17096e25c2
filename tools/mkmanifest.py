#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os, subprocess, spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "cfg(brec_verif)", "enable": "RUSTFLAGS=\"--cfg brec_verif\" (set by check.py)", "source_commits": ["ba98021"]},
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                 "technique": spec.TECH.get(i, spec.DEFAULT_TECH), "level": spec.LEVEL.get(i, "exploration"), "level_note": spec.RULE[i]} for i in ids],
     "not_applicable": [], "notes": "See DESIGN.md. Known findings and fixed defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
