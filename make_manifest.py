#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os
import checks as C
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "Each check builds its harness from /repo's working tree (about 5-15 s) and runs a fixed number of generated cases; see DESIGN.md."}
for p in props:
    i = p["id"]
    s = C.CHECKS.get(i)
    if s is None:
        m["not_applicable"].append({"property": i, "reason": C.NOT_APPLICABLE.get(i, "check not built yet")})
        continue
    m["checks"].append({
        "property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": s.get("technique", "property-based testing: generated inputs against a reference model, with shrinking; libFuzzer in the thorough tier"),
        "level": s.get("level", "exploration"),
        "level_note": s.get("note", "Held on every generated case; assumes the reference model and the sampled distribution, on x86-64 Linux with g++ under AddressSanitizer.")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
