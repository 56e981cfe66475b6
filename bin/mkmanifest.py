#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and bin/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/bin")
from props import PROPS, NOT_APPLICABLE, NOTES, HOOKS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "hooks": HOOKS, "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 bin/check.py {i}", "thorough_cmd": f"python3 bin/check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: Verus contracts on functions extracted mechanically from /repo on every run",
            "level": "proof",
            "level_note": NOTES.get(i) or "Every obligation of the listed functions, generated from /repo's current source, must be accepted by Verus (unbounded). Trusted: Verus/Z3, vstd's std specifications, the extraction rules and the stand-ins listed in the evidence. A seeded concrete replay of the real crates supplies failing inputs and stands in (bounded, not counted as proved) for functions the verifier cannot take."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
