#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib"]
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if p:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
            evidence_file=f"evidence/{i}.json", technique=p.get("technique", "Verus contracts on functions extracted from the source, with a bounded search that replays failures"),
            level=p.get("level", "proof"), level_note=p["note"]))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="Every check extracts the functions it verifies from /repo's working tree on each run (lib/vunit.py), has Verus discharge their contracts, and runs a bounded search on the real code compiled with a stand-in for the mqtt-proto crate, which is not available offline. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
