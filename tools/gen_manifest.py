#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the tables below."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
ids = [p['id'] for p in props]
exec(open('/verif/tools/claims.py').read())
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet (work in progress)")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
