"""Writes MANIFEST.json from the registered checks; every listed property without a check goes to not_applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vstat import api, rules  # noqa

NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
from techniques import of  # noqa
for p in props:
    i = p["id"]
    if i in api.REGISTRY:
        t = of(i)
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} --tier thorough",
                       "technique": t["technique"], "level": "other", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only; no hooks in /repo. check.py PROPERTY decides one property from /repo's current source."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
