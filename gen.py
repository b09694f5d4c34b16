#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
import os

from checks import CHECKS
from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL_NOTE = ("Held on every execution observed: the monitor compared the real code with a reference model (counts in the evidence "
              "file). Executions are sampled from the seed, not enumerated; trusts the compiler's sanitizers and the model.")

assert [p["id"] for p in PROPS] == sorted(set(p["id"] for p in PROPS), key=[p["id"] for p in PROPS].index)
ids = {p["id"] for p in PROPS}
assert set(CHECKS) <= ids, set(CHECKS) - ids
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert os.path.isabs("/repo") and all(os.path.exists("/repo/" + f) for f in p["anchors"]["files"]), p["anchors"]["files"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = dict(p)
        q["anchors"] = {k: v for k, v in p["anchors"].items() if v}
        f.write(json.dumps(q) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [
        {"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
         "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
         "technique": CHECKS[p["id"]]["technique"], "level": CHECKS[p["id"]].get("level", "exploration"),
         "level_note": CHECKS[p["id"]]["note"] or LEVEL_NOTE}
        for p in PROPS if p["id"] in CHECKS],
    "not_applicable": [{"property": p["id"], "reason": "no monitor for it has been built yet"} for p in PROPS if p["id"] not in CHECKS],
    "notes": "Every check compiles its harness from /repo/include and removes its build output; see DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(manifest["checks"]), "checks")
