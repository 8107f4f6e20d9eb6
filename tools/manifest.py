"""Writes MANIFEST.json for the properties the registered components claim."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import components

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = {p: c for c in components() for p in c.PIDS}
checks = []
for p in props:
    c = claimed.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification model-checked with TLC; conformance by checking recorded traces of the real code against it",
        "level": "model_checking",
        "level_note": c.LEVEL_NOTE,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "not built yet"} for p in props if p["id"] not in claimed],
    "notes": "No hooks: the driver is compiled into /repo's module through a go build overlay and uses its public API only.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
