"""writes MANIFEST.json from sim/specs.py and properties.jsonl"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
from sim import specs  # noqa: E402

NA = {}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({
            "property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation: " + s["technique"], "level": s["level"], "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m sim.build",
     "hooks": {"guard": "SVDSUITE_SIM", "enable": "environment SVDSUITE_SIM=1 and a plan handed to "
               "svdsuite.resolve.agenda.install(); without both the seam returns its arguments unchanged",
               "source_commits": ["c7be8ef"]},
     "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
