#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import check
chk = check.load()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = chk.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": c_reason if (c_reason := check.NA.get(p["id"])) else "check under construction"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 lib/check.py {p['id']}",
        "thorough_cmd": f"python3 lib/check.py {p['id']} --thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "TLA+ specification checked exhaustively with TLC; every transition of the state graph replayed into the real code (conformance)"),
        "level": c.get("level", "model_checking"),
        "level_note": c.get("note", "Exhaustive within the constants of the specification; the implementation is checked on behaviours that cover every transition of the explored graph. Trusts TLC, the specification's reading of the documentation, the driver's virtual-time event dispatcher, g++ and Qt.")})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "hooks": {"guard": "QCORO_VERIF", "enable": "no hooks are needed; nothing in /repo is guarded", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
