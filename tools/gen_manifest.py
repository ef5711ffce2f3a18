"""Writes MANIFEST.json from checks/registry.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = json.load(open(os.path.join(V, "checks", "registry.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg["claimed"]:
        c = reg["claimed"][i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": reg["not_applicable"].get(i) or "NOT WRITTEN YET: no check in this revision"})
json.dump({"version": 1, "setup_cmd": "bash exporter/build.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks], [n["property"] for n in na])
