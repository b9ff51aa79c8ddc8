#!/opt/venv/bin/python
"""Write MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    c = registry.CHECKS.get(p)
    if not c:
        continue
    checks.append(dict(property=p, quick_cmd=f"/opt/venv/bin/python check.py {p}",
                       thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {p}",
                       evidence_file=f"evidence/{p}.json", technique=c["technique"], level=c["level"],
                       level_note=c["note"]))
na = [dict(property=p, reason=registry.NA.get(p, "check not built yet (a specification is planned, see DESIGN.md)")) for p in props if p not in registry.CHECKS]
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks are needed: the checks use the program's public objects and outputs", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+, checked with TLC); check.py PROPERTY runs one check. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
