"""Writes /verif/MANIFEST.json from the property list and the domain table."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "domains"))
import specs
V = os.path.dirname(HERE)
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p["id"] in specs.PROPERTIES:
        doms = specs.PROPERTIES[p["id"]]
        mods = ", ".join(sorted(set(specs.DOMAINS[d]["trace"].replace("Trace", "") + ".tla" for d in doms)))
        checks.append({"property": p["id"], "quick_cmd": "python3 harness/check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + p["id"],
                       "technique": "TLA+ specification (%s) explored by TLC, every transition replayed on the real code; recorded histories checked against it by TLC" % mods,
                       "level": "model_checking",
                       "level_note": specs.NOTES.get(p["id"], "Exhaustive within the constants of the cfg files (see DESIGN.md), seeded random histories beyond them; trusts TLC, lxml, zipfile and the adapter of the domain.")})
    else:
        na.append({"property": p["id"], "reason": specs.NOT_APPLICABLE.get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": "sh harness/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the machinery observes the public API, lxml trees and written files only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
