"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASYNC = ("stateless model checking of the real coroutines: deviation-bounded exhaustive exploration "
         "of event-loop schedules under virtual time")
THREAD = ("stateless model checking of the real threads: preemption-bounded exhaustive interleavings "
          "under a controlled scheduler")
SEQ = "bounded exhaustive enumeration of operation histories/inputs against an executable reference model"

# property -> (technique, note)
CLAIMED = {}

def claim(p, technique, note):
    CLAIMED[p] = (technique, note)

exec(open(os.path.join(V, "tools", "claims.py")).read())

NA_DEFAULT = "no check built yet for this property"
NA = dict(globals().get("NOT_APPLICABLE", {}))

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import mc.core, mc.vloop\"",
    "checks": [
        {"property": p, "quick_cmd": "./check %s" % p,
         "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
         "technique": CLAIMED[p][0], "level": "model_checking", "level_note": CLAIMED[p][1]}
        for p in props if p in CLAIMED
    ],
    "not_applicable": [
        {"property": p, "reason": NA.get(p, NA_DEFAULT)} for p in props if p not in CLAIMED
    ],
    "notes": "No hooks are needed in /repo. Engine: mc/; one module per property: checks/. "
             "See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not applicable")
