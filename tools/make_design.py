"""Writes DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md.

The sections are put together from properties.jsonl (what is claimed and which
space is enumerated), MANIFEST (technique and bounds), the assumptions of the
check modules and the oracles below, so that they stay in step.
"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get("VERIF_REPO", "/repo")]
sys.dont_write_bytecode = True
os.environ["AIOMISC_NO_PLUGINS"] = "1"
import importlib  # noqa: E402

exec(open(os.path.join(V, "tools", "design_oracles.py")).read())

out = [open(os.path.join(V, "tools", "design_head.md")).read()]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    mod = importlib.import_module("checks." + i.lower())
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Decided by:* %s (`checks/%s.py`).\n" % (man[i]["technique"], i.lower()))
    out.append("*Enumerated:* %s Bounds of the registered commands: %s\n"
               % (p["quantifier"]["text"], man[i]["level_note"]))
    out.append("*Oracle:* %s\n" % ORACLES[i][0])
    out.append("*Cost:* %s. *Out of reach of the tests because:* %s\n" % (ORACLES[i][1], p["why_tests_cant"]))
    out.append("*Assumed:* %s.\n" % "; ".join(getattr(mod, "ASSUMPTIONS", [])))
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
SEEDS = os.path.join(V, "seeded")
table = ["| planted bug | property | needs | reported by |", "|---|---|---|---|"]
for name in sorted(os.listdir(SEEDS)):
    d = json.load(open(os.path.join(SEEDS, name, "meta.json")))
    table.append("| %s | %s | %s | %s |" % (name, d["property"], d["needs"].replace("|", "/"),
                                            ", ".join(d.get("caught_by", [])) or "not caught"))
out.append("\n".join(table) + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(sum(map(len, out)), "characters")
