"""Helper: mk(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)"""
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def mk(sid, prop, needs, breaks, edits, demo):
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in edits:
            p = os.path.join(tmp, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"]).decode()
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
