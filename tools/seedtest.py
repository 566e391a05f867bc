"""python tools/seedtest.py [--no-tests] [--no-checks] [-j N] ID...

Confirms planted changes in scratch copies of /repo: the patch applies, the
demonstration passes without and fails with it, the stable tests pass, and
tells whether the property's quick check detects it."""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0")


def sh(cmd, cwd, timeout, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=dict(ENV, **env),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")


def one(sid, a):
    d = os.path.join(VERIF, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-%s-" % sid)
    rep = []
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.check_call(["cp", "-a", "/repo", copy])
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], copy, 300, PYTHONPATH=copy)
        rep.append("demo-clean=%d" % rc)
        if rc:
            rep.append(out[-600:])
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], copy, 60)
        if rc:
            return sid, False, rep + ["patch does not apply", out]
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], copy, 300, PYTHONPATH=copy)
        rep.append("demo-bug=%d" % rc)
        ok = rc != 0 and rep[0] == "demo-clean=0"
        if a.verbose:
            rep.append(out[-800:])
        if not a.no_checks:
            for c in a.check or [meta["property"]]:
                rc, out = sh([PY, "-m", "mc.run", c], VERIF, 900, VERIF_REPO=copy, VERIF_SEED="1",
                             VERIF_TIER="quick", VERIF_EVIDENCE=tmp,
                             **({"VERIF_JOBS": a.jobs} if a.jobs else {}))
                lines = [l for l in out.splitlines() if l.strip()]
                rep.append("check %s=%d  %s" % (c, rc, "" if rc == 0 else " | ".join(lines[-2:])[:300]))
        if not a.no_tests:
            r = os.path.join(tmp, "rep")
            os.mkdir(r)
            base = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60",
                    "--aiomisc-test-timeout=60", "--continue-on-collection-errors",
                    "-o", "junit_family=xunit2"]
            sh(base + ["--junitxml=%s/tests.xml" % r, "--doctest-modules",
                       "--ignore=tests/test_cron.py", "tests"], copy, 740, PYTHONPATH=copy)
            sh(base + ["--junitxml=%s/docs.xml" % r, "docs/source"], copy, 120, PYTHONPATH=copy)
            o = os.path.join(tmp, "out.json")
            sh([PY, "/opt/vp/results.py", o, "junit:%s/*.xml" % r], copy, 60)
            res = json.load(open(o))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(res.get("passed", []))
            miss = [t for t in stable if t not in passed]
            rep.append("tests missing=%d %s" % (len(miss), miss[:4]))
            ok = ok and not miss
        return sid, ok, rep
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("ids", nargs="*")
    p.add_argument("--no-tests", action="store_true")
    p.add_argument("--no-checks", action="store_true")
    p.add_argument("--check", action="append")
    p.add_argument("-v", "--verbose", action="store_true")
    p.add_argument("-j", type=int, default=1)
    p.add_argument("--jobs", default="")
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with ThreadPoolExecutor(a.j) as ex:
        for sid, ok, rep in ex.map(lambda i: one(i, a), ids):
            print(("OK   " if ok else "FAIL ") + sid)
            for r in rep:
                print("     " + r)
            sys.stdout.flush()


main()
