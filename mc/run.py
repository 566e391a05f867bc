"""python -m mc.run PROPERTY [--tier quick|thorough] [--only SUBSTR] [--serial]
   python -m mc.run --replay FILE

A check module checks/<property>.py defines

    PROPERTY, LEVEL, ASSUMPTIONS (list of str)
    def units(tier): -> iterable of Unit
"""
import argparse
import importlib
import json
import multiprocessing
import multiprocessing.pool
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (VERIF, REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)

os.environ.setdefault("AIOMISC_NO_PLUGINS", "1")

from mc import core  # noqa: E402


class Unit:
    """One scenario: a name, a run(ch) function and its bounds."""

    def __init__(self, name, run, bound=1, cap=None, weight=1):
        self.name = name
        self.run = run
        self.bound = bound
        self.cap = cap
        self.weight = weight


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> key=<key> -- text' lines."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding: property=%s " % prop):
                continue
            rest = line.split("key=", 1)[1]
            key, _, text = rest.partition(" -- ")
            out[key.strip()] = text.strip()
    return out


def _work(args):
    prop, tier, idx, deadline, known = args
    mod = importlib.import_module("checks." + prop.lower())
    units = _units(mod, tier)
    u = units[idx]
    return _run_unit(u, deadline, known)


def _child():
    """No process outlives the check."""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)       # PR_SET_PDEATHSIG, SIGKILL
    except Exception:
        pass


_KILL = os.kill                  # some checks replace it


def _reap():
    """Ends whatever the check has started: workers and, adopted by now, what
    they have left behind."""
    me = os.getpid()
    for _ in range(1000):
        found = []
        for pid in os.listdir("/proc"):
            if pid.isdigit():
                try:
                    with open("/proc/%s/stat" % pid) as f:
                        st = f.read().rpartition(")")[2].split()
                except OSError:
                    continue
                if int(st[1]) == me and st[0] != "Z":
                    found.append(int(pid))
        if not found:
            return
        for pid in found:
            try:
                _KILL(pid, 9)
            except OSError:
                pass
        time.sleep(0.01)


_POOLS = []
_UNITS = {}


def _units(mod, tier):
    k = (mod.__name__, tier)
    if k not in _UNITS:
        _UNITS[k] = list(mod.units(tier))
    return _UNITS[k]


def _run_unit(u, deadline, known):
    try:
        r = core.explore(u.name, u.run, u.bound, u.cap, deadline, known)
    except BaseException:
        r = core.Result(u.name)
        r.error = traceback.format_exc()
    return r


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = d["property"]
    os.environ["VERIF_TIER"] = d["tier"]
    mod = importlib.import_module("checks." + prop.lower())
    for u in _units(mod, d["tier"]):
        if u.name == d["unit"]:
            break
    else:
        print("no such unit", d["unit"])
        return 2
    x = core.execute(u.run, tuple(d["choices"]), None, want_labels=True)
    print("unit   :", u.name)
    for lab in x.labels:
        print("choice :", lab)
    for ev in x.log:
        print("event  :", *ev)
    print("outcome:", x.outcome)
    print("result :", x.violation.message if x.violation else "property held")
    return 1 if x.violation else 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    prop = a.property.upper()
    tier = os.environ["VERIF_TIER"] = a.tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    known = load_known(prop)
    budget = float(os.environ.get(
        "VERIF_BUDGET", "420" if tier == "quick" else "3000"))
    deadline = t0 + budget

    sys.unraisablehook = lambda *_: None
    import logging
    logging.raiseExceptions = False
    logging.getLogger().addHandler(logging.NullHandler())
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")

    mod = importlib.import_module("checks." + prop.lower())
    import aiomisc
    if not os.path.abspath(aiomisc.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("aiomisc imported from", aiomisc.__file__)
        return 2
    units = _units(mod, tier)
    idxs = [i for i, u in enumerate(units) if not a.only or a.only in u.name]
    names = [u.name for u in units]
    assert len(set(names)) == len(names), "duplicate unit names"
    # heaviest first; the seed only rotates the order of equal weights
    order = sorted(idxs, key=lambda i: (-units[i].weight, (i * 7919 + seed) % 10007))
    results = []
    nproc = a.jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    nproc = min(nproc, len(order)) or 1
    stop = False
    if a.serial or nproc == 1:
        for i in order:
            r = _run_unit(units[i], deadline, known)
            results.append(r)
            if a.verbose:
                show(r)
            if r.violations and not a.keep_going:
                break
    else:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(nproc, _child)
        _POOLS.append(pool)             # never collected: that would terminate it
        try:
            it = pool.imap_unordered(
                _work, [(prop, tier, i, deadline, known) for i in order])
            for r in it:
                results.append(r)
                if a.verbose:
                    show(r)
                if r.violations and not a.keep_going:
                    break
        finally:
            # Not pool.terminate(): the code under test may have left a worker
            # deaf to SIGTERM. What is missed here dies with this process.
            pool._worker_handler._state = multiprocessing.pool.TERMINATE
            for p in list(pool._pool):
                p.kill()
    return report(mod, prop, tier, seed, results, len(idxs), t0, known)


def show(r):
    print("  %-60s exec=%d states=%d trans=%d outcomes=%d pts<=%d bound=%d/%d %.1fs%s%s%s" % (
        r.name[:60], r.executions, r.states, r.transitions, r.outcomes, r.max_points,
        r.bound_completed, r.bound, r.wall,
        " CAPPED:" + r.capped if r.capped else "",
        " VIOLATION" if r.violations else "",
        " ERROR" if r.error else ""), flush=True)


def report(mod, prop, tier, seed, results, nunits, t0, known):
    viol = [(r, v) for r in results for v in r.violations]
    errors = [r for r in results if r.error]
    caps = [r for r in results if r.capped]
    ex = sum(r.executions for r in results)
    rep = sum(r.replayed for r in results)
    samples = [r.sample for r in sorted(results, key=lambda r: -r.executions)
               if r.sample][:3]
    single = [r.name for r in results if r.outcomes <= 1 and r.executions > 50]
    cov = {
        "states": sum(r.states for r in results),
        "transitions": sum(r.transitions for r in results),
        "traces_validated_against_impl": ex,
        "samples": samples,
        "scenarios": len(results),
        "scenarios_planned": nunits,
        "distinct_outcomes": sum(r.outcomes for r in results),
        "decision_points": sum(r.points for r in results),
        "replays_compared": rep,
        "deviation_bounds": sorted({r.bound for r in results}),
        "scenarios_with_one_outcome": len(single),
        "capped": ["%s: %s (bound %d completed)" % (r.name, r.capped, r.bound_completed)
                   for r in caps][:50],
        "exhaustive": not caps and not errors and not viol and len(results) == nunits,
        "explanation": "states: distinct observable histories at decision points; "
                       "transitions: distinct (history, decision) pairs; every trace is an "
                       "execution of the implementation itself under the controlled "
                       "scheduler/environment (%d executions)." % ex,
    }
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3), "violations": len(viol),
    }
    evid = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    with open(os.path.join(evid, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s tier=%s scenarios=%d/%d executions=%d states=%d transitions=%d "
          "outcomes=%d wall=%.1fs%s" % (
              prop, tier, len(results), nunits, ex, cov["states"], cov["transitions"],
              cov["distinct_outcomes"], wall, " CAPPED=%d" % len(caps) if caps else ""))
    seen = {}
    for r in results:
        for k, m in r.known.items():
            seen.setdefault(k, m)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(k) or k))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        if len(viol) > 1:
            viol.sort(key=lambda rv: len(rv[1][2]))
            byk = {}
            for rv in viol:
                byk.setdefault(rv[1][0], []).append(rv)
            for k, l in byk.items():
                print("  %d x %s" % (len(l), k))
            viol = [l[0] for l in byk.values()]
        for r, (key, msg, choices, labels, log) in viol[:5]:
            safe = "".join(c if c.isalnum() else "_" for c in r.name)[:80]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, safe))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "unit": r.name,
                           "key": key, "message": msg, "choices": choices,
                           "labels": labels, "log": log,
                           "replay_cmd": "cd /verif && /opt/venv/bin/python -m mc.run --replay "
                                         + path}, f, indent=1, default=str)
            print("  unit %s: %s" % (r.name, msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for r in errors[:5]:
            print("ERROR", r.error)
        return 2
    if not results or ex == 0:
        print("ERROR nothing explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    try:
        import ctypes
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # PR_SET_CHILD_SUBREAPER
    except Exception:
        pass
    rc = main()
    sys.stdout.flush()
    _reap()
    os._exit(rc)
