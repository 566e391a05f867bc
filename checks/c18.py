"""C18: the entrypoint starts and stops every service exactly once."""
import itertools

from checks.ep_model import scenario
from mc.run import Unit

PROPERTY = "C18"
ASSUMPTIONS = [
    "OS signals are injected by calling the installed Python handler between two loop callbacks",
    "the loop owned by the entrypoint is substituted by the virtual one",
]

STARTS = ["ret", "yield", "slow", "sig", "sigslow", "sigret", "sigfail", "sigclean"]
STOPS = ["ok", "raise", "slow", "bad", "default", "peer", "raiseslow"]


def units(tier):
    deep = tier == "thorough"
    out = []

    def add(services, dynamic=(), exit="normal", mode="async", bound=1, **kw):
        name = "%s %s %s %s%s" % (
            mode, exit, "+".join("%s/%s" % s for s in services) or "none",
            ",".join("-".join(map(str, d)) for d in dynamic),
            " ".join("%s=%s" % i for i in kw.items()))
        out.append(Unit(name, lambda ch: scenario(
            ch, services, tuple(dynamic), exit, mode, hooks=False, **kw),
            bound=bound + 1, cap=40000, weight=len(services) + len(dynamic)))

    modes = ["async", "with"]
    for mode in modes + ["given"]:
        for ex in ("normal", "raise", "exit", "interrupt"):
            for svc in ([], [("sig", "closing")], [("ret", "slow")], [("ret", "raise")],
                        [("sigclean", "closing"), ("ret", "raiseslow")]):
                add(svc, exit=ex, mode=mode, extras=True, bound=2 if len(svc) < 2 else 1,
                    interrupts=int(ex == "interrupt"))
        add([("failcancel", "ok")], mode=mode)
        add([("failcancel", "ok"), ("sig", "slow")], mode=mode)
    for ex in ("normal", "raise"):
        for a, b in itertools.product(STARTS + ["fail"] * (ex == "normal"), ["ok", "raise", "slow"]):
            add([(a, b)], exit=ex, mode="given")
    for mode in modes:
        for ex in ("normal", "raise", "exit", "cancel"):
            if mode == "with" and ex == "cancel":
                continue
            for a, b in itertools.product(STARTS + ["fail", "failslow"], STOPS):
                if a in ("fail", "failslow") and (b != "ok" or ex != "normal"):
                    continue
                add([(a, b)], exit=ex, mode=mode, bound=2)
            add([], exit=ex, mode=mode)
        pairs = list(itertools.product(STARTS + ["fail", "failslow"], repeat=2))
        stops2 = list(itertools.product(["ok", "raise", "slow", "peer", "bad"], repeat=2))
        for i, (a, b) in enumerate(pairs):
            for j, (p, q) in enumerate(stops2):
                if not deep and (i + j) % 3:
                    continue
                add([(a, p), (b, q)], exit=("normal", "raise")[j % 2], mode=mode,
                    bound=1)
        for ex in ("normal", "raise"):
            add([("ctxwait", "slow"), ("ctxset", "slow")], exit=ex, mode=mode, bound=2)
            add([("ctxset", "peer"), ("ctxwait", "peer")], exit=ex, mode=mode, bound=2)
            add([("ctxwait", "ok"), ("ctxwait", "raise"), ("ctxset", "slow")], exit=ex, mode=mode)
            add([("sig", "slow"), ("slow", "slow"), ("sigret", "slow")], exit=ex, mode=mode)
            add([("sig", "peer"), ("sigclean", "peer"), ("ret", "raise")], exit=ex, mode=mode)
        # interrupts
        for a, b in itertools.product(["ret", "sig", "sigclean", "sigret"], ["ok", "slow", "raise", "bad", "sleep"]):
            for n in (1, 2):
                add([(a, b)], exit="interrupt", mode=mode, interrupts=n, bound=2)
            add([(a, b)], exit="normal", mode=mode, interrupts=1, bound=2)
            add([(a, b)], exit="interrupt", mode=mode, interrupts=1, shutdown_timeout=2)
        add([("sig", "slow"), ("ret", "peer")], exit="interrupt", mode=mode, interrupts=2, bound=2)
        add([("sig", "slow"), ("sigclean", "raise")], exit="raise", mode=mode, interrupts=1, bound=2)
        # dynamic
        for a, b in itertools.product(STARTS + ["fail", "failslow"], ["ok", "raise", "slow"]):
            add([("ret", "ok")], [("new", a, b)], mode=mode)
            add([("sig", "slow")], [("new", a, b), ("stop", 0)], mode=mode)
            add([], [("new", a, b), ("stop", 0)], mode=mode, exit="raise")
            if a not in ("fail", "failslow"):
                add([(a, b)], [("stop", 0)], mode=mode)
                add([(a, b)], [("restart", 0)], mode=mode)
                add([(a, b), ("sigret", "slow")], [("restart", 0), ("stop", 1)], mode=mode,
                    exit="raise")
        for ops in itertools.product([("new", "sig", "slow"), ("new", "slow", "ok"), ("stop", 0),
                                      ("stop", 1), ("restart", 0), ("restart", 1)], repeat=3 if deep else 2):
            for conc in (False, True):
                used = [o[1] for o in ops if o[0] != "new"]
                stops = [o[1] for o in ops if o[0] == "stop"]
                if len(set(stops)) < len(stops) or (conc and len(set(used)) < len(used)):
                    continue
                if any(o[0] == "restart" and o[1] in stops for o in ops):
                    continue
                add([("sig", "slow"), ("ret", "raiseslow")], ops, mode=mode, concurrent=conc)
    return out
