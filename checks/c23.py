"""C23: each task given to a worker pool: one worker, one outcome, no foreign effects."""
from mc.run import Unit
from .wp_model import scenario

PROPERTY = "C23"
ASSUMPTIONS = [
    "worker processes, their supervisor, sockets and signals are a model; C22, C25 and C36 bind "
    "the other side of it to the real code",
    "signals to the workers come from the pool only",
]
KINDS = ("ok", "none", "retexc", "exc", "stop", "badload", "timeout", "conn", "cself", "exit",
         "baddump")


def units(tier):
    q = tier == "quick"

    def u(name, kinds, bound=1, weight=1, **kw):
        return Unit(name, lambda ch: scenario(ch, kinds, late_check=False, **kw), bound, weight=weight)

    for a in KINDS:
        for b in ("ok", "exc", "baddump", "badload", "cself", "exit") if q else KINDS:
            yield u("seq %s,%s" % (a, b), (a, b))
        yield u("par %s,ok on 2" % a, (a, "ok", "ok"), nworkers=2)
        yield u("cancel %s,ok" % a, (a, "ok"), 2, cancels=(0,), weight=2)
    b = 2 if q else 3
    yield u("cancel both", ("ok", "ok"), b, cancels=(0, 1), weight=6)
    yield u("cancel both, third", ("ok", "ok", "ok"), 2, cancels=(0, 1), weight=6)
    yield u("cancel, one by one", ("ok", "ok"), b, cancels=(0, 1), submit="first", weight=6,
            idle_cost=1)
    yield u("cancel, 2 workers", ("ok", "ok", "ok"), 2 if q else 3, cancels=(0, 1), nworkers=2,
            weight=9)
    for how in ("eof", "reset"):
        yield u("die %s" % how, ("ok", "ok"), b, deaths=(how,), weight=5)
        yield u("die %s on 2" % how, ("ok", "ok", "exc"), 2 if q else 3, deaths=(how,), nworkers=2,
                weight=9)
        yield u("die %s and cancel" % how, ("ok", "ok"), 2 if q else 3, deaths=(how,), cancels=(0,),
                weight=7)
        yield u("die %s idle" % how, ("ok", "ok"), 2, deaths=(how,), submit="first", weight=4,
                idle_cost=1 if q else 0)
        for sp in (1, 4, 5, -1):
            yield u("split %d die %s" % (sp, how), ("ok", "exc"), 1 if q else 2, deaths=(how,),
                    split=sp, cancels=(0,))
    for ov in (1, 2):
        yield u("queue %d" % ov, ("ok", "exc", "baddump", "ok"), 1 if q else 2, overflow=ov)
        yield u("queue %d cancel" % ov, ("ok", "ok", "ok", "ok"), 2, overflow=ov,
                cancels=(0, 3) if q else (0, 1, 2, 3), weight=8, idle_cost=1)
        yield u("queue %d die" % ov, ("ok", "ok", "ok", "ok"), 1 if q else 2, overflow=ov,
                deaths=("eof", "reset"), weight=3)
        yield u("queue %d die cancel on 2" % ov, ("ok", "ok", "ok", "ok"), 1 if q else 2,
                overflow=ov, nworkers=2, deaths=("eof",), cancels=(0, 1), weight=3)
