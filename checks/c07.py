"""C07: the thread pool runs each call once and delivers its outcome."""
import itertools

from checks.pool_threads import scenario07
from mc.run import Unit

PROPERTY = "C07"
ASSUMPTIONS = [
    "queue.SimpleQueue, threading.Event and RLock behave as their (atomic) substitutes",
    "preemptions at synchronisation operations and at every source line of aiomisc/thread_pool.py; "
    "a line is atomic",
]


def units(tier):
    deep = tier == "thorough"
    out = []

    def add(kinds, mw, apis, cancels=(), lines=False, bound=1, w=1):
        if not lines and (deep or kinds[0] == "barrier" and len(kinds) < 4):
            bound += 1
        name = "%s w=%d %s c=%s%s b=%d" % ("+".join(kinds), mw, ",".join(apis),
                                        "".join(map(str, cancels)), " lines" if lines else "", bound)
        out.append(Unit(name, lambda ch: scenario07(ch, list(kinds), mw, apis, cancels, lines),
                        bound=bound, cap=60000, weight=w))

    ks = ["ret", "raise", "falsy", "base", "cancelled", "block", "sleep"]
    apis = ["submit", "loop", "default", "threaded", "separate"]
    for k in ks:
        for a in apis:
            add((k,), 1, (a,), (0,), bound=2)
            add((k,), 2, (a,), (0,), lines=True, bound=1 + deep)
    for i, (a, b) in enumerate(itertools.product(ks, ks)):
        api = (apis[i % 5], apis[(i // 5) % 5])
        add((a, b), 1, ("submit", "submit"), (0,), bound=2, w=3)
        add((a, b), 2, api, (0, 1), bound=1, w=3)
        if deep or i % 3 == 0:
            add((a, b), 1 + i % 2, ("submit", "submit"), (0,), lines=True, bound=1, w=4)
    for kk in itertools.combinations_with_replacement(["ret", "raise", "block", "sleep"], 3):
        add(kk, 1, ("submit",) * 3, (1,), bound=1, w=4)
        add(kk, 2, ("submit", "threaded", "submit"), (0,), bound=1, w=4)
    for n, mw in ((2, 2), (3, 3), (3, 4), (4, 4)):
        add(("barrier",) * n, mw, ("submit",) * n, (), bound=1, w=5)
        add(("barrier",) * n, mw, ("submit",) * n, (), lines=True, bound=1, w=8)
    for n, mw in ((4, 3), (5, 3), (6, 5)):
        add(("sleep",) * n, mw, ("submit",) * n, (), bound=0, w=5)
    add(("block", "ret", "barrier", "barrier"), 4, ("submit",) * 4, (), bound=1, w=5)
    return out
