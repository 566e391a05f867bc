"""C08: shutdown of the thread pool terminates and settles every call."""
import itertools

from checks.pool_threads import scenario08, scenario_closed
from mc.run import Unit

PROPERTY = "C08"
ASSUMPTIONS = [
    "queue.SimpleQueue, threading.Event and RLock behave as their (atomic) substitutes",
    "preemptions at synchronisation operations and at every source line of aiomisc/thread_pool.py; "
    "a line is atomic",
    "functions end (at the latest when the harness releases them)",
]


def units(tier):
    deep = tier == "thorough"
    out = []

    def add(kinds, mw, where, wait, lines=False, bound=1, w=1, **kw):
        name = "%s w=%d %s wait=%s%s %s b=%d" % (
            "+".join(kinds) or "none", mw, where, wait, " lines" if lines else "",
            ",".join("%s=%s" % i for i in kw.items()), bound)
        out.append(Unit(name, lambda ch: scenario08(ch, list(kinds), mw, where, wait, lines, **kw),
                        bound=bound, cap=60000, weight=w))

    ks = ["ret", "raise", "block", "sleep"]
    combos = [()] + [(k,) for k in ks] + list(itertools.product(["ret", "block", "sleep"], repeat=2))
    for kinds in combos:
        for mw in (1, 2):
            for where in ("loop", "thread", "asyncio", "both"):
                for wait in (True, False):
                    if where == "asyncio" and not wait:
                        continue
                    kw = {"use_asyncio": True} if where == "asyncio" else {}
                    cs = (0,) if kinds else ()
                    add(kinds, mw, where, wait, bound=1 + deep + (len(kinds) < 2), cancels=cs, w=2, **kw)
                    if len(kinds) < 2 or (deep or kinds[0] != kinds[1]):
                        add(kinds, mw, where, wait, lines=True, cancels=cs, w=5, **kw)
    for kinds in (("ret",), ("sleep", "ret")):
        for wait in (True, False):
            add(kinds, 1, "thread", wait, second=True, bound=1, lines=True, w=4)
            add(kinds, 1, "loop", wait, second=True, bound=1, lines=True, w=4)
            add(kinds, 1, "loop", wait, when="later", bound=1, lines=True, w=4)
            add(kinds, 2, "loop", wait, when="later", bound=2 + deep, w=4)
    for kinds in combos[1:]:
        for mw, wait, default in itertools.product((1, 2), (True, False), (True, False)):
            for lines in (False, True):
                out.append(Unit("closed loop %s w=%d wait=%s default=%s lines=%s" % (
                    "+".join(kinds), mw, wait, default, lines),
                    lambda ch, a=(kinds, mw, wait, default, lines): scenario_closed(
                        ch, list(a[0]), *a[1:]), bound=1 + deep * (not lines), cap=60000))
    return out
