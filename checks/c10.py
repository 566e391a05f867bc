"""C10: closing a threaded iterator stops the producer and never hangs."""
import itertools

from checks.iter_threads import scenario10
from mc.run import Unit

PROPERTY = "C10"
ASSUMPTIONS = [
    "queue.Queue and collections.deque operations are atomic",
    "preemptions at synchronisation operations and at every source line of "
    "aiomisc/iterator_wrapper.py; a line is atomic",
    "the virtual clock advances 2 ms per read of time.time()",
    "the pool has a free worker for the producer",
]


def units(tier):
    deep = tier == "thorough"
    out = []

    def add(n, end, shape, api, mx, pace, take, mode, lines, bound, gate=None):
        name = "%s take=%d n=%d %s %s %s max=%d pace=%s gate=%s%s b=%d" % (
            mode, take, n, end, shape, api, mx, pace, gate, " lines" if lines else "", bound)
        out.append(Unit(name, lambda ch: scenario10(
            ch, n, end, shape, api, mx, pace, take, mode, lines, gate), bound=bound, cap=100000,
            weight=n + 3 * lines))

    modes = ["close", "double", "forget", "aexit", "aexit-hold", "drop", "cancel", "raise",
             "before", "before-aexit"]
    i = 0
    for mode, (n, take), mx, api in itertools.product(
            modes, [(0, 0), (1, 0), (2, 1), (3, 1), (6, 2)], [0, 1, 2],
            ["pool", "separate", "wrapper"]):
        if mode.startswith("before") and (take or n > 3):
            continue
        i += 1
        if not deep and i % 2 and n in (2, 3) and api != "wrapper":
            continue
        pace = (0, 0.3)[i % 2]
        for shape in ("gen", "iterator", "swallow"):
            if shape == "swallow" and (n == 6 or i % 2):
                continue
            if shape == "iterator" and i % 3:
                continue
            end = ("stop", "raise")[i % 5 == 0]
            add(n, end, shape, api, mx, pace, take, mode, False, 1 + deep)
            if deep or n < 3 or i % 4 == 1:
                add(n, end, shape, api, mx, pace, take, mode, True, 1)
    add(50, "stop", "gen", "wrapper", 2, 0, 2, "close", False, 1)
    add(50, "stop", "gen", "separate", 2, 0, 2, "aexit", False, 1)
    for mode, gate in itertools.product(["close", "aexit", "cancel", "drop"], (0, 1)):
        for mx in (0, 1):
            add(2, "stop", "gen", "pool", mx, 0, gate, mode, True, 1, gate)
    return out
