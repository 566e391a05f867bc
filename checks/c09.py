"""C09: threaded iterators deliver the exact sequence."""
import itertools

from checks.iter_threads import scenario09
from mc.run import Unit

PROPERTY = "C09"
ASSUMPTIONS = [
    "queue.Queue and collections.deque operations are atomic",
    "preemptions at synchronisation operations and at every source line of "
    "aiomisc/iterator_wrapper.py; a line is atomic",
    "the virtual clock advances 2 ms per read of time.time()",
    "the consumer is not cancelled",
]


def units(tier):
    deep = tier == "thorough"
    out = []

    def add(n, end, shape, api, mx, pace, slow, lines, manager, bound):
        name = "n=%d %s %s %s max=%d pace=%s slow=%s%s%s b=%d" % (
            n, end, shape, api, mx, pace, slow, " lines" if lines else "",
            " with" if manager else "", bound)
        out.append(Unit(name, lambda ch: scenario09(
            ch, n, end, shape, api, mx, pace, slow, lines, manager), bound=bound, cap=100000,
            weight=n + 3 * lines))

    i = 0
    for n, end, shape, api, mx in itertools.product(
            range(4), ["stop", "raise", "falsy"], ["gen", "iterator", "list"],
            ["pool", "separate", "wrapper", "pool0", "threaded"], [0, 1, 2]):
        if api in ("pool0", "threaded") and (mx or n > 2):
            continue
        if api == "threaded" and shape != "gen":
            continue
        if end == "falsy" and n > 1:
            continue
        if shape == "list" and n > 2:
            continue
        i += 1
        pace, slow = [(0, 0), (0.3, 0), (0, 0.3)][i % 3]
        if deep:
            for pace, slow in [(0, 0), (0.3, 0), (0, 0.3)]:
                add(n, end, shape, api, mx, pace, slow, False, i % 2, 2)
                add(n, end, shape, api, mx, pace, slow, True, i % 2, 1 + (n < 2))
        else:
            add(n, end, shape, api, mx, pace, slow, False, i % 2, 1)
            add(n, end, shape, api, mx, pace, slow, True, i % 2, 1)
    for mx, api in itertools.product((1, 2, 3), ["pool", "separate", "wrapper"]):
        for shape in ("gen", "iterator"):
            add(mx + 4, "stop", shape, api, mx, 0, 0.3, False, True, 1)
    for n, api, shape, mx in itertools.product(
            (0, 2), ["pool", "separate", "wrapper"], ["gen", "iterator"], (0, 1)):
        add(n, "base", shape, api, mx, 0, 0, False, mx, 1)
    for n, end in itertools.product((0, 1), ["stop", "raise"]):
        for mx in (0, 1):
            add(n, end, "gen", "separate", mx, 0.1, 0.0, True, False, 2 + deep * 0)
    return out
