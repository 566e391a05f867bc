"""C02: batch sizes and collection windows of the aggregator."""
import asyncio
import itertools

from aiomisc.aggregate import aggregate, aggregate_async
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C02"
ASSUMPTIONS = [
    "virtual clock: callbacks take no time, timers fire exactly when due",
    "cancelled are only calls which wait for their batch to be closed",
]
EPS = 1e-6


def scenario(ch, variant, arrivals, max_count, leeway, duration, fail=False, cancels=0):
    """arrivals: instants in units of half a window (ints)."""
    loop = VLoop(ch)
    W = leeway / 1000.0
    t0 = loop.time()
    execs = []           # (time, values)
    calls = []           # (time, value) in call order
    done = {}

    async def body(values):
        execs.append((loop.time() - t0, tuple(values)))
        ch.observe("exec", tuple(values), round(loop.time() - t0, 6))
        if duration:
            await asyncio.sleep(duration * W)
        if fail:
            raise KeyError("x")

    if variant == "list":
        @aggregate(leeway, max_count=max_count)
        async def func(*values):
            await body(values)
            return [("r", v) for v in values]
    else:
        @aggregate_async(leeway, max_count=max_count)
        async def func(*args):
            await body([a.value for a in args])
            for a in args:
                a.future.set_result(("r", a.value))

    async def call(i):
        calls.append((loop.time() - t0, i))
        ch.observe("call", i)
        try:
            done[i] = await func(i)
        except KeyError:
            done[i] = "err"
        except asyncio.CancelledError:
            done[i] = "cancelled"

    tasks = []
    dropped = set()

    def drop(i):
        dropped.add(i)
        ch.observe("cancel", i)
        tasks[[c for _, c in calls].index(i)].cancel()

    async def main():
        everyone = loop.create_future()
        # arrivals at one instant may happen in any order and before or after
        # anything else which is due at that instant
        for i, h in enumerate(arrivals):
            at = t0 + h * W / 2

            def begin(i=i):
                tasks.append(loop.create_task(call(i)))
                if len(tasks) == len(arrivals):
                    everyone.set_result(None)
            loop.call_at(at, lambda: None)
            loop.act("arrive%d" % i, begin,
                     lambda at=at: loop.time() >= at - 1e-9, urgent=True)
            if cancels:
                # half way between two arrivals, and at the instants of arrivals
                loop.call_at(at + W / 4, lambda: None)
                loop.act("cancel%d" % i, lambda i=i: drop(i), may=True,
                         enabled=lambda i=i: len(dropped) < cancels and i not in dropped
                         and any(c == i for _, c in calls) and i not in done
                         and not any(i in v for _, v in execs))
        await everyone
        await asyncio.wait(tasks)

    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation("calls never finished: %s (calls %r, executions %r)" % (
            e, calls, execs), "hang")

    if dropped:
        members, closes = [], []
        for t, i in calls:
            if not members or t > closes[-1] + EPS or len(members[-1]) == max_count or \
                    any(members[-1][0] in v and i not in v for _, v in execs):
                members.append([])
                closes.append(t + W)
            members[-1].append(i)
        for m in members:
            # nobody is left who would wait for this batch
            if dropped.issuperset(m) and not any(m[0] in v for _, v in execs):
                calls[:] = [c for c in calls if c[1] not in m]
    order = [i for _, i in calls]
    at = {i: t for t, i in calls}
    if any(v not in order for _, vals in execs for v in vals):
        raise Violation("executed arguments of an abandoned batch: calls %r, executions %r" % (
            calls, execs), "abandoned")
    got = [v for _, vals in sorted(execs, key=lambda e: order.index(e[1][0]) if e[1] else -1)
           for v in vals]

    def bad(msg, key):
        raise Violation("%s: calls %r, executions %r (max_count=%r, window %.3f)" % (
            msg, calls, execs, max_count, W), key)

    for t, vals in execs:
        if not vals:
            bad("executed with no arguments", "empty")
        if max_count is not None and len(vals) > max_count:
            bad("batch larger than max_count", "size")
    if sorted(got) != sorted(order):
        bad("arguments lost or duplicated", "multiset")
    if got != order:
        bad("arguments not in call order", "order")
    batches = sorted(execs, key=lambda e: order.index(e[1][0]))
    for n, (t, vals) in enumerate(batches):
        first = at[vals[0]]
        full = max_count is not None and len(vals) == max_count
        last = at[vals[-1]]
        if last > first + W + EPS:
            bad("call accepted after the window of its batch", "window")
        expect = last if full else first + W
        if abs(t - expect) > EPS:
            if full and t > expect:
                bad("full batch not executed at once", "late-full")
            if t < expect:
                bad("batch executed before it was full or its window ended", "early")
            bad("batch executed later than its window", "late")
        if n + 1 < len(batches) and not full:
            nxt = at[batches[n + 1][1][0]]
            if nxt < first + W - EPS:
                bad("a call within the window was put into the next batch", "split")
    for i in order:
        if i in dropped and done[i] == "cancelled":
            continue
        if done[i] != (("r", i) if not fail else "err"):
            bad("call %d returned %r" % (i, done[i]), "value")
    return tuple(vals for _, vals in batches)


def units(tier):
    deep = tier == "thorough"
    out = []
    n_max = 6 if deep else 5
    pats = []
    for n in range(1, n_max + 1):
        # first arrival at 0, gaps of 0, 1/2, 1, 3/2 windows
        for gaps in itertools.product((0, 1, 2, 3), repeat=n - 1):
            t, arr = 0, [0]
            for g in gaps:
                t += g
                arr.append(t)
            pats.append(tuple(arr))
    for variant in ("list", "async"):
        for max_count in (None, 1, 2, 3):
            for duration in (0, 0.25, 1.5):
                group = {}
                for p in pats:
                    if max_count == 1 and len(p) > (4 if deep else 3):
                        continue
                    if not deep and variant == "async" and (len(p) > 3 or duration == 0.25):
                        continue
                    if not deep and duration == 0.25 and len(p) > 3:
                        continue
                    group.setdefault(len(p), []).append(p)
                for n, ps in group.items():
                    def run(ch, ps=ps, variant=variant, max_count=max_count, duration=duration):
                        p = ch.pick(ps, "pattern")
                        leeway = 10.0
                        return scenario(ch, variant, p, max_count, leeway, duration)
                    bound = (2 if n <= 4 else 1) + (1 if deep and n <= 5 else 0)
                    out.append(Unit("%s/n=%d/max=%s/dur=%s" % (variant, n, max_count, duration),
                                    run, bound, weight=4 ** n * bound))

    for variant in ("list", "async"):
        for max_count in (None, 2, 3):
            for n in (2, 3, 4) if deep else (2, 3):
                def run(ch, n=n, variant=variant, max_count=max_count):
                    p = ch.pick([p for p in pats if len(p) == n], "pattern")
                    return scenario(ch, variant, p, max_count, 10.0, 0, cancels=1 + (n > 2))
                out.append(Unit("cancel/%s/n=%d/max=%s" % (variant, n, max_count), run, 2,
                                weight=200))

    def run_fail(ch):
        p = ch.pick([(0, 0), (0, 1), (0, 2), (0, 3), (0, 1, 2), (0, 2, 3)], "pattern")
        m = ch.pick([None, 1, 2], "max")
        v = ch.pick(["list", "async"], "variant")
        return scenario(ch, v, p, m, 250.0, 0.25, fail=True)
    out.append(Unit("failing-batch", run_fail, 2))
    return out
