"""C01: every aggregated call gets its own outcome, whatever is cancelled."""
import asyncio
import itertools

from aiomisc.aggregate import ResultNotSetError, aggregate, aggregate_async
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C01"
ASSUMPTIONS = [
    "asyncio runs ready callbacks in FIFO order; cancellation may be requested "
    "between any two callbacks",
    "the wrapped function does not raise CancelledError by itself",
]


class BatchError(Exception):
    def __init__(self, k):
        super().__init__(k)
        self.k = k


class Falsy(Exception):
    """An exception object which is false in a boolean context."""

    def __init__(self, k):
        super().__init__(k)
        self.k = k

    def __len__(self):
        return 0


class OwnError(Exception):
    def __init__(self, v, k):
        super().__init__(v, k)
        self.v, self.k = v, k


def scenario(ch, variant, arrivals, max_count, behaviours, body, cancels, leeway=10.0):
    loop = VLoop(ch)
    execs = []       # [values, state]
    out = {}
    tasks = {}
    ncancel = [0]
    cancelled = set()

    async def pause():
        if body == "yield":
            await asyncio.sleep(0)
            await asyncio.sleep(0)
        elif body == "sleep":
            await asyncio.sleep(0.005)
        elif body == "long":
            await asyncio.sleep(0.025)

    def behaviour(k):
        return behaviours[min(k, len(behaviours) - 1)]

    def start(values):
        k = len(execs)
        execs.append([tuple(values), "running"])
        ch.observe("exec", k, tuple(values))
        return k

    if variant == "list":
        @aggregate(leeway, max_count=max_count)
        async def func(*values):
            k = start(values)
            b = behaviour(k)
            await pause()
            execs[k][1] = "done"
            if b == "raise":
                raise BatchError(k)
            if b == "falsy":
                raise Falsy(k)
            res = [("r", v, k) for v in values]
            if b == "short":
                return res[:-1]
            if b == "gen":
                return (r for r in res)
            if b == "genraise":
                def broken():
                    yield res[0]
                    raise BatchError(k)
                return broken()
            if b == "longer":
                return res + [("r", "extra", k)]
            return res
    else:
        @aggregate_async(leeway, max_count=max_count)
        async def func(*args):
            k = start([a.value for a in args])
            b = behaviour(k)
            if b == "early":
                # results of the first half set before the pause
                for a in args[:1]:
                    if not a.future.done():
                        a.future.set_result(("r", a.value, k))
            await pause()
            execs[k][1] = "done"
            if b in ("firstraise", "midraise", "lastraise"):
                n = {"firstraise": 0, "midraise": len(args) // 2, "lastraise": len(args) - 1}[b]
                if not args[n].future.done():
                    args[n].future.set_result(("r", args[n].value, k))
                raise BatchError(k)
            if b == "raise":
                raise BatchError(k)
            if b == "falsy":
                raise Falsy(k)
            if b == "nothing":
                return
            for i, a in enumerate(args):
                if a.future.done():
                    continue
                if b == "partial" and i == len(args) - 1:
                    continue
                if b == "mixed" and i % 2:
                    a.future.set_exception(OwnError(a.value, k))
                else:
                    a.future.set_result(("r", a.value, k))

    async def call(i):
        try:
            r = await func("v%d" % i)
        except asyncio.CancelledError:
            out[i] = ("cancelled",)
            raise
        except BaseException as e:
            out[i] = ("exc", e)
        else:
            out[i] = ("ok", r)
        ch.observe("end", i, out[i][0], repr(out[i][1:]))

    def cancel(i):
        ncancel[0] += 1
        cancelled.add(i)
        ch.observe("cancel", i)
        tasks[i].cancel()

    async def main():
        for i, at in enumerate(arrivals):
            def begin(i=i):
                tasks[i] = loop.create_task(call(i))
            if at == 0:
                begin()
            else:
                loop.call_later(at, begin)
        for i in range(len(arrivals)):
            loop.act("cancel%d" % i, lambda i=i: cancel(i),
                     lambda i=i: i in tasks and not tasks[i].done()
                     and ncancel[0] < cancels, may=True)
        while len(tasks) < len(arrivals):
            await asyncio.sleep(0.001)
        await asyncio.wait(list(tasks.values()))

    try:
        run_loop(loop, main())
    except Stuck as e:
        waiting = [i for i in range(len(arrivals)) if i not in out
                   and i not in cancelled]
        raise Violation("calls %r never finished (%s); executions %r" % (
            waiting, e, execs), key="hang")
    for i in range(len(arrivals)):
        o = out.get(i, ("cancelled",))
        v = "v%d" % i
        if o[0] == "cancelled":
            if i not in cancelled:
                raise Violation("call %d failed with CancelledError although it "
                                "was not cancelled; executions %r" % (i, execs), "stray-cancel")
            continue
        if o[0] == "ok":
            r = o[1]
            if not (isinstance(r, tuple) and len(r) == 3 and r[0] == "r"):
                raise Violation("call %d returned %r" % (i, r), "value")
            if r[1] != v:
                raise Violation("call %d received the result of %r" % (i, r[1]), "foreign")
            k = r[2]
            if v not in execs[k][0]:
                raise Violation("call %d got a result of an execution without its argument" % i,
                                "foreign")
            if behaviour(k) in ("raise", "falsy", "nothing"):
                raise Violation("call %d got a result of a failed execution" % i, "value")
            continue
        e = o[1]
        if isinstance(e, (BatchError, Falsy)):
            if v not in execs[e.k][0]:
                raise Violation("call %d got the error of another batch" % i, "foreign")
            if type(e) is not (Falsy if behaviour(e.k) == "falsy" else BatchError):
                raise Violation("call %d: wrong error %r" % (i, e), "value")
        elif isinstance(e, OwnError):
            if e.v != v:
                raise Violation("call %d got the error of %r" % (i, e.v), "foreign")
        elif isinstance(e, ResultNotSetError):
            ks = [k for k, (vals, _) in enumerate(execs) if v in vals]
            ok = False
            for k in ks:
                b = behaviour(k)
                last = execs[k][0][-1] == v
                if b == "nothing" or (b in ("partial", "short") and last):
                    ok = True
            if not ok:
                raise Violation("call %d: result reported as not set although the "
                                "function set it" % i, "not-set")
        else:
            raise Violation("call %d failed with unexpected %r" % (i, e), "unexpected")
    # an argument is executed again only after an execution with it was cancelled
    return tuple(out.get(i, ("cancelled",))[0] for i in range(len(arrivals)))


def units(tier):
    deep = tier == "thorough"
    out = []

    def add(name, bound, **kw):
        def run(ch, kw=kw):
            return scenario(ch, **kw)
        out.append(Unit(name, run, bound, weight=len(kw["arrivals"]) ** 2 * (1 + bound)))

    patterns = {
        "together": (0, 0, 0),
        "window": (0, 0.004, 0.010),
        "two": (0, 0),
        "late": (0, 0.012, 0.013),
        "one": (0,),
    }
    if deep:
        patterns["four"] = (0, 0, 0, 0)
        patterns["fourwin"] = (0, 0, 0.010, 0.011)
    for variant, behs in (
        ("list", (("ok",), ("raise",), ("raise", "ok"), ("short",), ("gen",), ("falsy",),
                  ("genraise",), ("longer",))),
        ("async", (("ok",), ("raise",), ("nothing",), ("partial",), ("mixed",), ("early",),
                   ("ok", "raise"), ("falsy",), ("firstraise",), ("midraise",), ("lastraise",))),
    ):
        for b in behs:
            for pname, arr in patterns.items():
                for mc in (None, 2, 3, 1):
                    if mc is not None and mc > len(arr):
                        continue
                    for body in ("yield", "sleep", "long", "none"):
                        if b[0] in ("gen", "falsy") and (body != "yield" or pname != "two"):
                            continue
                        if b[0] in ("genraise", "longer", "firstraise", "midraise", "lastraise") and (
                                body not in ("yield", "none") or pname in ("late", "one")):
                            continue
                        if not deep and mc == 1 and body != "yield":
                            continue
                        heavy = len(arr) >= 3 and not deep
                        bound = 2
                        if heavy and (b[0] not in ("ok", "early") or body in ("long",)):
                            bound = 1
                        if deep:
                            bound = 3 if len(arr) <= 3 and body != "none" else 2
                        add("%s/%s/%s/max=%s/%s" % (
                            variant, "+".join(b), pname, mc, body), bound,
                            variant=variant, arrivals=arr, max_count=mc,
                            behaviours=b, body=body, cancels=bound)
    return out
