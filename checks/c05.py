"""C05: shield, cancel_tasks, awaitable, timeout."""
import asyncio
import itertools

from aiomisc import awaitable, cancel_tasks, shield, timeout
from aiomisc.utils import set_exception
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C05"
ASSUMPTIONS = [
    "the function given to timeout() lets a cancellation it receives propagate",
]
EPS = 1e-6


class Boom(Exception):
    pass


# -- shield ---------------------------------------------------------------
def sc_shield(ch, gates, outcome, cancels, callers):
    loop = VLoop(ch)
    log = {"start": [], "end": [], "inner_cancelled": 0}
    args = (object(), 1)
    kw = object()
    boom = Boom()
    cancelled_at = {}

    @shield
    async def inner(i, *a, **kwargs):
        "doc"
        if a != args or kwargs != {"kw": kw}:
            ch.fail("wrong arguments", "args")
        log["start"].append(i)
        ch.observe("start", i)
        try:
            for g in gates[i]:
                if g is None:
                    await asyncio.sleep(0)
                else:
                    await g
        except asyncio.CancelledError:
            log["inner_cancelled"] += 1
            raise
        log["end"].append(i)
        ch.observe("end", i)
        if outcome:
            raise boom
        return ("value", i)

    out = {}
    begun = set()

    async def call(i):
        begun.add(i)
        try:
            r = await inner(i, *args, kw=kw)
        except asyncio.CancelledError:
            out[i] = "cancelled"
        except Boom as e:
            out[i] = e
        else:
            out[i] = r
        ch.observe("out", i, str(out[i]))

    gates = [[loop.create_future() if g == "f" else None for g in gates] for _ in range(callers)]

    async def main():
        tasks = [loop.create_task(call(i)) for i in range(callers)]
        for i in range(callers):
            for k, g in enumerate(gates[i]):
                if g is not None:
                    loop.act("open%d.%d" % (i, k), lambda g=g: g.set_result(None),
                             lambda g=g: not g.done())
        left = [cancels]

        def cancel(i):
            left[0] -= 1
            cancelled_at[i] = (i in begun, i in log["end"])
            ch.observe("cancel", i)
            tasks[i].cancel()
        for i in range(callers):
            loop.act("cancel%d" % i, lambda i=i: cancel(i),
                     lambda i=i: left[0] > 0 and not tasks[i].done(), may=True)
        await asyncio.wait(tasks)
        # the inner coroutines must still come to their end
        loop.actions[:] = [a for a in loop.actions if not a.may]
        need = [i for i in range(callers) if i in begun]
        for g in itertools.chain(*(gates[i] for i in need)):
            if g is not None:
                await g
        for _ in range(5):
            await asyncio.sleep(0)

    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation("hang: %s" % e, "hang")
    for i in range(callers):
        if i not in begun:
            continue
        if log["start"].count(i) != 1 or log["end"].count(i) != 1:
            raise Violation("shielded coroutine %d started %d times and finished %d times; "
                            "caller cancelled: %r" % (i, log["start"].count(i),
                                                      log["end"].count(i), cancelled_at), "once")
        want = boom if outcome else ("value", i)
        if i in cancelled_at:
            if out[i] != "cancelled" and not (cancelled_at[i][1] and out[i] == want):
                raise Violation("caller %d cancelled but got %r" % (i, out[i]), "caller")
            if out[i] != "cancelled":
                raise Violation("caller %d cancelled but got %r" % (i, out[i]), "caller")
        elif out[i] != want:
            raise Violation("caller %d got %r, wanted %r" % (i, out[i], want), "result")
    return (sorted(map(str, out.items())), tuple(log["end"]))


# -- cancel_tasks ---------------------------------------------------------
KINDS = ["done", "failed", "cancelled", "plain", "slow", "refuse", "raise", "fresh", "fdone",
         "ffail", "fpending", "stubborn", "pre"]


def sc_cancel(ch, kinds, container):
    loop = VLoop(ch)
    t0 = loop.time()
    got_cancel = {}
    ended = {}

    async def body(i, kind):
        try:
            if kind == "done":
                return ("v", i)
            if kind == "failed":
                raise Boom(i)
            await loop.create_future()
        except asyncio.CancelledError:
            got_cancel[i] = got_cancel.get(i, 0) + 1
            ch.observe("cancel", i)
            if kind == "slow":
                await asyncio.sleep(0.3)
            if kind == "refuse":
                await asyncio.sleep(0.1)
                return ("late", i)
            if kind == "raise":
                await asyncio.sleep(0)
                raise Boom(i)
            if kind == "pre":
                try:
                    await asyncio.sleep(0.5)
                except asyncio.CancelledError:
                    got_cancel[i] += 1
                    await asyncio.sleep(0.2)
                    raise
            if kind == "stubborn":
                for _ in range(3):
                    await asyncio.sleep(0.2)
                return ("stubborn", i)
            raise
        finally:
            ended[i] = loop.time() - t0

    out = {}

    async def main():
        objs = []
        fresh = []
        for i, k in enumerate(kinds):
            if k == "fdone":
                f = loop.create_future()
                f.set_result(("fv", i))
            elif k == "ffail":
                f = loop.create_future()
                f.set_exception(Boom(i))
            elif k == "fpending":
                f = loop.create_future()
            elif k == "fresh":
                f = None
                fresh.append(i)
            else:
                f = loop.create_task(body(i, k))
                if k == "cancelled":
                    f.cancel()
            objs.append(f)
        for _ in range(3):
            await asyncio.sleep(0)
        for i in fresh:
            objs[i] = loop.create_task(body(i, "plain"))
        for i, k in enumerate(kinds):
            if k == "pre":
                # has been cancelled before and is still busy with its cleanup
                objs[i].cancel()
        if "pre" in kinds:
            await asyncio.sleep(0)
        before = {i: o.done() for i, o in enumerate(objs)}
        snap = {i: (o.cancelled(), None if o.cancelled() else o.exception(),
                    None if o.cancelled() or o.exception() else o.result())
                for i, o in enumerate(objs) if o.done()}
        coll = {"list": list, "set": set, "tuple": tuple,
                "gen": lambda x: (i for i in x)}[container](objs)
        a0 = loop.time() - t0
        if ch.pick(["await", "later"], "mode") == "await":
            w = cancel_tasks(coll)
        else:
            w = cancel_tasks(coll)
            await asyncio.sleep(0)
        try:
            await w
        except BaseException as e:
            raise Violation("cancel_tasks raised %r for %r" % (e, kinds), "raises")
        out["done"] = [o.done() for o in objs]
        out["t"] = loop.time() - t0 - a0
        if not all(out["done"]):
            raise Violation("cancel_tasks finished while %r are unfinished" % [
                kinds[i] for i, d in enumerate(out["done"]) if not d], "unfinished")
        for i, o in enumerate(objs):
            k = kinds[i]
            if before[i]:
                cur = (o.cancelled(), None if o.cancelled() else o.exception(),
                       None if o.cancelled() or o.exception() else o.result())
                if cur != snap[i]:
                    raise Violation("finished %s changed" % k, "finished")
                if i in got_cancel:
                    raise Violation("finished task was cancelled", "finished")
            elif isinstance(o, asyncio.Task):
                if k not in ("fresh",) and got_cancel.get(i, 0) != 1 + (k == "pre"):
                    raise Violation("task %s got %d cancellations" % (k, got_cancel.get(i, 0)),
                                    "requests")
                want = {"plain": "c", "pre": "c", "fresh": "c", "slow": "c", "refuse": ("late", i),
                        "raise": "boom", "stubborn": ("stubborn", i)}[k]
                cur = ("c" if o.cancelled() else "boom" if o.exception() is not None
                       else o.result())
                if cur != want:
                    raise Violation("task %s ended as %r" % (k, cur), "end")
            else:
                if not o.cancelled() and not isinstance(o.exception(), asyncio.CancelledError):
                    raise Violation("future was not failed", "future")
        dur = {"slow": 0.3, "pre": 0.2, "refuse": 0.1, "stubborn": 0.6}
        want = max([dur.get(k, 0) for i, k in enumerate(kinds) if not before[i]] or [0])
        if abs(out["t"] - want) > EPS:
            raise Violation("cancel_tasks took %r instead of %r" % (out["t"], want), "time")

    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation("cancel_tasks hangs for %r: %s" % (kinds, e), "hang")
    return (kinds, out["t"])


def sc_set_exception(ch, kinds):
    loop = VLoop(ch)
    err = ch.pick([Boom("x"), asyncio.CancelledError(), ValueError()], "exc")

    async def main():
        objs, cancelled = [], []

        async def body(k):
            try:
                if k == "task":
                    await loop.create_future()
            except asyncio.CancelledError:
                cancelled.append(k)
                raise
        for k in kinds:
            f = loop.create_task(body(k)) if k in ("task", "tdone") else loop.create_future()
            if k == "fdone":
                f.set_result(1)
            objs.append(f)
        for _ in range(2):
            await asyncio.sleep(0)
        pend = [o for o in objs if not o.done()]
        r = set_exception(objs, err)
        if set(r) != {o for o in pend if isinstance(o, asyncio.Task)}:
            raise Violation("wrong set of cancelled tasks", "set")
        for _ in range(3):
            await asyncio.sleep(0)
        for k, o in zip(kinds, objs):
            if k == "task" and not o.cancelled():
                raise Violation("task not cancelled", "task")
            if k == "future" and o.exception() is not err:
                raise Violation("future not failed with the given exception", "future")
            if k in ("fdone", "tdone") and (o.cancelled() or o.exception()):
                raise Violation("finished one touched", "finished")
    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation(str(e), "hang")
    return kinds


# -- awaitable ------------------------------------------------------------
class Aw:
    def __init__(self, v):
        self.v = v

    def __await__(self):
        yield from asyncio.sleep(0).__await__()
        return self.v


def sc_awaitable(ch):
    loop = VLoop(ch)
    value = ch.pick([object(), None, 0, "", [], (), False], "value")
    kind = ch.pick(["plain", "coro", "future", "future-later", "task", "aw", "async",
                    "raise", "raise-async", "raise-coro"], "kind")
    count = [0]
    args = (1, object())
    kw = {"k": object()}

    async def c(v):
        await asyncio.sleep(0)
        return v

    async def cf():
        await asyncio.sleep(0)
        raise Boom("inner")

    def f(*a, **k):
        count[0] += 1
        if a != args or k != kw:
            raise Violation("arguments changed", "args")
        if kind == "plain":
            return value
        if kind == "coro":
            return c(value)
        if kind in ("future", "future-later"):
            fut = loop.create_future()
            if kind == "future":
                fut.set_result(value)
            else:
                loop.call_later(1, fut.set_result, value)
            return fut
        if kind == "task":
            return loop.create_task(c(value))
        if kind == "aw":
            return Aw(value)
        if kind == "raise-coro":
            return cf()
        raise Boom("inner")

    async def af(*a, **k):
        count[0] += 1
        if a != args or k != kw:
            raise Violation("arguments changed", "args")
        await asyncio.sleep(0)
        if kind == "raise-async":
            raise Boom("inner")
        return value

    async def main():
        w = awaitable(af if kind in ("async", "raise-async") else f)
        if count[0]:
            raise Violation("called by the decorator", "count")
        try:
            r = await w(*args, **kw)
        except Boom:
            if not kind.startswith("raise"):
                raise Violation("raised for %s" % kind, "raised")
        else:
            if kind.startswith("raise"):
                raise Violation("exception lost", "lost")
            if r is not value:
                raise Violation("%s: got %r instead of %r" % (kind, r, value), "value")
        if count[0] != 1:
            raise Violation("called %d times" % count[0], "count")
        # a second call is a second call
        try:
            await w(*args, **kw)
        except Boom:
            pass
        if count[0] != 2:
            raise Violation("second call called %d times" % count[0], "count")

    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation(str(e), "hang")
    return (kind, repr(value)[:5])


# -- timeout --------------------------------------------------------------
def sc_timeout(ch, limit, duration, outcome, cancel, slow):
    loop = VLoop(ch)
    t0 = loop.time()
    log = {"start": None, "cancel": None, "end": None, "caller": None}
    boom = Boom()
    args = (object(),)

    @timeout(limit)
    async def func(*a, **kw):
        if a != args or kw != {"k": 1}:
            raise Violation("arguments", "args")
        if log["start"] is not None:
            raise Violation("called twice", "twice")
        log["start"] = loop.time() - t0
        try:
            if duration is None:
                await loop.create_future()
            elif duration:
                await asyncio.sleep(duration)
        except asyncio.CancelledError:
            log["cancel"] = loop.time() - t0
            if slow:
                await asyncio.sleep(0.4)
            raise
        finally:
            log["end"] = loop.time() - t0
        if outcome:
            raise boom
        return args[0]

    out = {}

    async def call():
        try:
            r = await func(*args, k=1)
        except asyncio.CancelledError:
            out["r"] = "cancelled"
        except asyncio.TimeoutError:
            out["r"] = "timeout"
        except Boom as e:
            out["r"] = e
        else:
            out["r"] = r
        out["t"] = loop.time() - t0
        ch.observe("out", type(out["r"]).__name__, round(out["t"], 6))

    async def main():
        task = loop.create_task(call())
        if cancel:
            def do():
                log["caller"] = loop.time() - t0
                task.cancel()
            for at in (limit / 2, limit):
                loop.call_at(t0 + at, lambda: None)
            loop.act("cancel", do, lambda: not task.done(), may=True)
        await asyncio.wait([task])
        if "r" not in out:
            out.update(r="cancelled", t=loop.time() - t0)

    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation("hang: %s" % e, "hang")

    def bad(msg, key):
        raise Violation("%s: limit %r duration %r -> %r at %r, %r" % (
            msg, limit, duration, out["r"], out["t"], log), key)

    if log["start"] is not None and log["end"] is None:
        bad("function still running after return", "leak")
    extra = 0.4 if slow else 0
    if log["caller"] is not None:
        if out["r"] == "cancelled":
            return "cancelled"
        if log["caller"] < limit - EPS and (duration is None or log["caller"] < duration - EPS):
            bad("cancellation lost", "cancel-lost")
        return "raced"
    if duration is not None and duration < limit:
        if log["cancel"] is not None:
            bad("cancelled before the limit", "early")
        if out["r"] is not (boom if outcome else args[0]) or abs(out["t"] - duration) > EPS:
            bad("wrong outcome", "outcome")
    else:
        if out["r"] != "timeout":
            bad("no timeout", "timeout")
        if limit > 0:
            if log["cancel"] is None or abs(log["cancel"] - limit) > EPS:
                bad("not cancelled at the limit", "cancel-time")
            if abs(out["t"] - limit - extra) > EPS:
                bad("returned at the wrong time", "time")
    return (str(type(out["r"])), round(out["t"], 3))


def sc_timeout_type(ch):
    f = ch.pick([lambda: None, len, object(), Aw], "f")
    try:
        timeout(1)(f)
    except TypeError:
        return "rejected"
    raise Violation("timeout accepted %r" % f, "type")


def units(tier):
    deep = tier == "thorough"
    out = []
    for gates in ("", "n", "f", "nf", "fn", "ff"):
        for outcome in (0, 1):
            for callers, cancels, bound in ((1, 1, 3), (2, 2, 3 if deep else 2)):
                def run(ch, gates=gates, outcome=outcome, callers=callers, cancels=cancels):
                    return sc_shield(ch, gates, outcome, cancels, callers)
                out.append(Unit("shield/%s/%d/%d" % (gates or "-", outcome, callers), run, bound,
                                weight=3))
    sizes = (0, 1, 2, 3)
    for n in sizes:
        for first in (KINDS if n else ["-"]):
            def run(ch, n=n, first=first):
                if n == 0:
                    kinds = ()
                else:
                    kinds = (first,) + tuple(ch.pick(KINDS, "kind") for _ in range(n - 1))
                return sc_cancel(ch, kinds, ch.pick(["list", "set", "tuple", "gen"], "container"))
            out.append(Unit("cancel_tasks/%d/%s" % (n, first), run, 0))
    for n in (1, 2, 3):
        def run(ch, n=n):
            return sc_set_exception(ch, tuple(
                ch.pick(["task", "future", "fdone", "tdone"], "k") for _ in range(n)))
        out.append(Unit("set_exception/%d" % n, run, 0))
    out.append(Unit("awaitable", sc_awaitable, 0))
    for limit in (0, 1, 1.5):
        for cancel in (False, True):
            for slow in (False, True):
                def run(ch, limit=limit, cancel=cancel, slow=slow):
                    d = ch.pick([0, 0.25, 0.97, 1.25, 1.75, None], "duration")
                    o = ch.pick([0, 1], "outcome")
                    if limit == 0 and d == 0:
                        d = 0.25
                    return sc_timeout(ch, limit, d, o, cancel, slow)
                out.append(Unit("timeout/%s/%s/%s" % (limit, cancel, slow), run, 1))
    out.append(Unit("timeout-type", sc_timeout_type, 0))
    return out
