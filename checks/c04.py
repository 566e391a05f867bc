"""C04: aiomisc.select under every completion order, cancellation and option."""
import asyncio
import itertools

from aiomisc import select
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C04"
ASSUMPTIONS = [
    "the awaitables are not cancelled from outside and the select is cancelled at most once",
    "completions seen in one event-loop iteration count as simultaneous for futures and tasks "
    "(any of them may win)",
    "a completion at the very instant of the timeout may count as timed out",
    "an awaitable which swallows its cancellation is only used where a winner exists already",
]
EPS = 1e-6


class Boom(Exception):
    pass


def scenario(ch, kinds, outcomes, oncancel, opts, cancel):
    n = len(kinds)
    loop = VLoop(ch)
    t0 = loop.time()
    opened = [loop.create_future() for _ in range(n)]
    completed = []                  # (idx, iteration, time)
    first_cancel = {}
    finished = {}                   # idx -> (how, time)
    errors = {i: Boom(i) for i in range(n)}
    values = {i: object() for i in range(n)}
    state = {"cancelled": None, "returned": None}

    def now():
        return loop.time() - t0

    async def coro(i):
        try:
            await opened[i]
        except asyncio.CancelledError:
            first_cancel[i] = now()
            ch.observe("cancelled", i)
            if oncancel == "slow":
                try:
                    await asyncio.sleep(0.5)
                finally:
                    finished[i] = ("cancel", now())
                raise
            if oncancel == "yield":
                try:
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                finally:
                    finished[i] = ("cancel", now())
                raise
            finished[i] = ("cancel", now())
            if oncancel == "raise":
                raise Boom("on cancel")
            if oncancel == "value":
                return "on cancel"
            raise
        completed.append((i, loop.iteration, now()))
        finished[i] = ("done", now())
        ch.observe("done", i)
        if outcomes[i]:
            raise errors[i]
        return values[i]

    futs = {}

    def make(i):
        k = kinds[i]
        if k == "coro":
            return coro(i)
        if k == "task":
            return loop.create_task(coro(i))
        f = loop.create_future()

        def on_done(f):
            if f.cancelled():
                first_cancel[i] = now()
                finished[i] = ("cancel", now())
                ch.observe("cancelled", i)
        f.add_done_callback(on_done)
        futs[i] = f
        return f

    def complete(i):
        if i in futs:
            f = futs[i]
            if f.done():
                return
            completed.append((i, loop.iteration, now()))
            finished[i] = ("done", now())
            ch.observe("done", i)
            if outcomes[i]:
                f.set_exception(errors[i])
            else:
                f.set_result(values[i])
        elif not opened[i].done():
            opened[i].set_result(None)

    out = {}

    async def call(aws):
        try:
            res = await select(*aws, **opts)
        except asyncio.CancelledError:
            out["r"] = ("cancelled",)
        except Exception as e:
            out["r"] = ("exc", e)
        else:
            out["r"] = ("ok", res)
            out["snap"] = (list(res), res.done(), res.result_idx)
        out["t"] = now()
        out["iter"] = loop.iteration
        out["finished"] = dict(finished)
        out["completed"] = list(completed)
        ch.observe("return", out["r"][0], round(out["t"], 6))

    async def main():
        aws = [make(i) for i in range(n)]
        task = loop.create_task(call(aws))
        for i in range(n):
            loop.act("complete%d" % i, lambda i=i: complete(i),
                     lambda: not task.done())
        if cancel:
            def do():
                state["cancelled"] = now()
                state["started"] = bool(loop.steps > 1)
                ch.observe("cancel")
                task.cancel()
            loop.act("cancel", do, lambda: not task.done(), may=True)
        await asyncio.wait([task])
        if task.cancelled() and "r" not in out:
            out["never"] = True
            for a in aws:
                if asyncio.iscoroutine(a):
                    a.close()
        # let background cancellations finish
        for _ in range(8):
            await asyncio.sleep(0)
        await asyncio.sleep(2)

    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation("select never returns: %s" % e, "hang")

    if out.get("never"):
        return ("cancelled-before-start",)

    def bad(msg, key):
        raise Violation("%s: kinds %r outcomes %r opts %r oncancel %s; completed %r, "
                        "cancelled %r, finished before return %r, returned %r at %r (select "
                        "cancelled at %r)" % (
                            msg, kinds, outcomes, opts, oncancel, completed, first_cancel,
                            out["finished"], out["r"], out["t"], state["cancelled"]), key)

    r = out["r"]
    t = out["t"]
    comp = out["completed"]
    fin = out["finished"]
    if state["cancelled"] is not None:
        if r != ("cancelled",):
            # the select may already have finished its work in this very step
            bad("cancellation was not propagated", "cancel-lost")
        for i in range(n):
            if i not in fin:
                bad("awaitable %d still runs after the cancelled select returned" % i,
                    "cancel-leak")
        return ("cancelled", len(comp))
    limit = opts.get("timeout")
    # a completion at the very instant of the timeout may lose against it
    tie = bool(limit is not None and comp and comp[0][2] >= limit - EPS)
    if not comp or (tie and r[0] == "ok" and out["snap"][2] is None):
        if limit is None:
            bad("returned although nothing completed", "early")
        if r[0] != "ok":
            bad("timeout must return an empty result", "timeout-result")
        res = r[1]
        if out["snap"] != ([None] * n, False, None):
            bad("position filled on timeout", "timeout-filled")
        start = limit
        winner = None
    else:
        it0 = comp[0][1]
        tol = 0 if set(kinds) == {"coro"} else 1
        cand = [c for c in comp if c[1] <= it0 + tol] if tol else comp[:1]
        if tie:
            cand = completed
        start = comp[0][2]
        if r[0] == "exc":
            w = [i for i in range(n) if errors[i] is r[1]]
            if not w:
                bad("select raised something else", "exc")
            winner = w[0]
            if opts.get("return_exceptions"):
                bad("exception raised although exceptions are returned", "exc-raised")
            if not outcomes[winner]:
                bad("impossible", "exc")
        elif r[0] == "ok":
            res = r[1]
            winner = res.result_idx
            if winner is None or not res.done():
                bad("nothing filled", "unfilled")
            if outcomes[winner] and not opts.get("return_exceptions"):
                bad("exception swallowed", "exc-swallowed")
            want = errors[winner] if outcomes[winner] else values[winner]
            got = list(res)
            if len(res) != n or len(got) != n:
                bad("wrong length", "length")
            for i in range(n):
                if i == winner and got[i] is not want:
                    bad("wrong value", "value")
                if i != winner and got[i] is not None:
                    bad("more than one position filled", "filled")
            if want not in res:
                bad("value not in result", "contains")
            try:
                v = res.result()
            except Boom as e:
                v = e
                if not outcomes[winner]:
                    bad("result() raised", "result")
            if v is not want:
                bad("result() is wrong", "result")
        else:
            bad("select ended as cancelled", "spurious-cancel")
        if winner not in [c[0] for c in cand]:
            bad("the winner %r is not the first completed" % winner, "first")
    others = [i for i in range(n) if i not in [c[0] for c in (completed if tie else comp)]]
    if opts.get("cancel", True):
        for i in others:
            if i not in first_cancel:
                bad("awaitable %d was not cancelled" % i, "not-cancelled")
            if abs(first_cancel[i] - start) > EPS:
                bad("awaitable %d was cancelled at the wrong time" % i, "cancel-time")
            if opts.get("wait", True) and i not in fin:
                bad("awaitable %d was not finished on return" % i, "not-finished")
        end = start
        if opts.get("wait", True) and others and oncancel == "slow":
            sl = [i for i in others if kinds[i] != "fut"]
            if sl:
                end = start + 0.5
    else:
        if first_cancel:
            bad("awaitables cancelled although cancel=False", "cancelled")
        end = start
    if abs(t - end) > EPS:
        bad("returned at the wrong time, expected %r" % end, "time")
    return (winner, r[0])


def units(tier):
    deep = tier == "thorough"
    out = []
    opts = []
    for re, ca, wa, to in itertools.product((False, True), (True, False), (True, False),
                                            (None, 1.0)):
        o = {}
        if re:
            o["return_exceptions"] = True
        if not ca:
            o["cancel"] = False
        if not wa:
            o["wait"] = False
        if to is not None:
            o["timeout"] = to
        opts.append(o)
    shapes = [("coro", "coro"), ("fut", "coro"), ("task", "coro"), ("fut", "fut"), ("fut", "task"),
              ("task", "task")]
    three = [("coro",) * 3] + ([("fut", "coro", "task"), ("task",) * 3] if deep else [])
    one = [("coro",), ("fut",)]
    for k, o in enumerate(opts):
        label = ",".join("%s=%s" % i for i in sorted(o.items())) or "default"
        for oncancel in ("plain", "slow", "yield", "raise", "value"):
            if oncancel in ("raise", "value") and "timeout" in o:
                continue
            if not o.get("cancel", True) and oncancel in ("raise", "value"):
                continue

            def run(ch, o=o, oncancel=oncancel):
                kinds = ch.pick(one + shapes, "kinds")
                outcomes = ch.pick(list(itertools.product((0, 1), repeat=len(kinds))), "outcomes")
                return scenario(ch, kinds, outcomes, oncancel, o, False)
            out.append(Unit("order/%s/%s" % (label, oncancel), run, 3 if deep else 2, weight=3))

            def crun(ch, o=o, oncancel=oncancel):
                kinds = ch.pick(one + shapes, "kinds")
                outcomes = ch.pick([(0,) * len(kinds), (1,) * len(kinds)], "outcomes")
                return scenario(ch, kinds, outcomes, oncancel, o, True)
            if oncancel not in ("raise", "value"):
                out.append(Unit("cancel/%s/%s" % (label, oncancel), crun, 3 if deep else 2,
                                weight=4))
            for sh in three:
                def run3(ch, o=o, oncancel=oncancel, sh=sh):
                    outcomes = ch.pick([(0, 0, 0), (1, 0, 1), (0, 1, 0)], "outcomes")
                    return scenario(ch, sh, outcomes, oncancel, o, False)
                out.append(Unit("three/%s/%s/%s" % ("-".join(sh), label, oncancel), run3, 1,
                                weight=5))

                def crun3(ch, o=o, oncancel=oncancel, sh=sh):
                    return scenario(ch, sh, (0, 1, 0), oncancel, o, True)
                if oncancel not in ("raise", "value"):
                    out.append(Unit("cancel3/%s/%s/%s" % ("-".join(sh), label, oncancel), crun3,
                                    2 if deep else 1, weight=5))
    return out
