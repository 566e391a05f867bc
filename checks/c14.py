"""C14: recurring / periodic / cron callbacks: serial runs, exact delays, stop."""
import asyncio
import contextvars
import itertools
import logging

from aiomisc.cron import CronCallback
from aiomisc import PeriodicCallback, RecurringCallback
from aiomisc.recurring import StrategySkip, StrategyStop
from checks.wallclock import WallClock
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C14"
ASSUMPTIONS = [
    "virtual clock; callbacks let a cancellation they receive propagate",
    "a run whose task was already scheduled when stop was called may still begin in the same loop turn",
]
EPS = 1e-6
SERIES = contextvars.ContextVar("series")


logging.disable(logging.NOTSET)
logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)


class Captured(logging.Handler):
    """Collects the errors logged by aiomisc."""

    def __init__(self):
        super().__init__(logging.ERROR)
        self.records = []

    def emit(self, record):
        self.records.append(record)


ERRORS = Captured()
logging.getLogger("aiomisc").addHandler(ERRORS)


class Listed(Exception):
    pass


class Boom(Exception):
    pass


OUT = {
    "ok": (0, None), "ok.2": (0.2, None), "raise": (0, Boom), "raise.2": (0.2, Boom),
    "listed": (0.1, Listed), "cancel": (0, asyncio.CancelledError),
    "cancel.2": (0.2, asyncio.CancelledError), "cleanup.2": (0.2, None),
}
ANSWERS = {
    "0": 0, "0.5": 0.5, "-1": -1, "2": 2, "skip.3": StrategySkip(0.3), "skip0": StrategySkip(0),
    "stop": StrategyStop(), "none": None, "str": "1", "True": True,
}


def check_log(failures, what):
    """Every failure is logged once, unless its exception is suppressed."""
    got = [r for r in ERRORS.records if r.exc_info]
    if len(got) != failures or any(not isinstance(r.exc_info[1], Boom) for r in got):
        raise Violation("%d runs failed, logged: %r; %r" % (
            failures, [r.exc_info[1] for r in got], what), "log")


def sc_recurring(ch, answers, outcomes, depth, cancel, shield, kind):
    loop = VLoop(ch)
    del ERRORS.records[:]
    t0 = loop.time()
    runs = []            # [start, end, how]
    asked = []           # (time, answer)
    state = {"cancel": None, "running": 0}
    marker = object()

    def late():
        c = state["cancel"]
        if c is not None and (loop.iteration > c[3] + 2 or loop.time() - t0 > c[0] + EPS):
            ch.fail("run began after stop", "after-stop")

    async def afunc(a, k=None):
        if a is not marker or k is not ANSWERS:
            ch.fail("wrong arguments", "args")
        if state["running"]:
            ch.fail("two runs at the same time", "overlap")
        late()
        state["running"] += 1
        r = [loop.time() - t0, None, None]
        runs.append(r)
        ch.observe("run", round(r[0], 6))
        name = ch.pick(outcomes, "outcome") if len(runs) <= depth else "ok"
        dur, exc = OUT[name]
        try:
            if dur:
                await asyncio.sleep(dur)
        except asyncio.CancelledError:
            if name == "cleanup.2":
                r[2] = "cancelled"
                await asyncio.sleep(0.3)
            r[2] = "cancelled"
            raise
        finally:
            state["running"] -= 1
            r[1] = loop.time() - t0
        r[2] = name
        if exc:
            raise exc("x")

    def sfunc(a, k=None):
        if a is not marker or k is not ANSWERS:
            ch.fail("wrong arguments", "args")
        late()
        r = [loop.time() - t0, loop.time() - t0, None]
        runs.append(r)
        name = ch.pick([o for o in outcomes if not OUT[o][0]], "outcome") \
            if len(runs) <= depth else "ok"
        r[2] = name
        if OUT[name][1]:
            raise OUT[name][1]("x")

    def strategy(rc):
        if rc is not cb:
            ch.fail("strategy got %r" % rc, "strategy-arg")
        if state["running"]:
            ch.fail("strategy asked during a run", "overlap")
        name = ch.pick(answers, "answer") if len(asked) < depth else "stop"
        asked.append((loop.time() - t0, name))
        ch.observe("ask", name, round(loop.time() - t0, 6))
        v = ANSWERS[name]
        if isinstance(v, Exception):
            raise v
        return v

    async def astrategy(rc):
        await asyncio.sleep(0)
        return strategy(rc)

    cb = RecurringCallback(sfunc if kind == "sync" else afunc, marker, k=ANSWERS, name="x")
    out = {}

    async def main():
        task = cb.start(astrategy if kind == "async-strategy" else strategy, loop,
                        shield=shield, suppress_exceptions=(Listed,))
        if cancel:
            def do():
                state["cancel"] = (loop.time() - t0, len(runs), state["running"], loop.iteration)
                ch.observe("stop")
                task.cancel()
            loop.act("stop", do, lambda: not task.done(), may=True)
        await asyncio.wait([task])
        out["t"] = loop.time() - t0
        out["running"] = state["running"]
        if task.cancelled():
            out["r"] = "cancelled"
        elif task.exception() is not None:
            out["r"] = task.exception()
        else:
            out["r"] = "ended"
        await asyncio.sleep(3)
        out["runs"] = len(runs)

    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation("series hangs: %s; asked %r runs %r" % (e, asked, runs), "hang")

    if loop.unhandled:
        raise Violation("unhandled: %r; runs %r" % (loop.unhandled, runs), "unhandled")
    check_log(sum(1 for r in runs if r[2] in ("raise", "raise.2")), runs)

    def bad(msg, key):
        raise Violation("%s: asked %r runs %r stopped %r end %r" % (
            msg, asked, runs, state["cancel"], out), key)

    # replay on the reference timeline
    t = 0.0
    ri = 0
    ended = False
    for k, (at, name) in enumerate(asked):
        if ended:
            bad("strategy asked after the series ended", "ended")
        if abs(at - t) > EPS:
            bad("strategy asked at %r, expected %r" % (at, t), "ask-time")
        v = ANSWERS[name]
        last = k == len(asked) - 1
        if isinstance(v, StrategySkip):
            t += v.delay
            continue
        if isinstance(v, Exception) or not isinstance(v, (int, float)):
            ended = True
            continue
        if ri >= len(runs):
            if state["cancel"] is None or not last:
                bad("a run is missing", "missing")
            break
        s, e, how = runs[ri]
        ri += 1
        if abs(s - t - max(v, 0)) > EPS:
            bad("run %d began at %r, expected %r" % (ri, s, t + max(v, 0)), "run-time")
        t = e
    if ri != len(runs):
        bad("more runs than the strategy asked for", "extra")
    if state["cancel"] is not None:
        at, n, running, _ = state["cancel"]
        if out["r"] != "cancelled" and not (ended and out["r"] == "ended"):
            bad("stopped series ended as %r" % (out["r"],), "stop-result")
        if len(runs) > n + 1:
            bad("a run began after stop", "after-stop")
        if running and not shield:
            if runs[-1][2] != "cancelled" and runs[-1][1] > at + EPS:
                bad("run in progress was not cancelled", "not-cancelled")
            if out["running"]:
                bad("run in progress outlives the stopped series", "leak")
        if shield and any(r[2] == "cancelled" for r in runs):
            bad("shielded run was cancelled", "shield")
        if any(r[1] is None for r in runs):
            bad("run never ended", "leak")
        return ("stopped", len(runs))
    if not ended or out["r"] != "ended":
        bad("series did not end properly", "end")
    if any(r[2] == "cancelled" for r in runs):
        bad("run was cancelled", "cancelled")
    return (tuple(n for _, n in asked), tuple(r[2] for r in runs))


def sc_control(ch, which, ops, depth, shield, durs, outcomes, delay=0.25):
    """start/stop/wait operation sequences on PeriodicCallback / CronCallback."""
    loop = VLoop(ch)
    del ERRORS.records[:]
    t0 = loop.time()
    interval = 1.0
    series = []       # dict(start, stop, runs)
    hist = []
    current = None
    stop_pending = []

    async def func():
        k = SERIES.get()
        s = series[k]
        if any(r[1] is None for r in s["runs"]):
            ch.fail("two runs of one series at the same time: %r" % hist, "overlap")
        if s["stop"] is not None and not (
                loop.iteration <= s["stop_iter"] + 2 and loop.time() - t0 <= s["stop"] + EPS):
            ch.fail("run began after stop: %r" % hist, "after-stop")
        r = [loop.time() - t0, None, None]
        s["runs"].append(r)
        ch.observe("run", k, round(r[0], 6))
        out = ch.pick(outcomes, "outcome") if len(s["runs"]) < 3 else "ok"
        d = ch.pick(durs, "duration") if len(s["runs"]) < 3 else 0
        try:
            if d:
                await asyncio.sleep(d)
            if out == "selfstop":
                hist.append("selfstop")
                do_stop()
                await asyncio.sleep(5)
        except asyncio.CancelledError:
            r[2] = "cancelled"
            raise
        finally:
            r[1] = loop.time() - t0
        r[2] = "raise" if out == "raise" else "done"
        if out == "raise":
            raise Boom("x")
        if out == "listed":
            raise Listed("x")
        if out == "cancel":
            raise asyncio.CancelledError

    clock = WallClock(loop, 1_700_000_000.0 - t0)
    cb = PeriodicCallback(func) if which == "periodic" else CronCallback(func)

    def do_start():
        nonlocal current
        running = current is not None
        busy = which == "cron" and any(not f.done() for f in stop_pending)
        SERIES.set(len(series))
        rec = {"start": loop.time() - t0, "stop": None, "stop_iter": None, "runs": []}
        series.append(rec)
        try:
            if which == "periodic":
                cb.start(interval, loop, delay=delay, shield=shield,
                         suppress_exceptions=(Listed,))
            else:
                cb.start("* * * * * *", loop, shield=shield,
                         suppress_exceptions=(Listed,))
        except asyncio.InvalidStateError:
            series.pop()
            if not running and not busy:
                raise Violation("start refused: %r" % hist, "refused")
            return
        if running:
            raise Violation("second start was not refused: %r" % hist, "not-refused")
        current = rec

    def do_stop():
        nonlocal current
        fut = cb.stop()
        if current is not None:
            current["stop"] = loop.time() - t0
            current["stop_iter"] = loop.iteration
            stop_pending.append(asyncio.ensure_future(fut))
            current = None
            return fut, True
        return fut, False

    async def main():
        for _ in range(depth):
            op = ch.pick(ops, "op")
            hist.append(op)
            ch.observe("op", op)
            if op == "start":
                do_start()
            elif op in ("stop", "stopwait"):
                fut, was = do_stop()
                if op == "stopwait" or not was:
                    try:
                        r = await asyncio.wait_for(fut, 20)
                        if was:
                            raise Violation("stop returned %r" % (r,), "stop-result")
                    except asyncio.TimeoutError:
                        raise Violation("stop never finishes: %r" % hist, "stop-hang")
                    except asyncio.CancelledError:
                        if not was and not (which == "cron" and series):
                            raise Violation("stop() of an idle instance: cancelled", "stop-idle")
                    except RuntimeError as e:
                        if was or "not started" not in str(e):
                            raise Violation("stop raised %r: %r" % (e, hist), "stop-result")
                    if was and not shield:
                        for s in series:
                            if s["stop"] is not None and any(r[1] is None for r in s["runs"]):
                                raise Violation("run in progress survives stop: %r" % hist,
                                                "stop-leak")
            elif op == "yield":
                await asyncio.sleep(0)
            else:
                await asyncio.sleep(float(op[1:]))
        if current is not None:
            await asyncio.sleep(2.6)
            if "end-" not in hist:
                do_stop()
        end = loop.time() - t0
        for f in stop_pending:
            f.add_done_callback(lambda f: f.cancelled() or f.exception())
        await asyncio.sleep(8)
        return end

    with clock:
        try:
            end = run_loop(loop, main())
        except Stuck as e:
            raise Violation("hang: %s after %r" % (e, hist), "hang")

    check_log(sum(1 for s in series for r in s["runs"] if r[2] == "raise"), hist)
    unhandled = [u for u in loop.unhandled
                 if not isinstance(u.get("exception"), RuntimeError)]     # useless stops
    if unhandled:
        raise Violation("unhandled: %r after %r" % (unhandled, hist), "unhandled")
    for k, s in enumerate(series):
        if which == "periodic":
            t = s["start"] + delay
        else:
            t = clock.next_second(s["start"] + t0) - t0
        last = s["stop"] if s["stop"] is not None else end
        for n, (b, e, how) in enumerate(s["runs"]):
            if abs(b - t) > EPS:
                raise Violation("run %d of series %d began at %r, expected %r: %r %r" % (
                    n, k, b, t, hist, series), "run-time")
            if e is None:
                raise Violation("run never ended: %r %r" % (hist, series), "leak")
            if s["stop"] is not None and b < s["stop"] - EPS and not shield and \
                    e > s["stop"] + EPS:
                raise Violation("run in progress was not cancelled by stop: %r %r" % (
                    hist, series), "not-cancelled")
            if how == "cancelled" and shield:
                raise Violation("shielded run was cancelled: %r" % hist, "shield")
            if how == "cancelled" and not (s["stop"] is not None and abs(e - s["stop"]) < EPS):
                raise Violation("run was cancelled without stop: %r %r" % (hist, series),
                                "spurious")
            t = e + interval if which == "periodic" else clock.next_second(e + t0) - t0
        if t < last - EPS and (not s["runs"] or s["runs"][-1][1] is not None):
            raise Violation("series %d: run expected at %r is missing (stopped at %r): %r %r" % (
                k, t, last, hist, series), "missing")
    return tuple(tuple(r[2] for r in s["runs"]) for s in series)


def units(tier):
    deep = tier == "thorough"
    out = []
    full_a = list(ANSWERS)
    full_o = [o for o in OUT if o != "cleanup.2"]
    for shield in (False, True):
        for kind in ("async", "sync", "async-strategy"):
            depth = 4 if deep else 3
            for first in full_a:
                def run(ch, shield=shield, kind=kind, depth=depth, first=first):
                    head = [first]

                    class A(list):
                        pass
                    return sc_recurring(ch, Seq(first, full_a), full_o[:5] if kind != "async"
                                        else full_o, depth, False, shield, kind)
                if deep or kind == "async" or first in ("0", "0.5", "skip.3"):
                    out.append(Unit("recurring/%s/shield=%s/%s" % (kind, shield, first), run, 0,
                                    weight=9))

            def crun(ch, shield=shield, kind=kind):
                return sc_recurring(ch, ["0", "0.5", "skip.3", "stop"],
                                    ["ok", "ok.2", "raise.2", "cancel"] + ["cleanup.2"] * (kind != "sync"),
                                    3, True, shield, kind)
            out.append(Unit("recurring-stop/%s/shield=%s" % (kind, shield), crun, 1, weight=8))
    ops = ["start", "stop", "stopwait", "yield", "w0.25", "w0.7"]
    for which in ("periodic", "cron"):
        for shield in (False, True):
            for first in ("start", "stop", "stopwait"):
                for second in ops:
                    d = 6 if deep else 5

                    def run(ch, which=which, shield=shield, first=first, second=second, d=d):
                        seq = Seq2([first, second], ops)
                        return sc_control(ch, which, seq, d, shield, (0, 0.6), ["ok"])
                    out.append(Unit("control/%s/shield=%s/%s-%s" % (which, shield, first, second),
                                    run, 0, weight=7))
            if which == "periodic":
                for delay in (0, 1.7):
                    def run(ch, shield=shield, delay=delay):
                        return sc_control(ch, "periodic", Seq2(["start"], ops + ["w2.5"]),
                                          4 if deep else 3, shield, (0, 0.6), ["ok"], delay)
                    out.append(Unit("delay=%s/shield=%s" % (delay, shield), run, 0, weight=7))
            for o in ("raise", "cancel", "listed", "selfstop"):
                def run(ch, which=which, shield=shield, o=o):
                    return sc_control(ch, which, Seq2(["start"], ["w0.7", "stop", "start",
                                                                 "stopwait", "yield"]),
                                      5 if deep else 4, shield, (0, 0.3, 1.5), ["ok", o])
                if o == "selfstop" and shield:
                    continue
                out.append(Unit("outcomes/%s/shield=%s/%s" % (which, shield, o), run, 0, weight=7))
    return out


class Seq2:
    """a prescribed head followed by free picks"""

    def __init__(self, head, rest):
        self.head, self.rest = head, rest
        self.n = 0

    def __iter__(self):
        n = self.n
        self.n += 1
        return iter([self.head[n]] if n < len(self.head) else self.rest)


def Seq(first, rest):
    return Seq2([first], rest)
