"""C31: statistic objects, their listing and the counters of the components."""
import asyncio
import gc
import itertools
import logging
import multiprocessing
from typing import Optional

from checks import c06                      # replaces the lottery of the breaker
from mc import vthread

vthread.load(["aiomisc.thread_pool", "aiomisc.iterator_wrapper"])

import aiomisc  # noqa: E402
from aiomisc import counters, get_statistics  # noqa: E402
from aiomisc.aggregate import AggregateStatistic, Aggregator, AggregatorAsync  # noqa: E402
from aiomisc.backoff import BackoffStatistic, RetryStatistic, asyncbackoff, asyncretry  # noqa: E402
from aiomisc.circuit_breaker import (  # noqa: E402
    CircuitBreaker, CircuitBreakerStatistic, CircuitBroken, cutout,
)
from aiomisc.context import Context, ContextStatistic  # noqa: E402
from aiomisc.counters import Statistic  # noqa: E402
from aiomisc.iterator_wrapper import IteratorWrapper, IteratorWrapperStatistic  # noqa: E402
from aiomisc.process_pool import ProcessPoolExecutor, ProcessPoolStatistic  # noqa: E402
from aiomisc.recurring import RecurringCallback, RecurringCallbackStatistic, StrategySkip, StrategyStop  # noqa: E402
from aiomisc.thread_pool import ThreadPoolExecutor, ThreadPoolStatistic  # noqa: E402
from mc.core import Violation  # noqa: E402
from mc.run import Unit  # noqa: E402
from mc.vloop import Stuck, VLoop, run_loop  # noqa: E402

PROPERTY = "C31"
ASSUMPTIONS = [
    "metric names are public; a class does not declare an inherited metric again with another type",
    "counters of the components are compared when all the counted activities are over",
]


def listing(*kinds):
    out = []
    for r in get_statistics(*kinds):
        if tuple(r) != (r.kind, r.name, r.metric, r.value):
            raise Violation("odd entry %r" % (r,), "entry")
        out.append((r.kind.__name__, r.name, r.metric, r.value))
    return sorted(out, key=repr)


# -- classes ----------------------------------------------------------------
ANN = {"a": int, "b": float, "c": str, "_p": int, "o": Optional[int]}
SETS = ((), ("a",), ("b",), ("c",), ("_p",), ("a", "b"), ("b", "c", "o"), ("a", "_p", "o"))


def forget(classes):
    for c in classes:
        counters.CLASS_STORE.discard(c)


def hierarchy(ch, shape):
    """shape: for every class the indices of its bases (empty: Statistic)."""
    classes, wants = [], []
    early = []
    for i, bases in enumerate(shape):
        names = ch.pick(SETS, "annotations")
        ann = {n + str(i) if n != "a" or ch.choose((0, 0), "shared") else n: ANN[n] for n in names}
        dct = {"__annotations__": ann, "__module__": __name__} if ann or ch.choose((0, 0), "empty") \
            else {"__module__": __name__}
        k = type(Statistic)("K%d" % i, tuple(classes[b] for b in bases) or (Statistic,), dct)
        classes.append(k)
        early.append(k("early"))        # there are objects when the next class is made
        own = {n for n, t in ann.items() if t in (int, float) and not n.startswith("_")}
        wants.append(own.union(*(wants[b] for b in bases)))
    try:
        objs = []
        for o, k, want in zip(early, classes, wants):
            objs.append((o, k, want, {m: 0 for m in want}))
        for k, want in zip(classes, wants):
            for j in range(2):
                try:
                    o = k("n%d" % j)
                except Exception as e:
                    raise Violation("%s() raised %r" % (k.__name__, e), "create")
                objs.append((o, k, want, {m: 0 for m in want}))
        v = 0
        for o, k, want, values in objs:
            for m in sorted(want):
                v += 1
                if getattr(o, m) != 0:
                    raise Violation("%s starts at %r" % (m, getattr(o, m)), "start")
                setattr(o, m, getattr(o, m).__iadd__(v) if v % 2 else v)
                values[m] = v
        for o, k, want, values in objs:
            for m, x in values.items():
                if not getattr(o, m) == x:
                    raise Violation("%s is not %r" % (m, x), "value")
        for sel in [()] + [(c,) for c in classes] + [(classes[0], classes[-1])]:
            want = sorted(((k.__name__, o.name, m, x) for o, k, w, values in objs
                           for m, x in values.items() if not sel or issubclass(k, sel)), key=repr)
            got = [e for e in listing(*sel) if e[0].startswith("K")]
            if got != want:
                raise Violation("listed %r instead of %r" % (got, want), "listing")
        ch.observe("classes", tuple(sorted(map(repr, wants))))
        return len(objs)
    finally:
        forget(classes)


# -- sequences of operations ------------------------------------------------
class C31Base(Statistic):
    x: int
    y: float


class C31Child(C31Base):
    z: int


class C31Other(Statistic):
    x: int


METRICS = {C31Base: ("x", "y"), C31Child: ("x", "y", "z"), C31Other: ("x",)}


class Tracked:
    def __init__(self, k, name):
        self.obj = k(name)
        self.k, self.name = k, name
        self.values = {m: [0] for m in METRICS[k]}


def sequence(ch, depth, ops, start=()):
    live, it = [], None
    every = []
    gone = 0
    for k in start:
        live.append(Tracked(k, "n%d" % len(live)))
    every.extend(live)

    def finish():
        """Ends the listing in progress."""
        nonlocal it
        gen, got, at = it
        it = None
        try:
            got.extend(gen)
        except Exception as e:
            raise Violation("listing raised %r" % e, "listing-raised")
        seen = [(r.kind, r.name, r.metric) for r in got]
        for t, since in at:
            for m, values in t.values.items():
                n = seen.count((t.k, t.name, m))
                if t in live and n != 1 or n > 1:
                    raise Violation("%s.%s is listed %d times" % (t.name, m, n), "listing")
        for r in got:
            ok = [t for t in every if t.name == r.name and t.k is r.kind]
            if not ok or r.value not in ok[0].values[r.metric]:
                raise Violation("listed %r" % (r,), "listing-value")

    for step in range(depth):
        can = [o for o in ops if (o in ("create", "list") or o in ("add", "sub", "set", "copy", "drop") and live
                                  or o == "begin" and it is None or o in ("next", "end") and it)]
        op = ch.pick(can, "op")
        if op == "create":
            k = ch.pick((C31Base, C31Child, C31Other), "class")
            t = Tracked(k, "n%d" % len(every))
            live.append(t)
            every.append(t)
            continue
        if op in ("add", "sub", "set", "copy", "drop"):
            t = ch.pick(live, "object")
        if op in ("add", "sub", "set", "copy"):
            m = ch.pick(METRICS[t.k], "metric")
            v = t.values[m]
            if op == "add":
                setattr(t.obj, m, getattr(t.obj, m).__iadd__(2))
                v.append(v[-1] + 2)
            elif op == "sub":
                setattr(t.obj, m, getattr(t.obj, m).__isub__(0.5))
                v.append(v[-1] - 0.5)
            elif op == "set":
                setattr(t.obj, m, 7)
                v.append(7)
            else:
                o = live[0]
                setattr(t.obj, m, o.obj.x)
                v.append(o.values["x"][-1])
        elif op == "drop":
            live.remove(t)
            del t.obj
            gone += 1
        elif op == "list":
            pass
        elif op == "begin":
            it = (get_statistics(*ch.pick(((), (C31Base, C31Other)), "kinds")), [],
                  [(t, None) for t in live])
            it = (filter(lambda r: r.kind in METRICS, it[0]), it[1], it[2])
        elif op == "next":
            try:
                r = next(it[0], None)
            except Exception as e:
                raise Violation("listing raised %r" % e, "listing-raised")
            if r is not None:
                it[1].append(r)
        elif op == "end":
            finish()
        t = r = None
    if it:
        finish()
    for sel in ((), (C31Base,), (C31Child,), (C31Other,), (C31Other, C31Child)):
        want = sorted(((t.k.__name__, t.name, m, v[-1]) for t in live for m, v in t.values.items()
                       if not sel or issubclass(t.k, sel)), key=repr)
        got = [e for e in listing(*sel) if e[0].startswith("C31")]
        if got != want:
            raise Violation("listed %r instead of %r" % (got, want), "listing")
    ch.observe("end", len(live))
    return len(live), gone


# -- components -------------------------------------------------------------
class Boom(Exception):
    pass


class Other(Exception):
    pass


NAME = [""]          # a fresh one for every execution
NUMBER = itertools.count()


def compare(kind, name, **want):
    got = {r.metric: r.value for r in get_statistics(kind) if r.name == name and r.kind is kind}
    for k, v in want.items():
        if got.get(k) is None or abs(got[k] - v) > 1e-9:
            raise Violation("%s of %s is %r after %r such events" % (k, name, got.get(k), v), "counter")


def on_loop(fn):
    def run(ch, *a, **kw):
        NAME[0] = "c31.%d" % next(NUMBER)
        loop = VLoop(ch)
        asyncio.set_event_loop(loop)
        from aiomisc._context_vars import EVENT_LOOP
        EVENT_LOOP.set(loop)
        try:
            return run_loop(loop, fn(ch, loop, *a, **kw))
        except Stuck as e:
            raise Violation("stuck: %s" % e, "stuck")
        finally:
            asyncio.set_event_loop(None)
    return run


@on_loop
async def recurring(ch, loop, n, suppress):
    outcomes = []
    waits = []

    async def f():
        o = ch.pick(("ok", "boom", "other", "slow"), "outcome")
        outcomes.append(o)
        if o == "slow":
            await asyncio.sleep(0.25)
        if o == "boom":
            raise Boom
        if o == "other":
            raise Other

    async def strategy(_):
        if len(outcomes) == n:
            raise StrategyStop
        if ch.choose((0, 1), "skip") and len(waits) < 2:
            waits.append(1)
            raise StrategySkip(0.1)
        return 0.1
    cb = RecurringCallback(f, name=NAME[0])
    await asyncio.wait([cb.start(strategy, suppress_exceptions=(Boom,) if suppress else ())])
    bad = sum(o in ("boom", "other") for o in outcomes)
    compare(RecurringCallbackStatistic, NAME[0], call_count=n, done=n - bad, fail=bad,
            sum_time=0.25 * outcomes.count("slow"))
    return tuple(outcomes)


@on_loop
async def aggregation(ch, loop, n, max_count, low):
    runs = []

    async def f(*args):
        o = ch.pick(("ok", "boom", "slow"), "outcome")
        runs.append(o)
        if o == "slow":
            await asyncio.sleep(0.05)
        if o == "boom":
            raise Boom
        if low:
            for a in args:
                a.future.set_result(1)
        else:
            return args
    a = (AggregatorAsync if low else Aggregator)(
        f, leeway_ms=10, max_count=max_count, statistic_name=NAME[0])
    ts = []
    for i in range(n):
        if i and ch.choose((0, 0), "gap"):
            await asyncio.sleep(0.02)
        ts.append(asyncio.ensure_future(a.aggregate(i)))
    await asyncio.wait(ts)
    bad = runs.count("boom")
    for t in ts:
        t.exception()
    compare(AggregateStatistic, NAME[0], success=len(runs) - bad, error=bad, done=len(runs),
            max_count=max_count or 0, leeway_ms=10)
    return tuple(runs)


@on_loop
async def retry(ch, loop, kind, calls, tries):
    outcomes = []

    async def f():
        o = ch.pick(("ok", "boom", "other", "slow", "cancel"), "outcome")
        outcomes.append(o)
        if o == "slow":
            await asyncio.sleep(0.5)
        if o == "boom":
            raise Boom
        if o == "other":
            raise Other
        if o == "cancel":
            raise asyncio.CancelledError
    if kind == "retry":
        stat = RetryStatistic
        g = asyncretry(tries, (Boom,), pause=0.1, statistic_name=NAME[0])(f)
    else:
        stat = BackoffStatistic
        g = asyncbackoff(0.3, None, 0.1, Boom, max_tries=tries, statistic_name=NAME[0])(f)
    for _ in range(calls):
        await asyncio.wait([asyncio.ensure_future(g())])
    late = outcomes.count("slow")
    again = outcomes.count("boom") + (late if kind != "retry" else 0)
    compare(stat, NAME[0], attempts=len(outcomes), done=len(outcomes),
            cancels=outcomes.count("cancel"), errors=again)
    return tuple(outcomes)


@on_loop
async def breaker(ch, loop, n, how):
    async def f(o):
        if o == "boom":
            raise Boom
    kw = dict(error_ratio=0.5, response_time=10, exceptions=[Boom], broken_time=4, recovery_time=8,
              statistic_name=NAME[0])
    b = CircuitBreaker(**kw)
    c06.LOTTERY["fn"] = lambda: ch.pick((0.0, 0.999), "lottery")
    calls = {"passing": 0, "broken": 0, "recovering": 0}
    ran = rec_ok = rec_no = 0
    for i in range(n):
        gap, o = ch.pick(((1, "boom"), (1, "ok"), (4.5, "ok"), (4.5, "boom")), "call") \
            if i >= how else (0.5, "boom")
        await asyncio.sleep(gap)
        before = b.state
        started = False
        try:
            with b.context():
                started = True
                await f(o)
        except (Boom, CircuitBroken):
            pass
        ran += started
        s = b.state.name.lower()
        calls[s] += 1
        if s == "recovering":
            rec_ok += started
            rec_no += not started
        elif started != (s == "passing"):
            raise Violation("a call in state %s (%s): %s" % (s, before, started), "state")
    compare(CircuitBreakerStatistic, NAME[0], call_count=n, call_passing=calls["passing"],
            call_broken=calls["broken"], call_recovering=calls["recovering"],
            call_recovering_ok=rec_ok, call_recovering_failed=rec_no, error_ratio_threshold=0.5)
    c06.LOTTERY["fn"] = c06._REAL
    return tuple(calls.values())


@on_loop
async def context(ch, loop, n):
    c = Context(loop)
    before = [r for r in get_statistics(ContextStatistic)]
    gets = sets = 0
    for _ in range(n):
        if ch.choose((0, 0), "op"):
            c["k"] = 1
            sets += 1
        else:
            c["k"]
            gets += 1
        await asyncio.sleep(0)
    got = sorted((r.metric, r.value) for r in before and get_statistics(ContextStatistic))
    c.close()
    if ("get", gets) not in got or ("set", sets) not in got:
        raise Violation("context counters %r instead of %d/%d" % (got, gets, sets), "counter")
    return gets, sets


def iterator(ch, n, max_size):
    NAME[0] = "c31.%d" % next(NUMBER)

    async def main(s, loop):
        loop.set_default_executor(ThreadPoolExecutor(max_workers=1))
        k = ch.pick(range(n + 1), "fail at")
        stop = ch.pick(range(n + 2), "stop after")

        def gen():
            for i in range(n):
                if i == k:
                    raise Boom
                made.append(i)
                yield i
        made, got = [], []
        it = IteratorWrapper(gen, loop=loop, max_size=max_size, statistic_name=NAME[0])
        compare(IteratorWrapperStatistic, NAME[0], started=0, yielded=0, enqueued=0, queue_size=max_size)
        try:
            async with it:
                if stop:
                    async for x in it:
                        got.append(x)
                        if len(got) == stop:
                            break
        except Boom:
            pass
        compare(IteratorWrapperStatistic, NAME[0], started=0, yielded=len(got), queue_size=max_size)
        if stop > n:
            compare(IteratorWrapperStatistic, NAME[0], enqueued=len(got))
        return len(got)
    try:
        return vthread.run(ch, main)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


def threads(ch, kinds, workers):
    """The pool on controlled threads."""
    def fn(kind, gate):
        if kind == "sleep":
            vthread.time.sleep(0.5)
        if kind == "raise":
            raise Boom
        if kind == "wait":
            gate.wait()

    NAME[0] = "c31.%d" % next(NUMBER)

    async def main(s, loop):
        pool = ThreadPoolExecutor(max_workers=workers, statistic_name=NAME[0])
        gate = vthread.threading.Event()
        ran = []

        def call(k):
            ran.append(k)
            fn(k, gate)
        futs = [asyncio.ensure_future(pool.submit(call, k)) for k in kinds]
        await asyncio.sleep(0)
        for f in futs:
            if f.done() or ch.choose((0, 1), "cancel") == 0:
                continue
            f.cancel()
        gate.set()
        await asyncio.wait(futs)
        pool.shutdown(wait=False)
        while not all(t.done for t in s.threads[1:]):
            await asyncio.sleep(0.5)
        bad = sum(k == "raise" for k in ran)
        compare(ThreadPoolStatistic, NAME[0], submitted=len(kinds), done=len(ran), error=bad,
                success=len(ran) - bad, threads=0)
        return tuple(sorted(ran))
    try:
        return vthread.run(ch, main)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


def undaemon():
    """The processes of the explorer are not allowed to have children."""
    config = multiprocessing.current_process()._config
    daemon = config.get("daemon", False)
    config.update(daemon=False)
    return daemon


def job(kind):
    import time
    if kind == "wait":
        time.sleep(0.15)
    if kind == "raise":
        raise ValueError(kind)


def processes(ch, n):
    """Real processes: only the final counts are compared."""
    kinds = [ch.pick(("ok", "raise", "wait"), "kind") for _ in range(n)]
    cancel = [ch.choose((0, 0), "cancel") for _ in range(n)]

    async def main():
        pool = ProcessPoolExecutor(max_workers=1)
        futs = [pool.submit(job, k) for k in kinds]
        cut = [c and f.cancel() for f, c in zip(futs, cancel)]
        for f in futs:
            if not f.cancelled():
                await asyncio.wait([asyncio.wrap_future(f)])
        pool.shutdown(wait=True)
        return cut
    loop = asyncio.new_event_loop()
    daemon = undaemon()
    records = []

    class H(logging.Handler):
        def emit(self, r):
            records.append(r.getMessage())
    log = logging.getLogger("concurrent.futures")
    h = H()
    log.addHandler(h)
    saved, log.manager.disable = log.manager.disable, 0
    try:
        cut = loop.run_until_complete(main())
    finally:
        log.removeHandler(h)
        log.manager.disable = saved
        loop.close()
        multiprocessing.current_process()._config.update(daemon=daemon)
    if records:
        raise Violation("%r" % records, "callback")
    return None


def processes_counts(ch, n):
    kinds = [ch.pick(("ok", "raise", "wait"), "kind") for _ in range(n)]

    async def main():
        pool = ProcessPoolExecutor(max_workers=1)
        futs = [pool.submit(job, k) for k in kinds]
        for f in futs:
            await asyncio.wait([asyncio.wrap_future(f)])
        pool.shutdown(wait=True)
        bad = kinds.count("raise")
        got = {r.metric: r.value for r in get_statistics(ProcessPoolStatistic)}
        want = dict(processes=1, submitted=n, done=n, error=bad, success=n - bad)
        if any(got.get(k) != v for k, v in want.items()):
            raise Violation("process pool counters %r instead of %r" % (got, want), "counter")
    loop = asyncio.new_event_loop()
    daemon = undaemon()
    try:
        loop.run_until_complete(main())
    finally:
        loop.close()
        multiprocessing.current_process()._config.update(daemon=daemon)
    return tuple(kinds)


@on_loop
async def owners(ch, loop):
    """A statistic is listed as long as its owner exists."""
    async def f(*a):
        pass
    make = {
        "recurring": (RecurringCallbackStatistic, lambda: RecurringCallback(f, name=NAME[0])),
        "aggregate": (AggregateStatistic, lambda: Aggregator(f, leeway_ms=10, statistic_name=NAME[0])),
        "aggregate_async": (AggregateStatistic, lambda: AggregatorAsync(f, leeway_ms=10, statistic_name=NAME[0])),
        "backoff": (BackoffStatistic, lambda: asyncbackoff(1, 1, statistic_name=NAME[0])(f)),
        "retry": (RetryStatistic, lambda: asyncretry(1, statistic_name=NAME[0])(f)),
        "breaker": (CircuitBreakerStatistic, lambda: CircuitBreaker(
            error_ratio=0.5, response_time=1, statistic_name=NAME[0])),
        "iterator": (IteratorWrapperStatistic, lambda: IteratorWrapper(
            lambda: iter(()), loop=loop, statistic_name=NAME[0])),
    }
    kind, factory = make[ch.pick(sorted(make), "owner")]
    n = ch.pick((1, 2), "number")
    objs = [factory() for _ in range(n)]
    for left in range(n, -1, -1):
        gc.collect()
        got = [r for r in get_statistics(kind) if r.name == NAME[0]]
        if len(got) != left * len(kind.__metrics__):
            raise Violation("%d entries for %d objects" % (len(got), left), "owner")
        if objs:
            objs.pop()
    return kind.__name__


def units(tier):
    deep = tier == "thorough"
    x = int(deep)
    cap = 600000 if deep else 60000
    shapes = [((),), ((), (0,)), ((), ()), ((), (0,), (1,)), ((), (), (0, 1)), ((), (0,), (0,))]
    if deep:
        shapes += [((), (0,), (1,), (2,)), ((), (0,), (0,), (1, 2))]
    for s in shapes:
        yield Unit("classes %r" % (s,), lambda ch, s=s: hierarchy(ch, s), bound=0, cap=cap,
                   weight=len(s) ** 2)
    upd = ("create", "add", "set", "drop", "copy")
    lst = ("create", "add", "drop", "begin", "next", "end")
    for start in ((), (C31Base,), (C31Child, C31Base), (C31Other, C31Child)):
        name = "+".join(k.__name__ for k in start)
        for d, tag, ops in ((3, "updates", upd), (4, "listing", lst), (3, "sub", ("create", "sub", "set", "list"))):
            d += x + (not start)
            yield Unit("%s from %s depth %d" % (tag, name, d), lambda ch, d=d, ops=ops, start=start: sequence(
                ch, d, ops, start), bound=0, cap=cap, weight=15)
    yield Unit("owners", owners, bound=0, cap=cap, weight=5)
    for n in (1, 2, 3) + (4,) * x:
        for sup in (False, True):
            yield Unit("recurring %d %s" % (n, sup), lambda ch, n=n, sup=sup: recurring(ch, n, sup),
                       bound=1 + x, cap=cap, weight=3)
        for low in (False, True):
            for mc in (None, 1, 2):
                yield Unit("aggregate %d max=%s %s" % (n, mc, low),
                           lambda ch, n=n, mc=mc, low=low: aggregation(ch, n, mc, low),
                           bound=1, cap=cap, weight=3)
        for kind in ("retry", "backoff"):
            for calls in (1, 2):
                yield Unit("%s tries=%d calls=%d" % (kind, n, calls),
                           lambda ch, kind=kind, calls=calls, n=n: retry(ch, kind, calls, n),
                           bound=0, cap=cap, weight=3)
        for ms in (0, 4):
            yield Unit("iterator %d max=%d" % (n, ms), lambda ch, n=n, ms=ms: iterator(ch, n, ms),
                       bound=1, cap=cap)
        yield Unit("context %d" % n, lambda ch, n=n: context(ch, n + 2), bound=0, cap=cap)
    for how in (0, 19, 22):
        yield Unit("breaker after %d" % how, lambda ch, how=how: breaker(ch, how + 3 + x, how),
                   bound=0, cap=cap, weight=6)
    for kinds in itertools.chain(*(itertools.combinations_with_replacement(
            ("ret", "raise", "sleep", "wait"), n) for n in (1, 2, 3))):
        for workers in (1, 2):
            yield Unit("threads %s w=%d" % ("+".join(kinds), workers),
                       lambda ch, kinds=kinds, workers=workers: threads(ch, kinds, workers),
                       bound=1 + (len(kinds) < 2) + x, cap=cap, weight=3)
    yield Unit("processes", lambda ch: processes_counts(ch, 2), bound=0, cap=cap, weight=10)
    yield Unit("processes cancel", lambda ch: processes(ch, 2 + x), bound=0, cap=cap, weight=30)
