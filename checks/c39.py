"""C39: periodic, cron and diagnostic services do their job from start to stop only."""
import asyncio
import cProfile
import itertools
import logging
import os
import sys
import tempfile
import tracemalloc
from collections.abc import Mapping

from aiomisc.service.cron import CronService
from aiomisc.service.periodic import PeriodicService
from aiomisc.service.profiler import Profiler
from aiomisc.service.tracer import MemoryTracer
from checks.wallclock import WallClock
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

try:
    import aiocarbon  # noqa
    from aiomisc.service.carbon import CarbonSender
    carbon_module = sys.modules["aiomisc.service.carbon"]
except ImportError:
    CarbonSender = None

tracer_module = sys.modules["aiomisc.service.tracer"]
profiler_module = sys.modules["aiomisc.service.profiler"]

PROPERTY = "C39"
ASSUMPTIONS = [
    "virtual clock and virtual executor; jobs end when they are cancelled",
    "tracemalloc, cProfile and the carbon client are replaced by stand-ins with their documented behaviour",
]
EPS = 1e-6
logging.disable(logging.NOTSET)


class Captured(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.records = []

    def emit(self, record):
        self.records.append(record)


ERRORS = Captured()
logging.getLogger("aiomisc").addHandler(ERRORS)
logging.getLogger("aiomisc").propagate = False
logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)


class Boom(Exception):
    pass


# behaviour of one run: duration, exception, cleanup time after a cancellation
BEH = {
    "ok": (0, None, 0), "ok.4": (0.4, None, 0), "raise": (0, Boom, 0), "raise.4": (0.4, Boom, 0),
    "clean.4": (0.4, None, 0.3), "long": (7, None, 0.3),
}


class Runs:
    """What the jobs did: [name, begin, end, how]"""

    def __init__(self, ch, loop, beh):
        self.ch = ch
        self.loop = loop
        self.beh = beh
        self.runs = []
        self.base = 0

    def active(self, name=None):
        return [r for r in self.runs if r[2] is None and name in (None, r[0])]

    def plan(self, name):
        n = len([r for r in self.runs if r[0] == name])
        b = self.beh
        return BEH[b[n % len(b)]]

    async def job(self, name="job"):
        if self.active(name):
            self.ch.fail("two runs of %s at once" % name, "overlap")
        dur, exc, clean = self.plan(name)
        r = [name, self.loop.time(), None, None]
        self.runs.append(r)
        self.ch.observe("run", name, round(r[1], 3))
        try:
            if dur:
                await asyncio.sleep(dur)
            r[3] = "done"
            if exc:
                raise exc()
        except asyncio.CancelledError:
            r[3] = "cancelled"
            if clean:
                await asyncio.sleep(clean)
            raise
        finally:
            r[2] = self.loop.time()


# -- the services ---------------------------------------------------------
class Adapter:
    """make() -> service;  runs are reported to w.runs"""
    delay = 0
    interval = 3
    instant = False        # a run takes no virtual time and has no outcome to choose

    def __init__(self, w):
        self.w = w

    def started(self):
        pass

    def running(self):
        pass

    def stopped(self):
        pass

    def close(self):
        pass


class Periodic(Adapter):
    def __init__(self, w, interval=3, delay=0):
        super().__init__(w)
        self.interval, self.delay = interval, delay

    def make(self):
        w = self.w

        class P(PeriodicService):
            async def callback(self):
                await w.job()
        return P(interval=self.interval, delay=self.delay)


class Carbon(Adapter):
    interval = 5
    delay = 0

    def __init__(self, w, interval=None):
        super().__init__(w)
        me = self
        self.clients = []
        if interval:
            self.interval = interval

        class Client:
            def __init__(self, host, port, namespace=None, storage=None, loop=None):
                self.args = (host, port, namespace, storage)
                me.clients.append(self)

            async def send(self):
                if me.clients[-1] is not self:
                    w.ch.fail("an old client is used", "carbon-client")
                await w.job()
        table = {"udp": Client, "tcp": Client, "pickle": Client}
        self.saved = []
        for k, v in list(vars(carbon_module).items()):
            if isinstance(v, Mapping) and set(v) == set(table):
                self.saved.append((carbon_module, k, v, table))
            elif isinstance(v, type) and v.__module__.startswith("aiocarbon.protocol"):
                self.saved.append((carbon_module, k, v, Client))
        put(self.saved)

    def make(self):
        return CarbonSender(host="h", port=7, send_interval=self.interval, protocol="tcp",
                            namespace=("a b", "c.d", "E-"))

    def started(self):
        c = self.clients[-1]
        if c.args[:3] != ("h", 7, "a_b.c_d.e-"):
            raise Violation("the carbon client got %r" % (c.args,), "carbon-args")
        from aiocarbon import Meter
        if Meter.client_storage.get() is not c:
            raise Violation("the client is not the one metrics go to", "carbon-set")

    def close(self):
        restore(self.saved)


def everywhere(real, fake, *modules):
    return [(m, k, real, fake) for m in modules for k, v in list(vars(m).items()) if v is real]


def put(places):
    for m, k, _, fake in places:
        setattr(m, k, fake)


def restore(places):
    for m, k, real, _ in places:
        setattr(m, k, real)


class FakeTracemalloc:
    """tracemalloc's documented behaviour, without tracing"""

    class Snapshot:
        def __init__(self, n):
            self.n = n

        def compare_to(self, other, key):
            assert key in ("lineno", "filename", "traceback")

            class Diff:
                count, count_diff, size, size_diff = self.n, other.n, 3000 * self.n, -5
                traceback = "tb"
            return [Diff()] * 25

    def __init__(self, w):
        self.w = w
        self.on = False
        self.n = 0

    def start(self):
        self.on = True

    def stop(self):
        self.on = False

    def is_tracing(self):
        return self.on

    def take_snapshot(self):
        if not self.on:
            self.w.ch.fail("a snapshot is taken while nothing is traced", "tracer-off")
            raise RuntimeError("the tracemalloc module must be tracing memory allocations "
                               "to take a snapshot")
        self.n += 1
        return self.Snapshot(self.n)


class Tracer(Adapter):
    interval = 3
    instant = True

    def __init__(self, w, interval=3):
        super().__init__(w)
        self.interval = interval
        self.fake = FakeTracemalloc(w)
        self.saved = []
        for n in ("start", "stop", "is_tracing", "take_snapshot"):
            self.saved += everywhere(getattr(tracemalloc, n), getattr(self.fake, n),
                                     tracemalloc, tracer_module)
        put(self.saved)
        self.first = None

    def make(self):
        def log(fmt, *args):
            if not self.w.loop.in_executor:
                self.w.ch.fail("the report is made in the event loop's thread", "tracer-thread")
            text = fmt % args
            if text.count("\n") != 1 + 1 + 20 + (0 if text.endswith("\n") else -1):
                self.w.ch.fail("report of %d lines: %r" % (text.count("\n"), text), "tracer-report")
            if " %d | " % self.first not in text:
                self.w.ch.fail("not compared with the start of the service", "tracer-diff")
            t = self.w.loop.time()
            self.w.runs.append(["job", t, t, "done"])
            self.w.ch.observe("run", round(t, 3))
        return MemoryTracer(interval=self.interval, logger=log)

    def started(self):
        self.first = self.fake.n
        if not self.fake.on or not self.first:
            raise Violation("memory is not traced", "tracer-start")

    def running(self):
        if not self.fake.on:
            raise Violation("memory is not traced any more", "tracer-running")

    def stopped(self):
        if self.fake.on:
            raise Violation("tracing goes on", "tracer-stop")

    def close(self):
        restore(self.saved)


class FakeProfile:
    live = []

    def __init__(self, *a, **k):
        self.on = False
        self.stats = {}
        FakeProfile.live.append(self)

    def enable(self, *a, **k):
        self.on = True

    def disable(self):
        self.on = False

    def create_stats(self):
        self.disable()
        self.stats = {("f%d.py" % i, i, "n%d" % i): (1, 1, 0.1 * i, 0.1 * i, {}) for i in range(15)}


class Prof(Adapter):
    interval = 3
    instant = True

    def __init__(self, w, interval=3, path=None):
        super().__init__(w)
        self.interval = interval
        FakeProfile.live = []
        self.saved = everywhere(cProfile.Profile, FakeProfile, cProfile, profiler_module)
        put(self.saved)
        self.dir = None
        self.path = None
        if path == "file":
            self.dir = tempfile.mkdtemp(prefix="verif-c39-")
            self.path = os.path.join(self.dir, "stats")
        elif path == "bad":
            self.path = "/dev/null/none/stats"

    def make(self):
        outer = self

        class H(logging.Handler):
            def emit(self, record):
                text = record.getMessage()
                if "Stop profiler" in text:
                    return
                if "n14" not in text or "n2)" in text:
                    outer.w.ch.fail("report %r" % text, "prof-report")
                t = outer.w.loop.time()
                outer.w.runs.append(["job", t, t, "done"])
                outer.w.ch.observe("run", round(t, 3))
        log = logging.Logger("c39.%d" % id(self), logging.INFO)
        self.handler = H()

        class Log:
            def getChild(self, name):
                lg = logging.Logger(name, logging.INFO)
                lg.addHandler(outer.handler)
                return lg
        del log
        return Profiler(interval=self.interval, top_results=10, path=self.path, log=Log())

    def started(self):
        self.running()

    def running(self):
        if not FakeProfile.live[-1].on:
            raise Violation("the profiler is off while the service runs", "prof-running")

    def stopped(self):
        if any(p.on for p in FakeProfile.live):
            raise Violation("the profiler is still on", "prof-stop")
        if self.dir and self.w.runs and not os.path.getsize(self.path):
            raise Violation("no statistics were dumped", "prof-dump")

    def close(self):
        restore(self.saved)
        if self.dir:
            if os.path.exists(self.path):
                os.unlink(self.path)
            os.rmdir(self.dir)


def scenario(ch, make, beh, horizon, rounds, exc=None):
    loop = VLoop(ch)
    loop.exec_urgent = True
    w = Runs(ch, loop, beh)
    ad = make(w)
    st = {"stop": None, "main": None}

    def check_runs(runs, begin, end):
        """Exact times of the runs of one period of service."""
        t = begin + ad.delay
        for i, r in enumerate(runs):
            if abs(r[1] - t) > EPS:
                raise Violation("run %d began after %g instead of %g" % (
                    i, r[1] - begin, t - begin), "run-time")
            dur = 0 if ad.instant else w.beh_of(w.base + i)[0]
            if r[3] == "done":
                if abs(r[2] - r[1] - dur) > EPS:
                    raise Violation("run %d took %g" % (i, r[2] - r[1]), "run-duration")
            t = r[1] + dur + ad.interval
        if end is not None and t < end - EPS:
            raise Violation("run %d which was due after %g is missing" % (len(runs), t - begin),
                            "run-missing")

    w.beh_of = lambda n: BEH[beh[n % len(beh)]]

    async def one(svc):
        w.base = len(w.runs)
        begin = loop.time()
        await svc.start()
        ad.started()
        st["stop"] = None
        ev = loop.create_future()

        def stop():
            if st["stop"] is None:
                ad.running()
                st["stop"] = loop.create_task(svc.stop(exc))
                st["stopped_at"] = loop.time()
                ev.set_result(None)
        forced = loop.call_later(horizon, stop)
        loop.act("stop", stop, enabled=lambda: st["stop"] is None)
        await ev
        forced.cancel()
        for a in list(loop.actions):
            if a.name == "stop":
                loop.actions.remove(a)
        await st["stop"]
        if st["stop"].exception() or st["stop"].result() is not None:
            raise Violation("stop gave %r" % st["stop"])
        at, now = st["stopped_at"], loop.time()
        mine = w.runs[w.base:]
        for r in mine:
            if r[2] is None:
                raise Violation("a run is still in progress when stop returns", "stop-early")
            if r[1] > at + EPS:
                raise Violation("a run began after the stop", "run-after-stop")
        clean = 0
        for r in mine:
            if r[2] > at + EPS:
                if r[3] != "cancelled":
                    raise Violation("the run in progress was not cancelled", "not-cancelled")
                clean = max(clean, r[2] - at)
        if now - at > clean + EPS:
            raise Violation("stopping took %g" % (now - at), "stop-slow")
        check_runs(mine, begin, at)
        ad.stopped()
        n = len(w.runs)
        left = [t for t in loop._mc_tasks
                if not t.done() and t not in (st["main"], st["stop"])]
        if left:
            raise Violation("tasks left: %r" % (left,), "left")
        return n

    async def main():
        st["main"] = asyncio.current_task()
        svc = ad.make()
        svc.set_loop(loop)
        for i in range(rounds):
            n = await one(svc)
            if i == rounds - 1:
                await asyncio.sleep(3 * (ad.interval + ad.delay) + 1)
                if len(w.runs) != n:
                    raise Violation("a stopped service works on", "run-after-stop")
                ad.stopped()
        return tuple((round(r[1], 3), r[3]) for r in w.runs)

    try:
        r = run_loop(loop, main())
        if ch.failures:
            raise ch.failures[0]
        return r
    except Stuck as e:
        raise Violation("%s runs=%r" % (e, w.runs), "stuck")
    finally:
        ad.close()


def sc_cron(ch, jobs, horizon, rounds):
    """jobs: [(behaviours, spec seconds, shield)]"""
    loop = VLoop(ch)
    start = 1714910400.0       # a whole minute
    clock = WallClock(loop, start + 0.25 - loop.time())
    del ERRORS.records[:]
    ws = [Runs(ch, loop, b) for b, _, _ in jobs]
    st = {"stop": None}

    async def main():
        st["main"] = asyncio.current_task()
        svc = CronService()
        svc.set_loop(loop)
        for bad in (lambda: None, 5, None):
            try:
                svc.register(bad, "* * * * *")
            except TypeError:
                pass
            else:
                raise Violation("registered %r" % (bad,), "cron-bad")
        for i, (b, every, shield) in enumerate(jobs):
            async def f(w=ws[i]):
                await w.job()
            try:
                svc.register(f, "nonsense")
            except TypeError:
                pass
            else:
                raise Violation("registered a bad spec", "cron-bad")
            svc.register(f, "* * * * * */%d" % every, shield=shield,
                         suppress_exceptions=(Boom,) if i else ())
        for n in range(rounds):
            for w in ws:
                w.base = len(w.runs)
            begin = clock.now() - start
            await svc.start()
            ev = loop.create_future()
            st["stop"] = None

            def stop():
                if st["stop"] is None:
                    st["stop"] = loop.create_task(svc.stop(None))
                    st["at"] = loop.time()
                    ev.set_result(None)
            forced = loop.call_later(horizon, stop)
            loop.act("stop", stop, enabled=lambda: st["stop"] is None)
            await ev
            forced.cancel()
            for a in list(loop.actions):
                loop.actions.remove(a)
            await st["stop"]
            at, now = st["at"], loop.time()
            for i, w in enumerate(ws):
                b, every, shield = jobs[i]
                for r in w.runs[w.base:]:
                    if r[1] > at + EPS:
                        raise Violation("a run of %d began after the stop" % i, "run-after-stop")
                    if r[2] is None and not shield:
                        raise Violation("run of %d goes on after stop" % i, "stop-early")
                for r in w.runs[w.base:]:
                    if shield and r[3] == "cancelled" and not r[1] > at - EPS:
                        raise Violation("a shielded run of %d was cancelled" % i, "shielded")
                    if not shield and r[3] != "cancelled" and r[2] > at + EPS:
                        raise Violation("the run of %d was not cancelled" % i, "not-cancelled")
                # every moment is served, except those which came while a run was in progress
                t = begin
                off = start - clock.offset
                for k, r in enumerate(w.runs[w.base:]):
                    due = (int(t + 1e-4) // every + 1) * every
                    if abs(r[1] - off - due) > 1e-3:
                        raise Violation("run %d of %d at %g instead of %g" % (
                            k, i, r[1] - off, due), "cron-time")
                    t = r[1] - off + (BEH[b[(w.base + k) % len(b)]][0])
                due = (int(t + 1e-4) // every + 1) * every
                if due < at - off - 1e-3:
                    raise Violation("the moment %g was missed by %d" % (due, i), "cron-missed")
            lim = max([0] + [r[2] - at for i, w in enumerate(ws) if not jobs[i][2]
                             for r in w.runs[w.base:]])
            if now - at > lim + EPS:
                raise Violation("stopping took %g" % (now - at), "stop-slow")
            # shielded runs end by themselves
            await asyncio.sleep(8)
        counts = [len(w.runs) for w in ws]
        # suppressed errors (those of the second job) are not logged, others are once
        failed = [sum(1 for r in w.runs if r[3] == "done") for w, (b, _, _) in zip(ws, jobs)
                  if b[0].startswith("raise")] if len(jobs[0][0]) == 1 else None
        if failed is not None:
            want = failed[0] if jobs[0][0][0].startswith("raise") else 0
            if len(ERRORS.records) != want:
                raise Violation("%d errors were logged instead of %d" % (
                    len(ERRORS.records), want), "cron-log")
        await asyncio.sleep(40)
        if counts != [len(w.runs) for w in ws]:
            raise Violation("a stopped service works on", "run-after-stop")
        for i, w in enumerate(ws):
            if w.active():
                raise Violation("run of %d never ended" % i)
        left = [t for t in loop._mc_tasks
                if not t.done() and t not in (st["main"], st["stop"])]
        if left:
            raise Violation("tasks left: %r" % (left,), "left")
        return tuple(counts)

    try:
        with clock:
            r = run_loop(loop, main())
        if ch.failures:
            raise ch.failures[0]
        return r
    except Stuck as e:
        raise Violation("%s" % e, "stuck")


def sc_illegal(ch):
    """An interval which makes no sense does not start a service."""
    for iv in (0, -1, -0.5, None):
        loop = VLoop(ch)
        w = Runs(ch, loop, ["ok"])

        async def main():
            svc = Periodic(w, interval=iv).make()
            svc.set_loop(loop)
            try:
                await svc.start()
            except Exception:
                pass
            else:
                raise Violation("started with interval %r" % (iv,), "illegal")
            await asyncio.sleep(5)
            if w.runs:
                raise Violation("job runs with interval %r" % (iv,), "illegal")
        run_loop(loop, main())
    return "refused"


def units(tier):
    deep = tier == "thorough"
    out = []
    B = list(BEH)

    def add(name, make, beh, horizon, rounds=1, bound=1, exc=None):
        out.append(Unit("%s %s rounds=%d" % (name, "+".join(beh), rounds),
                        lambda ch: scenario(ch, make, beh, horizon, rounds, exc),
                        bound=bound, cap=40000, weight=len(beh) + rounds))

    b = 3 if deep else 2
    for n in (1, 2, 3):
        for beh in itertools.product(B, repeat=n):
            if n == 3 and not deep and len(set(beh)) < 3:
                continue
            for iv, d in ((3, 0), (0.5, 1), (2, 0.5)) if n < 3 or deep else ((3, 0),):
                add("periodic interval=%g delay=%g" % (iv, d),
                    lambda w, iv=iv, d=d: Periodic(w, iv, d), beh, 9 if iv > 1 else 4, bound=b - (n > 2))
            if n < 3:
                add("periodic restart", lambda w: Periodic(w, 1, 0.5), beh, 4, rounds=2,
                    bound=b - 1, exc=Boom())
                if CarbonSender:
                    add("carbon", lambda w: Carbon(w), beh, 16, bound=b - 1)
    if CarbonSender:
        for beh in B:
            add("carbon restart", lambda w: Carbon(w, 2), (beh,), 5, rounds=2)
    for iv in (1, 3):
        for rounds in (1, 2, 3) if deep else (1, 2):
            add("tracer interval=%d" % iv, lambda w, iv=iv: Tracer(w, iv), ("ok",), 2.5 * iv,
                rounds, bound=b)
            for path in (None, "file", "bad"):
                add("profiler interval=%d path=%s" % (iv, path),
                    lambda w, iv=iv, path=path: Prof(w, iv, path), ("ok",), 2.5 * iv, rounds, bound=b)
    for beh in itertools.product(B, repeat=2 if deep else 1):
        for sh in (False, True):
            for every in (1, 5):
                out.append(Unit("cron %s every=%d shield=%s" % ("+".join(beh), every, sh),
                                lambda ch, beh=beh, every=every, sh=sh: sc_cron(
                                    ch, [(beh, every, sh)], 7, 1), bound=b - 1, cap=40000))
                for b2, sh2 in itertools.product(("raise.4", "long"), (False, True)):
                    if not deep and (every == 1) != (sh == sh2):
                        continue
                    out.append(Unit("cron %s every=%d shield=%s & %s shield=%s" % (
                        "+".join(beh), every, sh, b2, sh2),
                        lambda ch, beh=beh, every=every, sh=sh, b2=b2, sh2=sh2: sc_cron(
                            ch, [(beh, every, sh), ((b2,), 4, sh2)], 5 if every > 1 else 3, 2), bound=b - 2, cap=40000))
    for b1, b2, every in itertools.product(("ok", "raise.4", "long"), ("ok", "long"), (1, 4)):
        out.append(Unit("cron same moments %s & %s every=%d" % (b1, b2, every),
                        lambda ch, b1=b1, b2=b2, every=every: sc_cron(
                            ch, [((b1,), every, False), ((b2,), every, True)], 5, 1),
                        bound=b - 2, cap=40000))
    out.append(Unit("illegal intervals", sc_illegal, 0))
    return out
