"""C15: cron callbacks against a brute-force matcher under a virtual wall clock."""
import asyncio
import datetime as dt

from aiomisc.cron import CronCallback
from aiomisc.service.cron import CronService
from checks.wallclock import WallClock
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C15"
ASSUMPTIONS = [
    "wall clock and loop clock advance together (no clock adjustments)",
    "croniter's calendar arithmetic is only relied on as exercised by the listed specifications",
]
EPS = 1e-4


class Boom(Exception):
    pass


class Listed(Exception):
    pass


def expand(field, lo, hi):
    out = set()
    for part in field.split(","):
        rng, _, step = part.partition("/")
        if rng == "*":
            a, b = lo, hi
        elif "-" in rng:
            a, b = map(int, rng.split("-"))
        else:
            a = b = int(rng)
            if step:
                b = hi
        out.update(range(a, b + 1, int(step or 1)))
    return out


CACHE = {}


class Spec:
    def __init__(self, text):
        self.text = text
        self.cache = CACHE.setdefault(text, {})
        f = text.split()
        self.minutes = expand(f[0], 0, 59)
        self.hours = expand(f[1], 0, 23)
        self.days = expand(f[2], 1, 31)
        self.months = expand(f[3], 1, 12)
        self.dows = {d % 7 for d in expand(f[4], 0, 7)}
        self.seconds = sorted(expand(f[5], 0, 59)) if len(f) > 5 else [0]

    def day_ok(self, d):
        return (d.day in self.days and d.month in self.months and
                (d.isoweekday() % 7) in self.dows)

    def next(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._next(t)
        return r

    def _next(self, t):
        """first matching moment strictly later than t (UTC seconds)"""
        cur = dt.datetime.fromtimestamp(t, dt.timezone.utc)
        cur = cur.replace(microsecond=0)
        start = cur
        day = cur.date()
        for n in range(1600):
            if self.day_ok(day):
                for h in sorted(self.hours):
                    if n == 0 and h < start.hour:
                        continue
                    for m in sorted(self.minutes):
                        if n == 0 and (h, m) < (start.hour, start.minute):
                            continue
                        base = dt.datetime(day.year, day.month, day.day, h, m,
                                           tzinfo=dt.timezone.utc)
                        for s in self.seconds:
                            x = base.timestamp() + s
                            if x > t + EPS:
                                return x
            day += dt.timedelta(days=1)
        raise AssertionError


# spec, reference points (UTC) around which the starts are placed
D = dt.datetime
U = dt.timezone.utc
SPECS = [
    ("* * * * *", [D(2024, 2, 28, 23, 58, 0), D(2024, 5, 5, 12, 0, 0)]),
    ("*/5 * * * *", [D(2024, 12, 31, 23, 55, 0), D(2024, 5, 5, 12, 3, 0)]),
    ("* * * * * *", [D(2024, 5, 5, 12, 0, 58)]),
    ("* * * * * */10", [D(2024, 5, 5, 12, 0, 50)]),
    ("* * * * * 5,20,50", [D(2024, 5, 5, 12, 0, 20), D(2024, 5, 5, 23, 59, 50)]),
    ("* * * * * 10-13", [D(2024, 5, 5, 12, 0, 11)]),
    ("30 * * * *", [D(2024, 5, 5, 12, 30, 0), D(2024, 2, 29, 23, 30, 0)]),
    ("0 0 1 * *", [D(2024, 2, 1, 0, 0, 0), D(2023, 12, 31, 23, 59, 59)]),
    ("0 12 * * 1-5", [D(2024, 5, 3, 12, 0, 0), D(2024, 5, 5, 12, 0, 0)]),
    ("15,45 6-8/2 * * *", [D(2024, 5, 5, 6, 45, 0), D(2024, 5, 5, 8, 45, 0)]),
    ("0 3 29 2 *", [D(2023, 2, 28, 3, 0, 0)]),
]
OFFSETS = (0.0, -0.5, 0.5, 0.01, -0.01, 1.0, 29.75)


def scenario(ch, spec, base, offset, depth, via):
    loop = VLoop(ch)
    ref = Spec(spec)
    start = base.replace(tzinfo=U).timestamp() + offset
    clock = WallClock(loop, start - loop.time())
    runs = []
    done = loop.create_future()

    async def func():
        now = clock.now()
        if runs and runs[-1][1] is None:
            ch.fail("overlapping runs", "overlap")
        r = [now, None]
        runs.append(r)
        n = len(runs)
        ch.observe("run", round(now, 3))
        if n > depth:
            if not done.done():
                done.set_result(None)
            r[1] = now
            return
        gap = ref.next(now) - now
        second = ref.next(ref.next(now)) - ref.next(now)
        d, exc = ch.pick([(0, None), (0, Boom), (gap / 2, None), (gap / 2, Listed),
                          (gap, None), (gap + second / 2, None), (gap + second + 0.25, Boom),
                          (0.0, asyncio.CancelledError)], "run")
        if d:
            await asyncio.sleep(d)
        r[1] = clock.now()
        if exc:
            raise exc("x")

    async def main():
        if via == "service":
            svc = CronService(loop=loop)
            svc.register(func, spec, suppress_exceptions=(Listed,))
            await svc.start()
            await done
            await svc.stop()
        else:
            cb = CronCallback(func)
            cb.start(spec, loop, suppress_exceptions=(Listed,), shield=via == "shield")
            await done
            try:
                await cb.stop()
            except asyncio.CancelledError:
                pass

    with clock:
        try:
            run_loop(loop, main())
        except Stuck as e:
            raise Violation("cron series stuck: %s; runs %r" % (e, runs), "stuck")
    t = start
    for n, (b, e) in enumerate(runs):
        want = ref.next(t)
        if abs(b - want) > 2 * EPS:
            raise Violation("%r started at %r: run %d began at %s, expected %s; runs %r" % (
                spec, start, n, dt.datetime.fromtimestamp(b, U),
                dt.datetime.fromtimestamp(want, U), runs), "moment")
        t = e
    return tuple(round(b - start, 3) for b, _ in runs)


def sc_many(ch):
    """several callbacks of one service keep their own schedules"""
    loop = VLoop(ch)
    start = D(2024, 5, 5, 12, 0, 57, tzinfo=U).timestamp() + ch.pick([0, 0.4], "offset")
    clock = WallClock(loop, start - loop.time())
    specs = ["* * * * * */2", "* * * * * 59,1", "* * * * *"]
    times = {s: [] for s in specs}

    async def main():
        svc = CronService(loop=loop)
        for s in specs:
            async def f(s=s):
                times[s].append(clock.now())
                d, e = ch.pick([(0, None), (0.7, None), (0, Boom)], "run") \
                    if len(times[s]) < 3 else (0, None)
                if d:
                    await asyncio.sleep(d)
                if e:
                    raise e("x")
            svc.register(f, s)
        await svc.start()
        await asyncio.sleep(8.5)
        await svc.stop()
        n = {s: len(v) for s, v in times.items()}
        await asyncio.sleep(125)
        if n != {s: len(v) for s, v in times.items()}:
            raise Violation("a run began after stop", "after-stop")
    with clock:
        try:
            run_loop(loop, main())
        except Stuck as e:
            raise Violation("stuck: %s" % e, "stuck")
    for s in specs:
        ref = Spec(s)
        t, want = start, []
        while True:
            t = ref.next(t)
            if t > start + 8.5:
                break
            want.append(t)
        if [round(x, 2) for x in times[s]] != [round(x, 2) for x in want]:
            raise Violation("%r ran at %r, expected %r" % (s, times[s], want), "moment")
    return tuple(len(v) for v in times.values())


def units(tier):
    deep = tier == "thorough"
    out = []
    for spec, bases in SPECS:
        for via in ("callback", "service", "shield"):
            if via != "callback" and not deep and spec not in ("* * * * *", "* * * * * */10"):
                continue
            for base in bases:
                def run(ch, spec=spec, base=base, via=via):
                    off = ch.pick(OFFSETS, "offset")
                    return scenario(ch, spec, base, off, 4 if deep else 3, via)
                out.append(Unit("%s/%s/%s" % (via, spec, base.isoformat()), run, 0))
    out.append(Unit("many", sc_many, 0))
    return out
