"""C06: circuit breaker against an executable reference machine."""
import asyncio
import itertools
import random as _random

_REAL = _random.random
LOTTERY = {"fn": _REAL}


def _lottery():
    return LOTTERY["fn"]()


_random.random = _lottery          # before aiomisc binds the name
import aiomisc.circuit_breaker as cbm  # noqa: E402
_random.random = _lottery
if getattr(cbm, "random", None) is _REAL:
    cbm.random = _lottery

from aiomisc import CircuitBreaker, CircuitBroken, cutout  # noqa: E402
from mc.core import Violation  # noqa: E402
from mc.run import Unit  # noqa: E402

PROPERTY = "C06"
ASSUMPTIONS = [
    "integral response_time; instants are multiples of a quarter of a bucket (exact floats)",
    "the admission lottery is an independent draw from [0, 1), replaced by the explorer",
]


class Listed(Exception):
    pass


class SubListed(Listed):
    pass


class Ignored(Listed):
    pass


class Unlisted(Exception):
    pass


class InspBoom(Listed):
    pass


class Clock(asyncio.BaseEventLoop):
    vtime = 1000.0

    def time(self):
        return self.vtime

    def _process_events(self, e):
        pass


PASSING, BROKEN, RECOVERING = "PASSING", "BROKEN", "RECOVERING"


class Reference:
    """The documented machine."""

    def __init__(self, ratio, rt, broken, passing, recovery, inspector):
        self.ratio, self.rt = ratio, rt
        self.broken, self.passing, self.recovery = broken, passing, recovery
        self.inspector = inspector
        self.state = PASSING
        self.hold = 0
        self.rec_at = None
        self.buckets = []          # [index, fails, total], at most 10
        self.last = None

    def idx(self, t):
        return int(t // (self.rt / 10))

    def share(self, t):
        """share of the recent buckets whose failure ratio reaches the limit"""
        recent = [b for b in self.buckets if b[0] >= self.idx(t) - 10]
        if not recent:
            return 0
        bad = [b for b in recent if b[2] and b[1] / b[2] >= self.ratio]
        return len(bad) / len(recent)

    def begin(self, t, draw):
        """-> (admitted, bucket)"""
        if not self.buckets or self.buckets[-1][0] != self.idx(t):
            self.buckets.append([self.idx(t), 0, 0])
            del self.buckets[:-10]
        bucket = self.buckets[-1]
        if t >= self.hold:
            if self.state == BROKEN:
                self.state, self.rec_at = RECOVERING, t
            elif self.state == PASSING:
                if len(self.buckets) == 10 and self.share(t) >= 1:
                    self.open(t)
            elif self.share(t) >= 0.5 * self.ratio:
                self.open(t)
            elif t - self.rec_at >= self.recovery:
                self.state, self.hold = PASSING, t + self.passing
        if self.state == PASSING:
            return True, bucket
        if self.state == BROKEN:
            return False, bucket
        limit = 2 ** ((t - self.rec_at) / self.recovery) - 1
        if limit >= 1:
            draw(0.999)
            return True, bucket
        if limit <= 0:
            draw(0.0)
            return False, bucket
        return draw() < limit, bucket

    def open(self, t):
        self.state, self.hold = BROKEN, t + self.broken
        self.buckets = []

    def end(self, bucket, what, exc):
        bucket[2] += 1
        if what == "O":
            self.last = None
        elif what in "FSIB":
            self.last = exc
            if not (self.inspector and what == "I"):
                bucket[1] += 1


EXC = {"F": Listed, "S": SubListed, "U": Unlisted, "I": Ignored, "B": InspBoom}
VALUE = object()


class Machine:
    def __init__(self, ch, cfg):
        self.ch = ch
        self.cfg = cfg
        self.calls = 0
        self.draw = self.exc = None
        self.log = []
        kw = {}
        for k in ("broken_time", "passing_time", "recovery_time"):
            if cfg.get(k):
                kw[k] = cfg[k]
        if cfg.get("inspector"):
            kw["exception_inspector"] = self.inspect
        self.kw = kw
        rt = cfg["rt"]
        self.mode = cfg["mode"]
        self.ref = Reference(cfg["ratio"], rt, cfg.get("broken_time", rt),
                             cfg.get("passing_time", rt), cfg.get("recovery_time", rt),
                             bool(cfg.get("inspector")))
        self.cb = CircuitBreaker(cfg["ratio"], rt, exceptions=[Listed], **kw)
        self.open_calls = []

    @staticmethod
    def inspect(e):
        if isinstance(e, InspBoom):
            raise RuntimeError("inspector failed")
        return not isinstance(e, Ignored)

    def lottery(self, force=None):
        if self.draw is None:
            self.draw = force
        if self.draw is None:
            self.draw = self.ch.pick([0.0, 0.5, 0.999], "lottery")
        return self.draw

    def bad(self, msg, key):
        raise Violation("%s; config %r, history %r" % (msg, self.cfg, self.log), key)

    def func(self, what):
        self.calls += 1
        if what == "O":
            return VALUE
        self.exc = EXC[what](what)
        raise self.exc

    async def afunc(self, what):
        return self.func(what)

    def call(self, what):
        cb = self.cb
        if self.mode == "sync":
            return cb.call(self.func, what)
        if self.mode == "context":
            with cb.context():
                return self.func(what)
        f = self.afunc if self.mode == "async" else self.func
        coro = cb.call_async(f, what)
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        raise Violation("call_async suspended", "suspend")

    def op(self, dt, what):
        CLOCK.vtime += dt
        t = CLOCK.vtime
        self.log.append((dt, what))
        self.draw = None
        last = self.ref.last
        admitted, bucket = self.ref.begin(t, self.lottery)
        before = self.calls
        self.exc = None
        try:
            r = ("ok", self.call(what))
        except CircuitBroken as e:
            r = ("broken", e)
        except Violation:
            raise
        except Exception as e:
            r = ("exc", e)
        self.check(t)
        if not admitted:
            if r[0] != "broken" or self.calls != before:
                self.bad("call was not refused (%r, executed %d times)" % (
                    r, self.calls - before), "not-refused")
            if r[1].last_exception is not last:
                self.bad("refused with last_exception %r instead of %r" % (
                    r[1].last_exception, last), "last-exception")
            return "refused"
        if self.calls - before != 1:
            self.bad("admitted call executed %d times (%r)" % (self.calls - before, r), "executed")
        if what == "O":
            if r != ("ok", VALUE):
                self.bad("result changed: %r" % (r,), "result")
        elif r[0] != "exc" or r[1] is not self.exc:
            self.bad("exception changed: %r" % (r,), "exception")
        self.ref.end(bucket, what, self.exc)
        return "called"

    def begin(self, dt):
        """an admitted call which stays in progress"""
        CLOCK.vtime += dt
        self.log.append((dt, "begin"))
        self.draw = None
        admitted, bucket = self.ref.begin(CLOCK.vtime, self.lottery)
        gate = []

        class Wait:
            def __await__(s):
                yield
                return None

        async def f():
            self.calls += 1
            await Wait()
            what = gate[0]
            if what == "O":
                return VALUE
            self.exc = EXC[what](what)
            raise self.exc
        coro = self.cb.call_async(f)
        try:
            coro.send(None)
        except CircuitBroken:
            if admitted:
                self.bad("overlapping call refused", "refused")
        else:
            if not admitted:
                self.bad("overlapping call was not refused", "not-refused")
            self.open_calls.append((coro, gate, bucket))
        self.check(CLOCK.vtime)

    def end(self, dt, what):
        CLOCK.vtime += dt
        self.log.append((dt, "end" + what))
        coro, gate, bucket = self.open_calls.pop(0)
        gate.append(what)
        try:
            coro.send(None)
        except StopIteration as e:
            if what != "O" or e.value is not VALUE:
                self.bad("result changed", "result")
        except Exception as e:
            if what == "O" or e is not self.exc:
                self.bad("exception changed", "exception")
        else:
            self.bad("still suspended", "suspend")
        self.ref.end(bucket, what, self.exc)
        self.check(CLOCK.vtime)

    def check(self, t):
        if self.cb.state.name != self.ref.state:
            self.bad("state is %s, expected %s" % (self.cb.state.name, self.ref.state), "state")
        if abs(self.cb.get_state_delay() - max(0, self.ref.hold - t)) > 1e-6:
            self.bad("state delay is %r, expected %r" % (
                self.cb.get_state_delay(), max(0, self.ref.hold - t)), "delay")
        self.ch.observe(self.ref.state, self.calls)

    def finish(self):
        for coro, _, _ in self.open_calls:
            coro.close()


CLOCK = Clock()


def run_history(ch, cfg, prefix, alphabet, depth):
    CLOCK.vtime = 1000.0
    asyncio._set_running_loop(CLOCK)
    m = Machine(ch, cfg)
    LOTTERY["fn"] = m.lottery
    try:
        for dt, what in prefix:
            # the prefix prepares a state: the lottery is won
            m.ch = _Fixed
            m.op(dt, what)
        m.ch = ch
        trace = []
        for _ in range(depth):
            dt, what = ch.pick(alphabet, "op")
            if what == "begin":
                m.begin(dt)
            elif what.startswith("end"):
                if m.open_calls:
                    m.end(dt, what[3:])
            else:
                trace.append(m.op(dt, what))
        m.finish()
        return (m.ref.state, m.calls, tuple(trace))
    finally:
        LOTTERY["fn"] = _REAL
        asyncio._set_running_loop(None)


class _FixedChooser:
    def pick(self, seq, label=None, cost=0):
        return seq[0]

    def observe(self, *a):
        pass


_Fixed = _FixedChooser()


def sc_cutout(ch):
    """the decorator form: same machine, sync and async functions"""
    CLOCK.vtime = 1000.0
    asyncio._set_running_loop(CLOCK)
    kind = ch.pick(["sync", "async"], "kind")
    fails = ch.pick([True, False], "fails")
    count = [0]
    try:
        def body(x, y=1):
            count[0] += 1
            if (x, y) != (5, 6):
                raise Violation("arguments", "args")
            if fails:
                raise Listed("x")
            return VALUE
        if kind == "sync":
            @cutout(0.5, 10, Listed, broken_time=4)
            def f(x, y=1):
                return body(x, y)
            do = lambda: f(5, y=6)     # noqa: E731
        else:
            @cutout(0.5, 10, Listed, broken_time=4)
            async def f(x, y=1):
                return body(x, y)

            def do():
                c = f(5, y=6)
                try:
                    c.send(None)
                except StopIteration as e:
                    return e.value
        outs = []
        for i in range(14):
            CLOCK.vtime += 1 if i < 10 else 0.25
            before = count[0]
            try:
                r = do()
                outs.append("ok")
                if r is not VALUE:
                    raise Violation("value", "result")
            except Listed:
                outs.append("exc")
            except CircuitBroken:
                outs.append("broken")
                if count[0] != before:
                    raise Violation("refused call executed", "not-refused")
        want = ["exc"] * 10 + ["broken"] * 4 if fails else ["ok"] * 14
        if outs != want:
            raise Violation("cutout history %r" % outs, "cutout")
        return tuple(outs)
    finally:
        asyncio._set_running_loop(None)


def units(tier):
    deep = tier == "thorough"
    out = []
    F10 = [(1, "F")] * 10
    OPEN = F10 + [(0, "F")]
    prefixes = {
        "start": [],
        "8F": [(1, "F")] * 8,
        "9F": [(1, "F")] * 9,
        "10F": F10,
        "5O5F": [(1, "O")] * 5 + [(1, "F")] * 5,
        "9F-pairs": [x for _ in range(9) for x in ((1, "F"), (0, "O"))] + [(1, "F")],
        "old": [(10, "O")] * 10,
        "open": OPEN,
        "recovering": OPEN + [(10, "O")],
        "recovering-ok": OPEN + [(10, "O"), (3, "O"), (1, "O"), (1, "O")],
        "recovering-mixed": OPEN + [(10, "O"), (4, "O"), (1, "O"), (1, "F")],
        "closed-again": OPEN + [(10, "O"), (5, "O"), (5, "O")],
        "reopened": OPEN + [(10, "O"), (5, "F"), (1, "F")],
        "twice": OPEN + [(10, "O"), (5, "F"), (1, "F"), (10, "F")],
    }
    cfgs = {
        "base": dict(ratio=0.5, rt=10),
        "times": dict(ratio=0.3, rt=10, broken_time=3, recovery_time=6, passing_time=2,
                      inspector=True),
        "low": dict(ratio=0.1, rt=10, broken_time=12, recovery_time=2, passing_time=25),
        "rt5": dict(ratio=0.8, rt=5, broken_time=1, recovery_time=20, inspector=True),
        "one": dict(ratio=1.0, rt=20, passing_time=5),
        "rec": dict(ratio=0.5, rt=10, recovery_time=4),
        "brk": dict(ratio=0.5, rt=10, broken_time=4),
    }
    modes = ["sync", "async", "context", "async-plain"]
    dts = (0, 1, 2.5, 10)
    n = 0
    for cname, cfg in cfgs.items():
        kinds = ["F", "O", "U"] + (["I", "B"] if cfg.get("inspector") else [])
        for pname, pre in prefixes.items():
            if not deep and cname in ("rec", "brk") and pname not in (
                    "open", "recovering", "closed-again", "reopened"):
                continue
            scale = cfg["rt"] / 10
            pre = [(d * scale, w) for d, w in pre]
            mode = modes[n % 4]
            n += 1
            c = dict(cfg, mode=mode)
            alpha = [(d * scale, w) for d in dts for w in kinds if d != 2.5 or w == "O"] + [
                (0.25 * scale, "S"), (4 * scale, "O")]
            if not deep and cname != "base":
                alpha = alpha[n % 3::3] + [(1 * scale, "F"), (0, "F"), (1 * scale, "O")]
            d = 4 if deep else 3

            def run(ch, c=c, pre=pre, alpha=alpha, d=d):
                return run_history(ch, c, pre, alpha, d)
            out.append(Unit("%s/%s/%s" % (cname, pname, mode), run, 0, weight=len(alpha) ** d))
            alpha2 = [(0, "begin"), (1 * scale, "begin"), (0, "endF"), (1 * scale, "endO"),
                      (3 * scale, "endF"), (0, "F"), (1 * scale, "F"), (2.5 * scale, "O")]

            d2 = 4 if pname in ("start", "9F", "10F", "open") or deep else 3

            def run2(ch, c=c, pre=pre, alpha2=alpha2, d2=d2):
                return run_history(ch, dict(c, mode="sync"), pre, alpha2, d2)
            if deep or cname == "base":
                out.append(Unit("overlap/%s/%s" % (cname, pname), run2, 0, weight=8 ** 4))
    # long histories of whole buckets
    for k, (cname, cfg) in enumerate(cfgs.items()):
        scale = cfg["rt"] / 10
        for mode in (modes if deep else modes[k % 4:k % 4 + 1]):
            alpha = [(1 * scale, "F"), (0, "O")]

            def run(ch, cfg=cfg, alpha=alpha, mode=mode):
                return run_history(ch, dict(cfg, mode=mode), [], alpha, 15 if deep else 12)
            out.append(Unit("long/%s/%s" % (cname, mode), run, 0, weight=2 ** 13))
    out.append(Unit("cutout", sc_cutout, 0))
    return out
