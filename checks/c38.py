"""C38: services which run a function in a process of its own.

The service classes are real; processes, their events and signals are a model.
What the service has its process do is run for real, on a parked thread: the
model decides when it boots, when the function of the service comes back and how.
Functions given to the executor run on real threads which are parked whenever
they wait for the model (one thread runs at a time).
"""
import asyncio
import inspect
import logging
import multiprocessing
import os
import signal
import threading

from aiomisc._context_vars import EVENT_LOOP
from aiomisc.service import process as mod
from aiomisc_log import LOG_FORMAT, LOG_LEVEL
import aiomisc_log
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C38"
ASSUMPTIONS = [
    "a process ends on SIGINT, ignores it or ends when it wants; SIGKILL always ends it",
    "waiting functions block only on the process, its events or locks of the module",
]
DELAYS = (0, 0.15, 1.05) if os.environ.get("VERIF_TIER") == "thorough" else (0, 0.15)
BASE = 1 << 24                   # no real process has such a pid
EPS = 0.3
WORLD = None
_real_kill = os.kill


def _kill(pid, sig):
    if abs(pid) < BASE and WORLD is None:
        return _real_kill(pid, sig)
    if WORLD is None:
        raise ProcessLookupError(3, "gone")
    return WORLD.kill(pid, sig)


os.kill = _kill


class Abandoned(BaseException):
    pass


class Job:
    """A function of the executor on a thread which runs only when told to."""

    process = None

    def __init__(self, world, func, args, kwargs={}):
        self.world, self.func, self.args, self.kwargs = world, func, args, kwargs
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.ready, self.deadline = None, None
        self.done, self.result, self.error = False, None, None
        self.abandoned = False
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        try:
            if not self.abandoned:
                self.result = self.func(*self.args, **self.kwargs)
        except Abandoned:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.back.release()

    def resume(self):
        if self.thread.ident is None:
            self.thread.start()
        w = self.world
        before, w.job = w.job, self
        try:
            self.go.release()
            if not self.back.acquire(timeout=60):
                raise RuntimeError("a function of the executor blocks outside of the model")
        finally:
            w.job = before

    def park(self, ready, timeout):
        w = self.world
        self.ready = ready
        self.deadline = None if timeout is None else w.loop.vtime + max(timeout, 0)
        self.back.release()
        self.go.acquire()
        self.ready = None
        if self.abandoned:
            raise Abandoned

    def runnable(self):
        return self.ready is None or self.ready() or \
            (self.deadline is not None and self.world.loop.vtime >= self.deadline - 1e-9)


class World:
    def __init__(self, ch, kinds):
        self.ch = ch
        self.kinds = list(kinds)          # behaviour of the successive processes
        self.processes = []
        self.jobs = []
        self.bodies = []                  # what runs in the processes
        self.configured = []
        self.job = None
        self.closed_at = None
        self.refusals = 0

    def block(self, ready, timeout, what):
        if ready():
            return
        if self.job is not None:
            return self.job.park(ready, timeout)
        if timeout is None or timeout > 0:
            raise Violation("the event loop is blocked by waiting for %s" % what, "blocked")

    def ev(self, *e):
        self.ch.observe(round(self.loop.vtime - 1000, 3), *e)

    def kill(self, pid, sig):
        for p in self.processes:
            if p.pid == pid:
                return p.signal(sig)
        self.ch.fail("signal %d for %d, which is no process of the service" % (sig, pid), "kill")

    def alive(self):
        return [p for p in self.processes if p.state not in ("dead",)]


class Loop(VLoop):
    def run_in_executor(self, executor, func, *args):
        w = self.world
        fut = self.create_future()
        job = Job(w, func, args)
        w.jobs.append(job)
        n = len(w.jobs)

        def step():
            if not job.done:
                if job.thread.ident is None and fut.cancelled():
                    job.done = True
                    return
                job.resume()
                if not job.done:
                    if job.deadline is not None and not job.ready():
                        self.call_at(job.deadline, lambda: None)
                    self.act("exec%d" % n, step, enabled=job.runnable, urgent=True)
                    return
            if fut.cancelled():
                return
            e = job.error
            if e is not None:
                fut.set_exception(RuntimeError("stop") if isinstance(e, StopIteration) else e)
            else:
                fut.set_result(job.result)
        self.act("exec%d" % n, step, urgent=True)
        return fut


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        WORLD.block(self.is_set, timeout, "an event")
        return self.flag


class Lock:
    """Stands for locks of the module, if it has some."""

    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        if self.held:
            if not blocking:
                return False
            WORLD.block(lambda: not self.held, None if timeout < 0 else timeout, "a lock")
            if self.held:
                return False
        self.held = True
        return True

    def release(self):
        self.held = False

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self.target, self.args, self.kwargs, self.name = target, args, kwargs, name
        self.pid = None
        self.state = "new"
        self.code = None
        self.reaped = False
        self.interrupted = self.killed = self.died = self.launched = self.booted = None
        self.interrupts = 0
        self.inside, self.outcome, self.body = False, None, None

    ident = property(lambda self: self.pid)

    # --- the process itself
    def start(self):
        w = WORLD
        if self.state != "new":
            raise AssertionError("cannot start a process twice")
        kind = w.kinds.pop(0) if w.kinds else "serve"
        if kind == "refused":
            w.ev("refused")
            w.refusals += 1
            raise BlockingIOError(11, "Resource temporarily unavailable")
        others = w.alive()
        if others:
            w.ch.fail("a process is launched while %d others are running" % len(others), "two processes")
        if w.closed_at is not None:
            w.ch.fail("a process is launched after the service was stopped", "late launch")
        self.kind = kind
        w.processes.append(self)
        self.pid = BASE + len(w.processes)
        self.n = len(w.processes)
        self.state = "booting"
        self.launched = w.loop.vtime
        w.ev("launched", self.n, kind)
        if self.name != w.service.name:
            w.ch.fail("a process named %r" % self.name, "arguments")
        self.body = Job(w, self.target or self.run, self.args, self.kwargs)
        self.body.process = self
        w.bodies.append(self.body)
        if kind == "stillborn":
            self.later("stillborn", lambda: self.end(1), "booting")
        elif kind != "never":
            self.later("boot", self.boot, "booting")

    def later(self, name, fn, state):
        """fn at once (at any moment) or after a while, if it is still in that state."""
        def guarded():
            if self.state == state:
                fn()
        delay = WORLD.ch.pick(DELAYS, name)
        if delay:
            WORLD.loop.call_later(delay, guarded)
        else:
            WORLD.loop.act("%s%d" % (name, self.n), guarded, enabled=lambda: self.state == state, urgent=True)

    def run(self):
        pass

    def boot(self):
        w = WORLD
        self.state = "running"
        self.booted = w.loop.vtime
        self.body.resume()
        if not self.inside:
            w.ch.fail("the process is over without its function: %r" % self.body.error, "function")
        w.ev("running", self.n)
        if self.kind == "quick":
            self.later("finish", self.finish, "running")
        elif self.kind == "short":
            w.loop.call_later(0.7, self.finish)
        elif self.kind == "done":
            # the function is over by itself and the process is not
            w.loop.call_later(0.7, self.leave)
            w.loop.call_later(0.7 + 3 * POLL, self.finish)
        elif self.kind == "crash":
            self.later("crash", lambda: self.end(-11), "running")

    def function(self):
        """The function of the service: it is over when the model says so."""
        self.inside = True
        WORLD.job.park(lambda: self.outcome is not None, None)
        if self.outcome == "interrupted":
            raise KeyboardInterrupt

    def leave(self, how="over"):
        """The function comes back and the target finishes."""
        if self.state == "running" and self.outcome is None:
            self.outcome = how
            self.body.resume()

    def interrupt(self):
        self.leave("interrupted")

    def finish(self):
        if self.state in ("running", "booting"):
            self.leave("over" if self.interrupted is None else "interrupted")
            self.end(0)

    def end(self, code):
        if self.state == "dead":
            return
        self.state = "dead"
        self.died = WORLD.loop.vtime
        self.code = code
        WORLD.ev("dead", self.n, code)

    def signal(self, sig):
        w = WORLD
        if self.reaped:
            w.ch.fail("signal %d for the process %d, which is over and forgotten" % (sig, self.n), "reaped")
            raise ProcessLookupError(3, "No such process")
        w.ev("signal", self.n, int(sig))
        if sig == 0 or self.state == "dead":
            return
        if sig == signal.SIGKILL:
            self.killed = w.loop.vtime
            self.end(-9)
        elif sig == signal.SIGINT:
            self.interrupts += 1
            if self.interrupted is None:
                self.interrupted = w.loop.vtime
            if self.kind in ("stubborn", "never") or self.interrupts > 1:
                return
            if self.state == "booting":
                return self.end(1)
            if self.kind == "slow":
                w.loop.call_later(1.0, self.finish)
            elif self.kind == "late":
                w.loop.call_later(4.0, self.finish)
            elif self.kind in ("lingering", "exiting"):
                # the function is over but the process is not
                w.loop.act("leave%d" % self.n, self.interrupt, urgent=True)
                if self.kind == "exiting":
                    w.loop.call_later(4.0, self.finish)
            else:
                w.loop.act("leave%d" % self.n, self.finish, urgent=True)
        else:
            self.end(-sig)

    # --- what the parent may do
    @property
    def exitcode(self):
        self.poll()
        return self.code if self.reaped else None

    def poll(self):
        if self.state == "dead":
            self.reaped = True

    def is_alive(self):
        if self.pid is None:
            return False
        self.poll()
        return not self.reaped

    def join(self, timeout=None):
        if self.pid is None:
            raise AssertionError("can only join a started process")
        WORLD.block(lambda: self.state == "dead", timeout, "a process")
        self.poll()

    def kill(self):
        self.send(signal.SIGKILL)

    def terminate(self):
        self.send(signal.SIGTERM)

    def send(self, sig):
        self.poll()
        if not self.reaped:
            self.signal(sig)

    def close(self):
        pass


class Context:
    """multiprocessing.get_context()"""
    Process, Event, Lock, RLock = Process, Event, Lock, Lock

    def get_context(self, method=None):
        return self


CONTEXT = Context()
FAKES = {"Process": Process, "Event": Event, "Lock": Lock, "RLock": Lock, "get_context": CONTEXT.get_context}
REAL = {k: getattr(multiprocessing, k) for k in FAKES}
_real_config = aiomisc_log.basic_config


def basic_config(*a, **kw):
    WORLD.configured.append((WORLD.job, a, kw))
    if WORLD.kinds == ["unloggable"]:
        raise ValueError("logging")


def substitutes():
    """(object, name, stand-in) for everything by which the module may reach a process."""
    for k, v in FAKES.items():
        yield multiprocessing, k, v
    yield aiomisc_log, "basic_config", basic_config
    for k, v in list(vars(mod).items()):
        for name, real in REAL.items():
            if type(v) in (type(real), type) and v == real:
                yield mod, k, FAKES[name]
        if v is _real_config:
            yield mod, k, basic_config


SUBSTITUTES = list(substitutes())
assert not any(isinstance(v, multiprocessing.context.BaseContext) for v in vars(mod).values())


def within(f):
    def run(ch):
        global WORLD
        saved = [(o, k, getattr(o, k)) for o, k, _ in SUBSTITUTES]
        try:
            for o, k, v in SUBSTITUTES:
                setattr(o, k, v)
            return f(ch)
        finally:
            for o, k, v in saved:
                setattr(o, k, v)
            w = WORLD
            EVENT_LOOP.set(None)
            if w is not None:
                for j in w.jobs + w.bodies:
                    if not j.done and j.thread.ident is not None:
                        j.abandoned = True
                        j.go.release()
                        j.back.acquire(timeout=10)
            WORLD = None
    return run


STOP, POLL = 3, 5


def make(respawn):
    base = mod.RespawningProcessService if respawn else mod.ProcessService

    class S(base):
        name = "svc"
        process_stop_timeout = STOP
        process_poll_timeout = POLL

        def in_process(self, *args, **kwargs):
            w = WORLD
            p = w.job.process if w.job is not None else None
            if p is None or self is not w.service:
                w.ch.fail("the function of the service runs in the parent", "function")
            if p.inside:
                w.ch.fail("the function is called twice", "function")
            if args or kwargs != {"answer": 42}:
                w.ch.fail("called with %r, %r" % (args, kwargs), "arguments")
            if [c[0] for c in w.configured if c[0] is w.job] != [w.job]:
                w.ch.fail("the logging is set up %d times in the process" %
                          sum(c[0] is w.job for c in w.configured), "logging")
            return p.function()

        def get_process_kwargs(self):
            return {"answer": 42}
    return S


def scenario(ch, respawn, kinds, plan):
    global WORLD
    w = WORLD = World(ch, kinds)
    loop = w.loop = Loop(ch)
    loop.MAX_STEPS = 3000
    loop.world = w
    EVENT_LOOP.set(loop)

    async def main():
        svc = w.service = make(respawn)(loop=loop)
        state = {}
        starting = loop.create_task(svc.start())
        started = False

        async def stop(limit):
            before = loop.vtime
            try:
                await svc.stop()
            finally:
                took = loop.vtime - before
                if took > limit + EPS:
                    ch.fail("stop took %.1f seconds" % took, "slow stop")
            w.ev("stopped")

        limit = 2 * STOP + (2 * STOP if respawn else 0)
        if plan in ("cancel start", "stop during start"):
            if plan == "cancel start":
                if kinds[0] == "never":
                    loop.call_later(ch.pick((0.05, 0.1, 0.25), "when"), starting.cancel)
                loop.act("cancel", starting.cancel, enabled=lambda: not starting.done(), may=True)
                await asyncio.wait([starting])
            else:
                async def early():
                    if not w.processes:
                        return
                    state["early"] = True
                    await stop(limit)
                def begin():
                    if "t" not in state:
                        state["t"] = loop.create_task(early())
                if kinds[0] == "never":
                    loop.call_later(ch.pick((0.05, 0.1, 0.25), "when"), begin)
                loop.act("stop", begin, enabled=lambda: not starting.done(), may=True)
                await asyncio.wait([starting])
                if "t" in state:
                    await state["t"]
            if starting.cancelled() or state.get("early"):
                if not starting.cancelled():
                    starting.exception()
                w.closed_at = loop.vtime
                return await over()
        try:
            await starting
            started = True
        except Exception as e:
            w.ev("failed", type(e).__name__)
            if kinds[0] not in ("stillborn", "refused"):
                ch.fail("the start failed with %r" % e, "start")
            w.closed_at = loop.vtime
            return await over()
        if kinds[0] in ("stillborn", "refused"):
            ch.fail("started although the process never ran", "start")
        p = w.processes[0]
        if p.booted is None or len(w.processes) != 1:
            ch.fail("started with %d processes, running since %r" % (len(w.processes), p.booted), "start")
        if loop.vtime > p.booted + EPS:
            ch.fail("started %.1f seconds after the process" % (loop.vtime - p.booted), "start")
        if getattr(svc, "process", None) is not p:
            ch.fail("process is %r" % getattr(svc, "process", None), "attribute")
        if str(p.pid) not in repr(svc):
            ch.fail("repr %r" % svc, "repr")
        w.ev("started")
        if plan == "run":
            await asyncio.sleep(POLL * (len(kinds) + 1) + 4)
        elif plan == "late stop":
            await asyncio.sleep(0.5)
        elif plan.startswith("at "):
            await asyncio.sleep(float(plan[3:]))
        if respawn:
            respawned(w, ch, loop.vtime, len(kinds))
        elif len(w.processes) > 1:
            ch.fail("launched again", "respawned")
        dying = [q for q in w.alive()]
        t = loop.create_task(stop(limit))
        if plan == "cancel stop":
            loop.act("cancel stop", t.cancel, enabled=lambda: not t.done(), may=True)
        elif plan == "two stops":
            await asyncio.sleep(0)
            await asyncio.gather(stop(limit), return_exceptions=True)
        await asyncio.wait([t])
        if t.cancelled():
            await svc.stop()
        w.closed_at = loop.vtime
        if not t.cancelled():
            await t
            for q in dying:
                graceful(q)
        await over()
        await svc.stop()
        w.ev("again")

    def graceful(q):
        if q.interrupted is None and q.state == "dead" and q.code in (0, -11, 1):
            return                      # it was over before
        if q.killed is not None and (q.interrupted is None or q.killed < q.interrupted + STOP - EPS):
            ch.fail("killed %r seconds after the interrupt" % (q.killed - (q.interrupted or q.killed)), "rude")
        if q.killed is not None and q.outcome is None and plan != "cancel stop" \
                and q.interrupted is not None and q.killed > q.interrupted + STOP + EPS:
            ch.fail("killed only %.1f seconds after the interrupt" % (q.killed - q.interrupted), "late kill")
        if q.kind in ("serve", "quick", "short", "crash", "slow", "exiting") and q.killed is not None \
                and plan != "cancel stop":
            ch.fail("a process which ends (%s) was killed" % q.kind, "rude")

    async def over():
        left = [p.n for p in w.alive()]
        if left:
            ch.fail("processes %r are left running" % left, "orphan")
        n = len(w.processes)
        await asyncio.sleep(3 * POLL)
        if len(w.processes) != n or w.alive():
            ch.fail("processes are running after the end", "orphan")
        if any(not j.done for j in w.jobs):
            ch.fail("a thread is still waiting", "thread")

    try:
        run_loop(loop, main())
    except Stuck as e:
        ch.fail("never finished: %s" % e, "stuck")
    if loop.unhandled and plan != "cancel start":
        ch.fail("unhandled %r" % loop.unhandled, "unhandled")
    loop.close()


def respawned(w, ch, now, n):
    """After every death the next process comes in time."""
    ps = w.processes
    for p, q in zip(ps, ps[1:]):
        if q.launched > p.died + POLL * (1 + w.refusals) + EPS:
            ch.fail("respawned after %.1f seconds" % (q.launched - p.died), "respawn")
    last = ps[-1]
    if last.state == "dead" and now > last.died + (1 + w.refusals) * POLL + EPS:
        ch.fail("not respawned for %.1f seconds" % (now - last.died), "respawn")


# ---------------------------------------------------------------- the process
class Boom(Exception):
    pass


def canonical(level, form):
    return (level if isinstance(level, int) else logging.getLevelName(str(level).upper()),
            aiomisc_log.LogFormat[form] if isinstance(form, str) else form)


class Sets(Event):
    def set(self):
        super().set()
        WORLD.order.append(self)


def inner(ch):
    """What the service has its process do: in which order and with what arguments."""
    global WORLD
    end = ch.pick(("return", "raise", "exit", "interrupt", "system"), "end")
    kwargs = ch.pick(({}, {"a": 1}, {"a": 1, "b": None}), "arguments")
    config = ch.pick(("fine", "fails"), "logging")
    level, form = ch.pick(((None, None), (logging.DEBUG, aiomisc_log.LogFormat.json),
                           (logging.ERROR, aiomisc_log.LogFormat.plain)), "logging of the parent")
    respawn = ch.pick((False, True), "respawning")
    w = WORLD = World(ch, ["unloggable"] if config == "fails" else [])
    loop = w.loop = Loop(ch)
    loop.world = w
    order = w.order = []
    caught = []

    class Stop(Exception):
        pass

    class Caught:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
            caught.append((target, args, kwargs))

        def start(self):
            raise Stop

    class S(mod.RespawningProcessService if respawn else mod.ProcessService):
        def in_process(self, *a, **kw):
            order.append(("call", a, kw))
            if end == "raise":
                raise Boom
            if end == "exit":
                raise SystemExit(3)
            if end == "interrupt":
                raise KeyboardInterrupt
            if end == "system":
                raise GeneratorExit
            return 5

        def get_process_kwargs(self):
            return kwargs

    async def main():
        if level is not None:
            LOG_LEVEL.set(level)
            LOG_FORMAT.set(form)
        svc = S(loop=loop)
        try:
            await svc.start()
        except Stop:
            pass
        else:
            ch.fail("no process is started", "inner")

    saved = [(o, k, getattr(o, k)) for o, k, _ in SUBSTITUTES]
    error = None
    try:
        for o, k, v in SUBSTITUTES:
            if v is Process:
                setattr(o, k, Caught)
            elif v is Event:
                setattr(o, k, Sets)
        Context.Process, Context.Event = Caught, Sets
        run_loop(loop, main())
        loop.close()
        (target, args, kw), = caught
        try:
            target(*args, **kw)
        except BaseException as e:
            error = type(e)
    finally:
        Context.Process, Context.Event = Process, Event
        for o, k, v in saved:
            setattr(o, k, v)
    names = {"return": None, "raise": Boom, "exit": SystemExit, "interrupt": KeyboardInterrupt,
             "system": GeneratorExit}
    calls = [x for x in order if isinstance(x, tuple)]
    if config == "fails":
        if error is not ValueError or calls:
            ch.fail("%r after a failure of the logging, %r" % (error, order), "inner")
    else:
        if calls != [("call", (), kwargs)] or error is not names[end]:
            ch.fail("%r / %r instead of %r" % (order, error, names[end]), "inner")
        if len(order) != 3 or order[1] is not calls[0] or order[0] is order[2]:
            ch.fail("the order is %r" % order, "inner")
    (_, a, kw), = w.configured
    got = inspect.signature(_real_config).bind(*a, **kw).arguments
    got = canonical(got.get("level"), got.get("log_format"))
    want = canonical(LOG_LEVEL.get() if level is None else level, LOG_FORMAT.get() if form is None else form)
    if got != want:
        ch.fail("the logging of the process is %r instead of %r" % (got, want), "logging")
    ch.observe("inner", end, config, len(order))


SINGLE = ("serve", "quick", "short", "crash", "stillborn", "stubborn", "slow", "late", "lingering",
          "exiting", "refused", "never", "done")


def units(tier):
    deep = tier == "thorough"
    yield Unit("inner", within(inner), bound=0)
    for respawn in (False, True):
        tag = "respawn" if respawn else "plain"
        for kind in SINGLE:
            plans = ["cancel start", "stop during start"]
            if kind != "never":
                plans += ["stop", "late stop", "two stops", "cancel stop", "run"]
            for plan in plans:
                yield Unit("%s %s %s" % (tag, kind, plan.replace(" ", "-")),
                           within(lambda ch, r=respawn, k=kind, p=plan: scenario(ch, r, (k,), p)),
                           bound=(2 if deep else 1))
    ends = ("quick", "short", "crash")
    nexts = ("serve", "crash", "stillborn", "refused", "never", "stubborn")
    for first in ends:
        for second in nexts:
            for plan in ("run", "at 4.9", "at 5.05", "at 5.3", "at 10.2"):
                if second == "never" and plan in ("run", "at 10.2"):
                    continue
                if not deep and ((first == "crash" or second == "stubborn") and plan != "run" or
                                 plan == "at 10.2" and first != "short" or
                                 second == "never" and first != "short" or
                                 (first, second) in (("quick", "crash"), ("crash", "crash"))):
                    continue
                yield Unit("respawn %s,%s %s" % (first, second, plan.replace(" ", "-")),
                           within(lambda ch, a=first, b=second, p=plan: scenario(ch, True, (a, b), p)),
                           bound=2 if deep else 1)
    if deep:
        for first in ends:
            for second in ("crash", "stillborn", "refused", "quick"):
                for third in nexts:
                    yield Unit("respawn %s,%s,%s" % (first, second, third),
                               within(lambda ch, k=(first, second, third): scenario(ch, True, k, "at 11")),
                               bound=1)
