"""Harness shared by C17 (hooks) and C18 (entrypoint)."""
import asyncio
import contextlib
import signal
import sys

import aiomisc.entrypoint  # noqa
from aiomisc import Service, entrypoint, get_context
from aiomisc.context import Context
from mc.core import Violation
from mc.vloop import Stuck, VLoop, run_loop

ep_module = sys.modules["aiomisc.entrypoint"]
SIG = signal.SIGUSR1


class Boom(Exception):
    pass


class BodyError(Exception):
    pass


class World:
    def __init__(self, ch, loop):
        self.ch = ch
        self.loop = loop
        self.log = []            # (event, who, extra)
        self.svcs = []
        self.ep = None
        self.closing_seen = 0
        self.background = {}
        self.pool_down = 0
        self.second = []         # receivers have no fixed order, keep this one out of the log

    def ev(self, *e):
        self.log.append(e)
        self.ch.observe(*[str(i) for i in e])

    def index(self, *e):
        return self.log.index(e)


def gate(world, name):
    """A moment decided by the scheduler."""
    f = world.loop.create_future()

    def fire():
        if not f.done():
            f.set_result(None)
    world.loop.act(name, fire, enabled=lambda: not f.done())
    return f


class BaseSvc(Service):
    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o

    async def start(self):
        w, n, kind = self.world, self.n, self.skind
        w.ev("start", n)
        self.nstart += 1
        if self.loop is not w.loop or asyncio.get_running_loop() is not w.loop:
            w.ch.fail("service has the wrong loop", "svc-loop")
        if self.context is not get_context() or self.context is not w.ep.ctx:
            w.ch.fail("service has the wrong context", "svc-context")
        try:
            await self.body(kind)
        except asyncio.CancelledError as e:
            w.ev("start-cancelled" if kind != "failcancel" else "start-failed", n)
            self.ended = True
            raise
        except BaseException as e:
            w.ev("start-failed", n, e)
            self.ended = True
            raise
        self.ended = True
        w.ev("start-done", n)

    async def body(self, kind):
        w, n = self.world, self.n
        if kind == "ret":
            return
        if kind == "yield":
            await asyncio.sleep(0)
            return
        if kind == "slow":
            await gate(w, "slow%d" % n)
        elif kind == "sig":
            self.signal()
            await asyncio.Event().wait()
        elif kind == "sigslow":
            await gate(w, "sigslow%d" % n)
            self.signal()
            await asyncio.Event().wait()
        elif kind == "sigret":
            self.signal()
            await gate(w, "sigret%d" % n)
        elif kind == "sigfail":
            self.signal()
            await gate(w, "sigfail%d" % n)
            raise Boom("late %d" % n)
        elif kind == "fail":
            raise Boom("start %d" % n)
        elif kind == "failslow":
            await gate(w, "failslow%d" % n)
            raise Boom("start %d" % n)
        elif kind == "failcancel":
            await asyncio.sleep(0)
            raise asyncio.CancelledError("start %d" % n)
        elif kind == "ctxwait":
            v = await self.context["k"]
            if v != "v":
                w.ch.fail("wrong context value", "ctx-value")
        elif kind == "ctxset":
            self.context["k"] = "v"
        elif kind == "sigclean":
            self.signal()
            try:
                await asyncio.Event().wait()
            finally:
                await asyncio.sleep(0)
                await gate(w, "clean%d" % n)
        else:
            raise AssertionError(kind)

    def signal(self):
        self.world.ev("signalled", self.n)
        self.signalled = True
        self.start_event.set()

    def on_stop(self, exc):
        w = self.world
        self.nstop += 1
        self.stop_exc.append(exc)
        try:
            ctx = get_context()
        except Exception as e:
            ctx = e
        aborted = w.interrupted() and w.loop.time() - 1000 >= w.abort_after
        if ctx is not w.ep.ctx and not aborted:
            w.ch.fail("while being stopped service %d has the context %r" % (self.n, ctx),
                      "stop-context")
        w.ev("stop", self.n, type(exc).__name__)

    @property
    def started(self):
        return self.ended or self.signalled


class SvcStop(BaseSvc):
    async def stop(self, exception=None):
        w, n, kind = self.world, self.n, self.pkind
        self.on_stop(exception)
        try:
            if kind == "raise":
                raise Boom("stop %d" % n)
            if kind == "raiseslow":
                await gate(w, "stopraise%d" % n)
                raise Boom("stop %d" % n)
            if kind == "slow":
                await gate(w, "stop%d" % n)
            if kind == "sleep":
                await asyncio.sleep(5)
            if kind == "closing":    # who waits for the entrypoint to close must have been told
                while not w.closing_seen:
                    await asyncio.sleep(0.1)
            if kind == "peer":       # needs every other service to be asked to stop, too
                while not all(s.nstop for s in w.svcs if s.nstart and isinstance(s, SvcStop)):
                    await asyncio.sleep(0.1)
        finally:
            self.stop_done = True
            w.ev("stopped", n)


class SvcBadStop(BaseSvc):
    async def stop(self):              # cannot be called with an exception
        pass


class SvcDefaultStop(BaseSvc):
    pass


def make_service(world, n, skind, pkind):
    cls = {"bad": SvcBadStop, "default": SvcDefaultStop}.get(pkind, SvcStop)
    s = cls(world=world, n=n, skind=skind, pkind=pkind, nstart=0, nstop=0, stop_exc=[],
            signalled=False, ended=False, stop_done=False)
    world.svcs.append(s)
    return s


EARLY_FAIL = ("fail", "failslow", "failcancel")


def connect_hooks(world, ep):
    w = world

    def names(services):
        return tuple(sorted(s.n for s in services))

    async def pre_start(entrypoint, services):
        if entrypoint is not ep:
            w.ch.fail("hook got another entrypoint", "hook-ep")
        w.ev("pre_start>", names(services))
        await asyncio.sleep(0)
        for s in services:
            if s.nstart and not s.nstop:
                w.ch.fail("service %d started before pre_start ended" % s.n, "pre_start")
        w.ev("pre_start", names(services))

    async def pre_start2(entrypoint, services):
        w.second.append(names(services))

    async def post_start(entrypoint, services):
        if entrypoint is not ep:
            w.ch.fail("hook got another entrypoint", "hook-ep")
        if not any(s.skind in EARLY_FAIL for s in services):
            for s in services:
                if not s.started:
                    w.ch.fail("post_start before service %d started" % s.n, "post_start")
        w.ev("post_start", names(services))

    async def pre_stop(entrypoint, services):
        if entrypoint is not ep:
            w.ch.fail("hook got another entrypoint", "hook-ep")
        await asyncio.sleep(0)
        for s in services:
            if s.nstop:
                w.ch.fail("service %d was asked to stop before pre_stop ended" % s.n, "pre_stop")
        w.ev("pre_stop", names(services))

    async def post_stop(entrypoint, services):
        if entrypoint is not ep:
            w.ch.fail("hook got another entrypoint", "hook-ep")
        for s in services:
            if isinstance(s, SvcStop) and not (s.nstop and s.stop_done):
                w.ch.fail("post_stop before service %d stopped" % s.n, "post_stop")
        w.ev("post_stop", names(services))

    ep.pre_start.connect(pre_start)
    ep.pre_start.connect(pre_start2)
    ep.post_start.connect(post_start)
    ep.pre_stop.connect(pre_stop)
    ep.post_stop.connect(post_stop)


@contextlib.contextmanager
def owned_loop(loop, w):
    saved = ep_module.create_default_event_loop

    class Pool:
        def shutdown(self, *a, **kw):
            w.pool_down += 1

    async def shutdown_default_executor(*a, **kw):
        w.pool_down += 1
    loop.shutdown_default_executor = shutdown_default_executor
    ep_module.create_default_event_loop = lambda *a, **kw: (loop, Pool())
    try:
        yield
    finally:
        ep_module.create_default_event_loop = saved


def scenario(ch, services, dynamic=(), exit="normal", mode="async", hooks=True, interrupts=0,
             shutdown_timeout=60, concurrent=False, extras=False):
    """services: [(start kind, stop kind)];  dynamic: [("start", i) | ("stop", i)] over
    services + extra services given as ("new", start kind, stop kind)."""
    loop = VLoop(ch)
    w = World(ch, loop)
    st = {"entered": False, "raised": None, "left": False, "interrupted": 0,
          "planned_exc": None, "main": None, "exit_began": False}
    w.interrupted = lambda: st["interrupted"]
    w.abort_after = shutdown_timeout
    initial = [make_service(w, i, a, b) for i, (a, b) in enumerate(services)]
    early = [s for s in initial if s.skind in EARLY_FAIL]
    reported = set()
    kw = dict(log_config=False, shutdown_timeout=shutdown_timeout)
    default_handler = lambda *a: st.__setitem__("default", st.get("default", 0) + 1)
    old = signal.signal(SIG, default_handler)
    ep = None

    def check_reported():
        want = {s for s in w.svcs if s.nstart and not s.stop_seen}
        got = set(w.ep.services)
        if got != want:
            raise Violation("services reported: %r, expected %r" % (
                sorted(s.n for s in got), sorted(s.n for s in want)), "services")
        if len(w.ep.services) != len(got):
            raise Violation("a service is reported twice", "services")

    for s in w.svcs:
        s.stop_seen = False

    async def dyn(op):
        if op[0] == "new":
            s = make_service(w, len(w.svcs), op[1], op[2])
            s.stop_seen = False
            await do_start(s)
        elif op[0] == "stop":
            await do_stop(w.svcs[op[1]])
        elif op[0] == "restart":
            s = w.svcs[op[1]]
            await do_stop(s)
            s.nstop = 0
            s.nstart = 0
            s.signalled = s.ended = s.stop_done = s.stop_seen = False
            s.stop_exc.clear()
            await do_start(s)
        elif op[0] == "sleep":
            await asyncio.sleep(op[1])

    async def do_start(s):
        try:
            await w.ep.start_services(s)
        except (Boom, asyncio.CancelledError) as e:
            if (s.skind == "failcancel") != isinstance(e, asyncio.CancelledError):
                raise
            if s.skind not in EARLY_FAIL + ("sigfail",):
                raise Violation("dynamic start of service %d raised" % s.n, "dyn-start")
        else:
            if s.skind in EARLY_FAIL:
                raise Violation("failing dynamic start of %d was swallowed" % s.n, "dyn-fail")
            if not s.started:
                raise Violation("start_services returned before %d started" % s.n, "dyn-early")

    async def do_stop(s):
        try:
            await w.ep.stop_services(s)
        except Boom:
            if s.pkind not in ("raise", "raiseslow"):
                raise Violation("dynamic stop of %d raised" % s.n, "dyn-stop")
        if isinstance(s, SvcStop):
            if s.nstop != 1 or not s.stop_done:
                raise Violation("stop of %d: called %d times, done %s" % (
                    s.n, s.nstop, s.stop_done), "dyn-stop-count")
            if s.stop_exc != [None]:
                raise Violation("dynamic stop got an exception", "dyn-stop-exc")
        s.stop_seen = True

    async def noop(**kw):
        pass

    async def closing_waiter():
        await w.ep.closing()
        w.closing_seen += 1
        w.ev("closing-seen")

    async def background():
        try:
            await asyncio.Event().wait()
        finally:
            if any(x.nstop and not x.stop_done for x in w.svcs):
                w.background["early"] = True
            await gate(w, "background")
            w.background["ended"] = True
            w.ev("background-ended")

    async def agen():
        try:
            yield 1
            yield 2
        finally:
            w.ev("agen-closed")
            w.background["agen"] = True

    def check_left():
        """Right after the entrypoint was left, its loop still being there."""
        ch_ctx = True
        try:
            get_context(loop)
        except Exception:
            ch_ctx = False
        if ch_ctx and st["entered"]:
            raise Violation("context was not closed", "context-open")
        if extras and st["entered"]:
            if w.background.get("ended") and mode != "with":
                raise Violation("a task on a loop that is not the entrypoint's was cancelled",
                                "foreign-task")
            w.bg_task.cancel()

    async def drain():
        if extras and st["entered"]:
            await asyncio.gather(w.bg_task, return_exceptions=True)

    async def body():
        st["entered"] = True
        w.ev("entered")
        for s in initial:
            if not s.nstart:
                raise Violation("service %d was not started" % s.n, "not-started")
            if not s.started:
                raise Violation("entered before service %d had started" % s.n, "enter-early")
        if early:
            raise Violation("a failed start was not raised", "start-swallowed")
        if get_context() is not w.ep.ctx:
            raise Violation("context is not available", "context")
        check_reported()
        if hooks:
            for name in ("pre_start", "post_start", "pre_stop", "post_stop"):
                try:
                    getattr(w.ep, name).connect(noop)
                except RuntimeError:
                    pass
                else:
                    raise Violation("%s is not frozen in a running entrypoint" % name,
                                    "signals-frozen")
        if extras:
            w.closing_task = asyncio.ensure_future(closing_waiter())
            w.bg_task = asyncio.ensure_future(background())
            w.agen = agen()
            await w.agen.__anext__()
            await asyncio.sleep(0)
        if interrupts:
            h = signal.getsignal(SIG)
            if h is default_handler:
                raise Violation("signal handler was not installed", "sig-install")

            def fire():
                cur = signal.getsignal(SIG)
                if cur is not default_handler:
                    st["interrupted"] += 1
                    w.ev("interrupt")
                    cur(SIG, None)
            for k in range(interrupts):
                loop.act("interrupt%d" % k, fire, foreign=True, enabled=lambda: not loop.is_closed(),
                         may=(exit != "interrupt") or k > 0)
        if concurrent:
            await asyncio.gather(*[dyn(op) for op in dynamic])
            check_reported()
        else:
            for op in dynamic:
                await dyn(op)
                check_reported()
        if exit == "normal":
            if interrupts:
                await asyncio.sleep(0)
                await asyncio.sleep(0)
            return
        if exit == "raise":
            st["planned_exc"] = BodyError("body")
            raise st["planned_exc"]
        if exit == "exit":
            st["planned_exc"] = KeyError("x")
            await asyncio.sleep(1)
            raise st["planned_exc"]
        if exit == "cancel":
            loop.call_soon(st["main"].cancel)
            await asyncio.Event().wait()
        if exit == "interrupt":
            await asyncio.Event().wait()

    def finish(out, exc):
        """Checks once the entrypoint has been left."""
        if exc is not None and isinstance(exc, Violation):
            raise exc
        if ch.failures:
            raise ch.failures[0]
        stop_fails = [s for s in w.svcs if s.nstart and s.pkind in ("raise", "raiseslow")
                      and not s.stop_seen]
        if hooks and not st["interrupted"]:
            for a, b in (("pre_start", "post_start"), ("pre_stop", "post_stop")):
                x, y = (sorted(e[1] for e in w.log if e[0] == h) for h in (a, b))
                if x != y:
                    raise Violation("%s called for %r but %s for %r" % (a, x, b, y), "hook-pair")
        if not st["entered"]:
            if not early and not any(e[0] == "start-failed" for e in w.log):
                raise Violation("entering failed with %r" % (exc,), "enter-fail")
            kinds = {s.skind for s in early}
            if not isinstance(exc, Boom) and not (
                    "failcancel" in kinds and isinstance(exc, asyncio.CancelledError)):
                raise Violation("start failure became %r" % (exc,), "start-exc")
            return
        timeouts = st["interrupted"] and loop.time() - 1000 >= shutdown_timeout
        if timeouts:
            if not (isinstance(exc, SystemExit) and exc.code == 70):
                if exit == "interrupt" and not stop_fails:
                    raise Violation("shutdown timeout gave %r" % (exc,), "timeout-exit")
            return
        elif exit == "raise" or exit == "exit":
            if not st["interrupted"] and not stop_fails and exc is not st["planned_exc"]:
                raise Violation("body's exception became %r" % (exc,), "body-exc")
        elif exit == "normal" and not st["interrupted"] and not stop_fails:
            if exc is not None:
                raise Violation("leaving raised %r" % (exc,), "leave-exc")
        if stop_fails and not st["interrupted"] and not isinstance(exc, Boom):
            raise Violation("a failed stop was reported as %r" % (exc,), "stop-failure")
        for s in w.svcs:
            if not s.nstart or not isinstance(s, SvcStop):
                continue
            if s.nstop != 1:
                raise Violation("stop of service %d was called %d times" % (s.n, s.nstop),
                                "stop-count")
            if s.stop_seen:
                continue
            e = s.stop_exc[0]
            ok = []
            if exit in ("raise", "exit"):
                ok.append(e is st["planned_exc"])
            elif exit == "normal":
                ok.append(e is None)
            elif exit == "cancel":
                ok.append(isinstance(e, asyncio.CancelledError))
            if st["interrupted"]:
                ok.append(isinstance(e, RuntimeError))
            if not any(ok):
                raise Violation("stop of service %d got %r" % (s.n, e), "stop-exc")
            # its start was cancelled and finished before
            if s.started and not s.ended:
                raise Violation("start of service %d was left running" % s.n, "start-left")
        # starts finish before any final stop
        if not dynamic and not interrupts:
            stops = [i for i, e in enumerate(w.log) if e[0] == "stop"]
            for i, e in enumerate(w.log):
                if e[0] in ("start-cancelled", "start-done", "start-failed") and stops and i > stops[0]:
                    raise Violation("a service was stopped before start of %d had ended" % e[1],
                                    "stop-before-start-end")
            # every stop is asked for before time passes / gates open: done at once
            order = [e[0] for e in w.log if e[0] in ("stop", "stopped")]
            n = sum(1 for s in w.svcs if isinstance(s, SvcStop))
            slow = [s for s in w.svcs if s.pkind in ("slow", "sleep", "raiseslow")]
            if len(slow) == n and n and order[:n] != ["stop"] * n:
                raise Violation("a slow stop delays the others: %r" % (order,), "stop-serial")
        if extras and not st["interrupted"] and not stop_fails:
            if not w.background.get("agen"):
                raise Violation("an asynchronous generator was not closed", "agen")
            if mode == "with" and not w.background.get("ended"):
                raise Violation("a background task was not cancelled and finished", "background")
        if extras and w.background.get("early") and not st["interrupted"]:
            raise Violation("background tasks were cancelled while services are stopping", "bg-early")
        if extras and not w.closing_seen and mode != "with":
            raise Violation("who waits for closing() was not told", "closing")
        if mode == "with" and w.pool_down != 1 and not st["interrupted"]:
            raise Violation("thread pool was shut down %d times" % w.pool_down, "pool-down")
        if w.ep.services:
            raise Violation("services left: %r" % (w.ep.services,), "services-left")
        try:
            get_context(loop)
        except Exception:
            pass
        else:
            raise Violation("context was not closed", "context-open")
        if signal.getsignal(SIG) is not default_handler:
            raise Violation("signal handler was not restored", "sig-restore")
        if hooks and not stop_fails:
            check_hooks()

    def check_hooks():
        log = w.log
        n0 = tuple(range(len(initial)))
        pos = {}
        if sorted(w.second) != sorted(e[1] for e in log if e[0] == "pre_start"):
            raise Violation("second pre_start receiver got %r" % (w.second,), "hook-second")
        for i, e in enumerate(log):
            pos.setdefault((e[0], e[1] if len(e) > 1 else None), []).append(i)
        if len(pos.get(("pre_start", n0), ())) != 1 and dynamic == ():
            raise Violation("pre_start receivers: %r" % (pos.get(("pre_start", n0)),), "hook-count")
        if len(pos.get(("post_start", n0), ())) != 1 and dynamic == ():
            raise Violation("post_start receivers called %r" % (pos.get(("post_start", n0)),),
                            "hook-count")
        for op in dynamic:
            if op[0] == "new":
                s = [s for s in w.svcs if s not in initial][0]
                for h, c in (("pre_start", 1), ("post_start", 1)):
                    if len(pos.get((h, (s.n,)), ())) != c:
                        raise Violation("%s for dynamic start: %r" % (
                            h, pos.get((h, (s.n,)))), "hook-dyn")
            if op[0] == "stop" and not st["interrupted"]:
                for h in ("pre_stop", "post_stop"):
                    if len(pos.get((h, (op[1],)), ())) < 1:
                        raise Violation("%s not called for dynamic stop" % h, "hook-dyn")
        if not st["interrupted"]:
            # the final shutdown
            final = tuple(sorted(s.n for s in w.svcs if s.nstart and not s.stop_seen))
            for h in ("pre_stop", "post_stop"):
                if len(pos.get((h, final), ())) < 1:
                    raise Violation("%s not called with %r: %r" % (h, final, sorted(pos)),
                                    "hook-final")
            names = [e[0] for e in log if e[0] in ("pre_stop", "post_stop")]
            if names != ["pre_stop", "post_stop"] * (len(names) // 2) and not concurrent:
                raise Violation("stop hooks order %r" % (names,), "hook-order")
            nstops = 1 + sum(1 for op in dynamic if op[0] in ("stop", "restart"))
            if len(names) != 2 * nstops:
                raise Violation("stop hooks were called %d times for %d stops" % (
                    len(names), nstops), "hook-count")

    try:
        exc = None
        out = None
        if mode == "async":
            async def main():
                st["main"] = asyncio.current_task()
                w.ep = entrypoint(*initial, catch_signals=(SIG,), **kw)
                if hooks:
                    connect_hooks(w, w.ep)
                async with w.ep:
                    await body()
                    st["exit_began"] = True
                w.ev("left")
            async def guard():
                try:
                    await main()
                finally:
                    if not st["interrupted"]:
                        check_left()
                        await drain()
            try:
                run_loop(loop, guard())
            except Stuck:
                raise
            except BaseException as e:
                exc = e
        else:
            with owned_loop(loop, w) if mode == "with" else contextlib.nullcontext():
                async def main():
                    st["main"] = asyncio.current_task()
                    await body()
                    st["exit_began"] = True
                try:
                    if mode == "given":
                        kw["loop"] = loop
                    w.ep = entrypoint(*initial, catch_signals=(SIG,), **kw)
                    if hooks:
                        connect_hooks(w, w.ep)
                    try:
                        with w.ep as lp:
                            if lp is not loop:
                                raise Violation("other loop")
                            lp.run_until_complete(main())
                        w.ev("left")
                    except Violation:
                        raise
                    except BaseException as e:
                        if type(e).__name__ in ("Quiescent", "Livelock"):
                            raise Stuck(str(e))
                        exc = e
                    if mode == "given" and not st["interrupted"]:
                        if loop.is_closed():
                            raise Violation("a loop given to the entrypoint was closed", "loop-closed")
                        check_left()
                        try:
                            loop.run_until_complete(drain())
                        except BaseException as e:
                            if type(e).__name__ in ("Quiescent", "Livelock"):
                                raise Stuck(str(e))
                            raise
                finally:
                    closed = loop.is_closed()
                    from asyncio import tasks
                    for t in loop._mc_tasks:
                        t._log_destroy_pending = False
                        tasks._unregister_task(t)
                    left = [t for t in loop._mc_tasks if not t.done()]
                    loop._mc_tasks.clear()
                    loop._ready.clear()
                    loop._scheduled.clear()
                    loop.actions.clear()
                    loop.close()
            # an interrupt may stop the loop while it leaves the block
            race = st["interrupted"]
            if mode == "given":
                pass
            elif st["entered"] and not closed and not race and not isinstance(exc, SystemExit) and not any(
                    s.pkind in ("raise", "raiseslow") for s in w.svcs):
                raise Violation("the loop was not closed", "loop-open")
            if mode == "with" and st["entered"] and left and not race and not any(
                    s.pkind in ("raise", "raiseslow", "sleep") for s in w.svcs):
                raise Violation("tasks left: %r" % (left,), "tasks-left")
        if isinstance(exc, RuntimeError) and "stopped before" in str(exc) and not st["interrupted"]:
            raise Violation("loop stopped: %r" % exc)
        finish(out, exc)
        return (repr(exc), tuple(map(str, w.log)))
    except Stuck as e:
        raise Violation("stuck: %s; %r" % (e, w.log[-6:]), "stuck")
    finally:
        signal.signal(SIG, old)
        Context._EVENT_OBJECTS.pop(loop, None)
