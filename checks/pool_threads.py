"""Harness shared by C07 and C08: the real ThreadPoolExecutor on controlled threads."""
import asyncio
import contextvars
import _thread

from mc import vthread
from mc.core import Violation
from mc.vloop import Stuck

vthread.load(["aiomisc.thread_pool"])

import aiomisc  # noqa: E402
from aiomisc.thread_pool import (  # noqa: E402
    ThreadPoolException, ThreadPoolExecutor, run_in_executor, run_in_new_thread, threaded,
    threaded_separate,
)

VAR = contextvars.ContextVar("VAR", default=None)


class Val:
    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return False

    def __eq__(self, o):
        return True

    __hash__ = object.__hash__

    def __repr__(self):
        return "Val%d" % self.n


class Boom(Exception):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Base(BaseException):
    pass


RAISES = {"raise": Boom, "falsy": Falsy, "base": Base, "cancelled": asyncio.CancelledError}


class Call:
    def __init__(self, w, i, kind):
        self.w = w
        self.i = i
        self.kind = kind
        self.starts = 0
        self.finished = False
        self.fut = None
        self.cancel = False
        self.cancelled_before_start = False
        self.outcome = None
        self.val = Val(i)
        self.exc = RAISES[kind]("call %d" % i) if kind in RAISES else None
        self.settled_at = 0
        self.submitted = False
        self.refused = False

    def fn(self, a, k=None):
        w = self.w
        ch = w.ch
        self.starts += 1
        if self.starts > 1:
            ch.fail("call %d was executed twice" % self.i, "twice")
        if a is not self or k is not w:
            ch.fail("call %d got wrong arguments" % self.i, "args")
        if VAR.get() != "ctx%d" % self.i:
            ch.fail("call %d runs in the context %r" % (self.i, VAR.get()), "context")
        if _thread.get_ident() == w.main_ident:
            ch.fail("call %d runs in the loop's thread" % self.i, "loop-thread")
        if w.shutdown_returned:
            ch.fail("call %d started after shutdown had returned" % self.i, "start-after")
        if self.cancelled_before_start:
            ch.fail("cancelled call %d was started" % self.i, "cancelled-start")
        w.running += 1
        if not self.separate and w.running > w.max_workers:
            ch.fail("%d functions run on %d workers" % (w.running, w.max_workers), "too-many")
        w.ch.observe("fn", self.i)
        try:
            if self.kind == "block":
                w.gates[self.i].wait()
            elif self.kind == "sleep":
                vthread.time.sleep(0.5)
            elif self.kind == "barrier":
                w.barrier -= 1
                if not w.barrier:
                    w.barrier_event.set()
                w.barrier_event.wait()
            elif self.kind in ("ret", "raise"):
                vthread.sched().point("body")
            if self.exc is not None:
                raise self.exc
            return self.val
        finally:
            w.running -= 1
            self.finished = True


class World:
    def __init__(self, ch, s, loop):
        self.ch, self.s, self.loop = ch, s, loop
        self.main_ident = _thread.get_ident()
        self.shutdown_returned = False
        self.running = 0
        self.gates = {}
        self.barrier = 0
        self.barrier_event = vthread.threading.Event()
        self.max_workers = 0
        self.calls = []


def check_outcome(w, c):
    """Checks the settled future of call c."""
    f = c.fut
    if not f.done():
        raise Violation("call %d is not settled" % c.i, "unsettled")
    if f.cancelled():
        if not c.cancel and c.kind != "cancelled":
            raise Violation("call %d was cancelled by someone else" % c.i, "foreign-cancel")
        return "cancelled"
    e = f.exception()
    if e is not None:
        if isinstance(e, ThreadPoolException) and w.shutting:
            return "closed"
        if c.exc is None or e is not c.exc:
            raise Violation("call %d failed with %r" % (c.i, e), "wrong-exc")
        if c.starts != 1:
            raise Violation("call %d has an outcome but was run %d times" % (c.i, c.starts), "never")
        return "exc"
    if f.result() is not c.val or c.exc is not None:
        raise Violation("call %d returned %r" % (c.i, f.result()), "wrong-value")
    if c.starts != 1:
        raise Violation("call %d has an outcome but was run %d times" % (c.i, c.starts), "never")
    return "val"


def submit(w, c, api, pool):
    loop = w.loop
    VAR.set("ctx%d" % c.i)
    c.separate = api == "separate"
    if api == "submit":
        f = pool.submit(c.fn, c, k=w)
    elif api == "loop":
        # the loop's executor interface takes the context of the caller, too
        import functools
        f = loop.run_in_executor(pool, functools.partial(c.fn, c, k=w))
    elif api == "default":
        f = run_in_executor(c.fn, None, (c,), {"k": w})
    elif api == "threaded":
        f = threaded(c.fn)(c, k=w)
    elif api == "separate":
        f = threaded_separate(c.fn)(c, k=w)
    else:
        raise AssertionError(api)
    VAR.set(None)
    c.fut = asyncio.ensure_future(f)
    c.submitted = True
    return c


def scenario07(ch, kinds, max_workers, apis, cancels, lines, cross=None):
    async def main(s, loop):
        w = World(ch, s, loop)
        w.shutting = False
        w.max_workers = max_workers
        pool = ThreadPoolExecutor(max_workers=max_workers)
        loop.set_default_executor(pool)
        w.barrier = kinds.count("barrier")
        calls = w.calls
        for i, k in enumerate(kinds):
            c = Call(w, i, k)
            calls.append(c)
            if k == "block":
                w.gates[i] = vthread.threading.Event()
        order = []

        def done(c):
            c.settled_at += 1
            order.append(c.i)
            if _thread.get_ident() != w.main_ident:
                ch.fail("future of %d completed in another thread" % c.i, "thread")

        for c, api in zip(calls, apis):
            submit(w, c, api, pool)
            c.fut.add_done_callback(lambda f, c=c: done(c))
            if c.i in cancels:
                def cancel(c=c):
                    c.cancel = True
                    if c.starts == 0:
                        # a worker may already have picked it up: only a call that
                        # waits behind busy workers is known not to start
                        c.cancelled_before_start = w.running >= max_workers and api != "separate"
                    c.fut.cancel()
                loop.act("cancel%d" % c.i, cancel, may=True, enabled=lambda c=c: not c.fut.done())
            if "yield" in kinds[c.i:c.i + 1]:
                await asyncio.sleep(0)
        # blocked functions are released one after the other, latest first
        for i in sorted(w.gates, reverse=True):
            loop.call_later(1 + 0.1 * (len(calls) - i), w.gates[i].set)
        await asyncio.wait([c.fut for c in calls])
        for c in calls:
            r = check_outcome(w, c)
            ch.observe("out", c.i, r)
            if c.settled_at != 1:
                # callbacks run in the next turn
                await asyncio.sleep(0)
                if c.settled_at != 1:
                    raise Violation("future completed %d times" % c.settled_at, "settle")
        # cancelled calls may still be running; let them end
        while w.running:
            await asyncio.sleep(0.3)
        # every other call has run exactly once
        for c in calls:
            if not c.cancel and c.starts != 1:
                raise Violation("call %d was run %d times" % (c.i, c.starts), "runs")
        # the pool still works
        c = Call(w, len(calls), "ret")
        submit(w, c, "submit", pool)
        await asyncio.wait([c.fut])
        if check_outcome(w, c) != "val":
            raise Violation("pool does not work afterwards", "dead")
        pool.shutdown()
        while not all(t.done for t in s.threads[1:]):
            await asyncio.sleep(1)
        for t in s.threads[1:]:
            if not t.done:
                raise Violation("thread %s is left after shutdown" % t.name, "thread-left")
            if t.error is not None:
                raise Violation("thread %s died with %r" % (t.name, t.error), "thread-error")
        if loop.unhandled:
            raise Violation("unhandled: %r" % (loop.unhandled,), "unhandled")
        return tuple(order), tuple(c.starts for c in calls)

    try:
        return vthread.run(ch, main, lines=lines)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


def scenario08(ch, kinds, max_workers, where, wait, lines, cancels=(), second=None, late=True,
               when="start", use_asyncio=False):
    """shutdown against calls in every phase."""
    async def main(s, loop):
        w = World(ch, s, loop)
        w.shutting = False
        w.max_workers = max_workers
        pool = ThreadPoolExecutor(max_workers=max_workers)
        if use_asyncio:
            loop.set_default_executor(pool)
        calls = w.calls
        w.barrier = kinds.count("barrier")
        for i, k in enumerate(kinds):
            c = Call(w, i, k)
            calls.append(c)
            if k == "block":
                w.gates[i] = vthread.threading.Event()
            submit(w, c, "submit", pool)
            if i in cancels:
                def cancel(c=c):
                    c.cancel = True
                    c.fut.cancel()
                loop.act("cancel%d" % i, cancel, may=True, enabled=lambda c=c: not c.fut.done())
        state = {"errors": [], "returned": 0}
        if w.gates:
            def release():
                for i in w.gates:
                    vthread.time.sleep(0.1)
                    w.gates[i].set()
            vthread.threading.Thread(target=release, name="releaser").start()

        def down():
            w.shutting = True
            t0 = s.now
            try:
                pool.shutdown(wait=wait)
            except BaseException as e:
                if type(e).__name__ in ("SchedAbort", "Quiescent"):
                    raise
                state["errors"].append(e)
            state["returned"] += 1
            if wait:
                w.shutdown_returned = True
                if w.running and s.now - t0 < 10:
                    ch.fail("shutdown returned while a function runs", "early")
            ch.observe("returned")

        n = 1
        if where == "thread":
            vthread.threading.Thread(target=down, name="closer").start()
            if second:
                n = 2
                vthread.threading.Thread(target=down, name="closer2").start()
        elif where == "loop":
            if when == "later":
                loop.act("down", down)
            else:
                down()
            if second:
                n = 2
                loop.call_soon(down)
        elif where == "asyncio":
            n = 0
            w.shutting = True
            try:
                await loop.shutdown_default_executor()
            except Exception as e:
                state["errors"].append(e)
            w.shutdown_returned = wait
        elif where == "both":
            n = 2
            vthread.threading.Thread(target=down, name="closer").start()
            loop.act("down", down)
        # a submission which races with the shutdown
        if late:
            c = Call(w, len(calls), "ret")
            try:
                submit(w, c, "submit", pool)
            except RuntimeError:
                c.refused = True
                if not w.shutting:
                    raise Violation("submission was refused before shutdown", "refused")
            except Exception as e:
                raise Violation("submission is refused with %r" % e, "refused-how")
            else:
                calls.append(c)
        pending = [c.fut for c in calls]
        if pending:
            # nothing else happens in this loop: each waiter must be woken up by the pool
            await asyncio.wait(pending)
        while state["returned"] < n:
            await asyncio.sleep(1)
        if state["errors"]:
            raise Violation("shutdown raised %r" % (state["errors"],), "shutdown-raises")
        for c in calls:
            ch.observe("out", c.i, check_outcome(w, c))
        try:
            c = Call(w, 99, "ret")
            pool.submit(c.fn, c, k=w)
        except RuntimeError:
            pass
        except Exception as e:
            raise Violation("submission is refused with %r" % e, "refused-how")
        else:
            raise Violation("submission is accepted after shutdown", "accepted")
        try:
            pool.shutdown(wait=wait)
        except Exception as e:
            raise Violation("another shutdown raised %r" % e, "again")
        for i in w.gates:
            w.gates[i].set()
        while not all(t.done for t in s.threads[1:]):
            await asyncio.sleep(1)
        for t in s.threads[1:]:
            if not t.done:
                raise Violation("thread %s is left after shutdown" % t.name, "thread-left")
            if t.error is not None:
                raise Violation("thread %s died with %r" % (t.name, t.error), "thread-error")
        if c.starts:
            raise Violation("refused call was run", "refused-run")
        if loop.unhandled:
            raise Violation("unhandled: %r" % (loop.unhandled,), "unhandled")
        return tuple(c.starts for c in calls)

    try:
        return vthread.run(ch, main, lines=lines)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


def scenario_closed(ch, kinds, max_workers, wait, default, lines):
    """The loop is closed (or stopped for good) while calls are pending."""
    from aiomisc._context_vars import EVENT_LOOP

    def main(s):
        loop = vthread.TLoop(ch, s)
        EVENT_LOOP.set(loop)
        asyncio.set_event_loop(loop)
        w = World(ch, s, loop)
        w.shutting = True
        w.max_workers = max_workers
        pool = ThreadPoolExecutor(max_workers=max_workers)
        if default:
            loop.set_default_executor(pool)
        release = vthread.threading.Event()

        async def body():
            for i, k in enumerate(kinds):
                c = Call(w, i, k)
                w.calls.append(c)
                w.gates[i] = release
                submit(w, c, "submit", pool)
            await asyncio.sleep(0)
        try:
            loop.run_until_complete(body())
            try:
                loop.close()
            except Exception as e:
                raise Violation("closing the loop raised %r" % e, "close-raises")

            def later():
                vthread.time.sleep(0.2)
                release.set()
            vthread.threading.Thread(target=later, name="releaser").start()
            try:
                pool.shutdown(wait=wait)
            except Exception as e:
                raise Violation("shutdown raised %r" % e, "shutdown-raises")
            if wait:
                w.shutdown_returned = True
            while not all(t.done for t in s.threads[1:]):
                vthread.time.sleep(1)
            for t in s.threads[1:]:
                if t.error is not None and not isinstance(t.error, RuntimeError):
                    raise Violation("thread died with %r" % t.error, "thread-error")
        finally:
            from asyncio import tasks
            for t in loop._mc_tasks:
                t._log_destroy_pending = False
                tasks._unregister_task(t)
            loop._mc_tasks.clear()
            loop._ready.clear()
            loop._scheduled.clear()
        return tuple(c.starts for c in w.calls)

    try:
        return vthread.run(ch, main, lines=lines, use_loop=False)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")
    finally:
        asyncio.set_event_loop(None)
