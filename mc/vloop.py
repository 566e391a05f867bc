"""An asyncio event loop with virtual time under the control of the explorer.

FIFO order of ready callbacks is kept (asyncio guarantees it).  Between any two
callbacks the driver may perform one of its registered environment actions
(a deviation, cost 1); when nothing is ready it may perform any of them (free
choice by default) or let time advance to the next timer.
"""
import asyncio
import heapq
import sys
import weakref
from asyncio import base_events, events, futures, tasks

from .core import Livelock, Violation


class Quiescent(BaseException):
    """Nothing is ready, no timer, no enabled action."""


class Action:
    """An environment action.

    may=False: an external event that will happen; it is fired by default once
               nothing else can run (in any order: free choice).
    may=True : an optional fault (cancellation, ...): never fired by default,
               always costs a deviation.
    foreign=True: happens in another thread or a signal handler: what it only
               passes to call_soon() does not wake a loop blocked in select.
    """
    __slots__ = ("name", "fn", "enabled", "repeat", "cost", "idle_only", "may",
                 "urgent", "foreign")

    def __init__(self, name, fn, enabled=None, repeat=False, cost=1,
                 idle_only=False, may=False, urgent=False, foreign=False):
        self.name = name
        self.fn = fn
        self.enabled = enabled
        self.repeat = repeat
        self.cost = cost
        self.idle_only = idle_only
        self.may = may
        self.foreign = foreign
        self.urgent = urgent      # time does not pass while it is enabled


_seq = 0


class VFuture(asyncio.Future):
    # deterministic order in sets
    def __init__(self, *, loop=None):
        super().__init__(loop=loop)
        n = getattr(loop, "_mc_seq", 0)
        try:
            loop._mc_seq = n + 1
        except AttributeError:
            pass
        self._mc_id = n

    def __hash__(self):
        return self._mc_id


class VTask(asyncio.Task):
    def __init__(self, coro, *, loop=None, name=None, context=None, **kw):
        n = getattr(loop, "_mc_seq", 0)
        loop._mc_seq = n + 1
        self._mc_id = n
        super().__init__(coro, loop=loop, name=name or "t%d" % n,
                         context=context, **kw)
        loop._mc_tasks.append(self)

    def __hash__(self):
        return self._mc_id


class VLoop(asyncio.BaseEventLoop):
    MAX_STEPS = 4000

    def __init__(self, ch, start_time=1000.0, idle_cost=0, slow=False):
        super().__init__()
        self.ch = ch
        self.vtime = float(start_time)
        self._clock_resolution = 1e-9
        self._mc_seq = 0
        self._mc_tasks = []
        self.actions = []
        self._batch = 0
        self.steps = 0
        self.iteration = 0
        self.idle_cost = idle_cost
        self.slow = slow                 # timers may overtake ready callbacks
        self.unhandled = []
        self.on_quiescent = None
        self.step_hook = None
        self.exec_log = []
        self.exec_inline = True
        self.max_time = None
        self.set_exception_handler(self._on_unhandled)
        self.set_task_factory(self._factory)
        self._exec_n = 0
        self.exec_urgent = False
        self.in_executor = False         # a call handed to an executor is running
        self._asleep = False             # a foreign action runs while the loop is blocked
        self._unwoken = []

    # -- plumbing ---------------------------------------------------------
    @staticmethod
    def _factory(loop, coro, **kw):
        return VTask(coro, loop=loop, **kw)

    def create_future(self):
        return VFuture(loop=self)

    def _on_unhandled(self, loop, context):
        self.unhandled.append(context)

    def time(self):
        return self.vtime

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def call_soon(self, callback, *args, context=None):
        h = super().call_soon(callback, *args, context=context)
        if self._asleep:
            self._ready.pop()
            self._unwoken.append(h)
        return h

    def call_soon_threadsafe(self, callback, *args, context=None):
        if self._asleep:
            self._asleep = False
            self._wake()
            h = super().call_soon_threadsafe(callback, *args, context=context)
            return h
        return super().call_soon_threadsafe(callback, *args, context=context)

    def _wake(self):
        self._ready.extend(self._unwoken)
        del self._unwoken[:]

    # -- driver API -------------------------------------------------------
    def act(self, name, fn, enabled=None, **kw):
        a = Action(name, fn, enabled, **kw)
        self.actions.append(a)
        return a

    def run_in_executor(self, executor, func, *args):
        """Virtual executor: the call happens at a moment chosen by the driver."""
        fut = self.create_future()
        self._exec_n += 1

        def fire():
            if fut.cancelled():
                return
            self.in_executor = True
            try:
                r = func(*args)
            except BaseException as e:
                if isinstance(e, StopIteration):
                    e = RuntimeError("StopIteration")
                fut.set_exception(e)
            else:
                fut.set_result(r)
            finally:
                self.in_executor = False

        self.act("exec%d" % self._exec_n, fire, urgent=self.exec_urgent)
        return fut

    # -- one step ---------------------------------------------------------
    def _enabled(self, idle):
        out = []
        for a in self.actions:
            if a.idle_only and not idle:
                continue
            if a.enabled is None or a.enabled():
                out.append(a)
        return out

    def _fire(self, a, idle=False):
        if not a.repeat:
            self.actions.remove(a)
        if a.foreign and idle:
            self._asleep = True
            try:
                a.fn()
            finally:
                self._asleep = False
        else:
            if self._unwoken:
                self._wake()
            a.fn()

    def _due(self):
        sched = self._scheduled
        while sched and sched[0]._cancelled:
            h = heapq.heappop(sched)
            h._scheduled = False
            self._timer_cancelled_count -= 1
        return sched

    def _collect_timers(self):
        sched = self._due()
        end = self.vtime + self._clock_resolution
        while sched and sched[0]._when <= end:
            h = heapq.heappop(sched)
            h._scheduled = False
            if not h._cancelled:
                self._ready.append(h)
            self._due()

    def _advance(self):
        sched = self._due()
        if sched:
            if sched[0]._when > self.vtime:
                self.vtime = sched[0]._when
            if self.max_time is not None and self.vtime > self.max_time:
                raise Quiescent("virtual time horizon")

    def _run_once(self):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Livelock("more than %d callbacks" % self.MAX_STEPS)
        ready = self._ready
        while ready and ready[0]._cancelled:
            ready.popleft()
            if self._batch > 0:
                self._batch -= 1
        if self._batch <= 0:
            self._collect_timers()
            self._batch = len(ready)
            self.iteration += 1
        if ready:
            acts = self._enabled(False) if self.actions else ()
            extra = 1 if (self.slow and self._due() and
                          self._scheduled[0]._when > self.vtime) else 0
            if acts or extra:
                c = self.ch.choose(
                    (0,) + tuple([a.cost for a in acts]) + (1,) * extra, "ready",
                    ["run"] + [a.name for a in acts] + ["slow"] * extra)
                if c:
                    if c <= len(acts):
                        self._fire(acts[c - 1])
                    else:
                        self._advance()
                        self._collect_timers()
                    return
            h = ready.popleft()
            self._batch -= 1
            if not h._cancelled:
                h._run()
                if self.step_hook is not None:
                    self.step_hook()
            h = None
            return
        acts = self._enabled(True) if self.actions else []
        must = [a for a in acts if not a.may]
        may = [a for a in acts if a.may]
        options = must[:]
        if self._due() and not any(a.urgent for a in must):
            options.append("time")
        if not options:
            options.append("quiescent")
        costs = [self.idle_cost] * len(options) + [a.cost for a in may]
        costs[0] = 0
        options += may
        c = 0
        if len(options) > 1:
            c = self.ch.choose(tuple(costs), "idle",
                               [getattr(a, "name", a) for a in options])
        o = options[c]
        if o == "time":
            if self._unwoken:
                self._wake()
            self._advance()
        elif o == "quiescent":
            if self.on_quiescent is not None and self.on_quiescent():
                return
            raise Quiescent("nothing left to run")
        else:
            self._fire(o, True)


def leftover(loop):
    """Tasks created on this loop which have not finished."""
    return [t for t in loop._mc_tasks if not t.done()]


class Stuck(Exception):
    pass


def run_loop(loop, main):
    """Run coroutine `main` on the loop.

    Returns its result; raises Stuck when the execution cannot proceed."""
    try:
        try:
            return loop.run_until_complete(main)
        except Quiescent as e:
            raise Stuck("stuck: %s" % e)
        except Livelock as e:
            raise Stuck("livelock: %s" % e)
    finally:
        for t in loop._mc_tasks:
            t._log_destroy_pending = False
            tasks._unregister_task(t)     # else equal hashes pile up there
        loop._mc_tasks.clear()
        loop._ready.clear()
        loop._scheduled.clear()
        loop.actions.clear()
        try:
            loop.close()
        except RuntimeError:
            pass
