"""A controlled scheduler for real threads.

Exactly one controlled thread runs at any moment (they pass a baton), so that
every execution is a sequence of decisions taken by the Chooser:

* at a scheduling point (operation of a substituted threading/queue/time
  primitive, call_soon_threadsafe, loop callback, and - in line mode - every
  source line of aiomisc) the running thread goes on (default) or another
  enabled thread is switched to (a preemption, cost 1);
* when the running thread blocks or ends, the enabled thread created first is
  next by default, any other one costs 1 (a delay);
* virtual time advances when no thread is enabled; letting it advance earlier
  (a timeout overtakes a runnable thread) costs 1.

Bounding the total cost is delay-bounded scheduling: the exploration is
exhaustive for all schedules with at most that many deviations.
"""
import _thread
import asyncio
import collections
import contextvars
import importlib
import queue as real_queue
import sys
import threading as real_threading
import time as real_time
import types

from .core import Livelock, Violation
from .vloop import Quiescent, Stuck, VLoop, run_loop

ACTIVE = None          # the scheduler of the execution in progress


class SchedAbort(BaseException):
    """The execution is over; unwinds the remaining threads."""


# -- carriers: real threads which are reused between executions -------------

class _Carrier:
    def __init__(self):
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.job = None
        _thread.start_new_thread(self.loop, ())

    def loop(self):
        while True:
            self.lock.acquire()
            job, self.job = self.job, None
            try:
                job(self)
            except BaseException:
                pass
            job = None


_IDLE = []
_PID = None


def _carrier():
    global _PID
    import os
    if _PID != os.getpid():
        _IDLE.clear()
        _PID = os.getpid()
    return _IDLE.pop() if _IDLE else _Carrier()


class VT:
    __slots__ = ("name", "baton", "pred", "deadline", "done", "seq", "started", "ident",
                 "spin", "error", "aborts", "what", "obj")

    def __init__(self, name, seq):
        self.name = name
        self.seq = seq
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.started = False
        self.ident = None
        self.spin = 0
        self.error = None
        self.aborts = 0
        self.what = None
        self.obj = None

    def __repr__(self):
        return "<%s %s>" % (self.name, "done" if self.done else self.what or "running")


class Sched:
    MAX_POINTS = 60000
    SPIN = 400

    def __init__(self, ch, lines=False, start_time=1000.0, tick=0.002):
        self.ch = ch
        self.lines = lines
        self.now = float(start_time)
        self.tick = tick
        self.threads = []
        self.abort = False
        self.stuck = None
        self.npoints = 0
        self.main = self._new("main")
        self.main.ident = _thread.get_ident()
        self.main.started = True
        self.current = self.main
        self.objseq = 0
        self.idle_acts = None
        self.fire = None
        self.leaked = 0

    def _new(self, name):
        vt = VT(name, len(self.threads))
        self.threads.append(vt)
        return vt

    def mine(self):
        return self.current.ident == _thread.get_ident()

    # -- decisions --------------------------------------------------------
    def _enabled(self, t):
        if t.done or not t.started:
            return False
        if t.pred is None:
            return True
        if t.deadline is not None and t.deadline <= self.now + 1e-9:
            return True
        return bool(t.pred())

    def _switch(self, t):
        me = self.current
        if t is me:
            return
        self.current = t
        t.baton.release()
        me.baton.acquire()
        if self.abort:
            self._raise_abort(me)
        if me is self.main and self.stuck is not None:
            raise Quiescent(self.stuck)

    def _raise_abort(self, me):
        if me is self.main:
            return
        me.aborts += 1
        if me.aborts > 60:
            self.leaked += 1
            me.done = True
            self.main.baton.release()
            lock = _thread.allocate_lock()
            lock.acquire()
            lock.acquire()       # parked for ever
        raise SchedAbort()

    def point(self, label):
        me = self.current
        if self.abort:
            self._raise_abort(me)
            return
        self.npoints += 1
        if self.npoints > self.MAX_POINTS:
            self._end("livelock: more than %d points" % self.MAX_POINTS)
        others = [t for t in self.threads if t is not me and self._enabled(t)]
        if not others:
            me.spin = 0
            return
        me.spin += 1
        if me.spin > self.SPIN:
            me.spin = 0
            c = self.ch.choose((0,) + (1,) * (len(others) - 1), "forced", [t.name for t in others])
            self._switch(others[c])
            return
        c = self.ch.choose((0,) + (1,) * len(others), label,
                           [me.name] + [t.name for t in others])
        if c:
            me.spin = 0
            self._switch(others[c - 1])

    def yield_(self, label):
        """Let any other enabled thread run."""
        me = self.current
        if self.abort:
            self._raise_abort(me)
            return
        others = [t for t in self.threads if t is not me and self._enabled(t)]
        me.spin = 0
        if others:
            c = self.ch.choose((0,) + (1,) * (len(others) - 1), label, [t.name for t in others])
            self._switch(others[c])

    def _next(self, me):
        """Choose the thread to run, me being blocked (or done)."""
        while True:
            en = [t for t in self.threads if self._enabled(t)]
            deadlines = [t.deadline for t in self.threads
                         if not t.done and t.started and t.pred is not None
                         and t.deadline is not None and t.deadline > self.now + 1e-9]
            if en:
                costs = (0,) + (1,) * (len(en) - 1 + bool(deadlines))
                c = 0
                if len(costs) > 1:
                    c = self.ch.choose(costs, "next", [t.name for t in en] + ["time"])
                if c < len(en):
                    return en[c]
                self.now = min(deadlines)
                continue
            acts = self.idle_acts() if self.idle_acts is not None else ()
            if acts:
                opts = list(acts) + (["time"] if deadlines else [])
                c = self.ch.choose((0,) + (1,) * (len(opts) - 1), "idle",
                                   [getattr(a, "name", a) for a in opts]) if len(opts) > 1 else 0
                if opts[c] != "time":
                    self.fire = opts[c]
                    return self.main
            if not deadlines:
                self.stuck = "deadlock: " + ", ".join(
                    "%s in %s" % (t.name, t.what) for t in self.threads
                    if not t.done and t.started)
                return self.main
            self.now = min(deadlines)

    def _end(self, why):
        """Give up this execution: the main thread raises."""
        self.stuck = why
        if self.current is self.main:
            raise Quiescent(why)
        self._switch(self.main)

    def block(self, pred, timeout=None, what=""):
        me = self.current
        if self.abort:
            self._raise_abort(me)
            return False
        me.spin = 0
        me.deadline = None if timeout is None else self.now + max(0, timeout)
        me.pred = pred
        me.what = what
        try:
            t = self._next(me)
            if t is not me:
                self._switch(t)
            if me is self.main and self.stuck is not None:
                raise Quiescent(self.stuck)
            return bool(pred())
        finally:
            me.pred = None
            me.deadline = None
            me.what = None

    # -- threads ----------------------------------------------------------
    def spawn(self, fn, name):
        vt = self._new(name)

        def job(carrier):
            vt.baton.acquire()
            vt.ident = _thread.get_ident()
            try:
                if not self.abort:
                    contextvars.Context().run(fn)
            except SchedAbort:
                pass
            except BaseException as e:
                vt.error = e
            vt.done = True
            if self.abort:
                _IDLE.append(carrier)
                self.main.baton.release()
                return
            try:
                nxt = self._next(vt)
            except BaseException as e:
                self.stuck = "internal: %r" % e
                nxt = self.main
            _IDLE.append(carrier)
            self.current = nxt
            nxt.baton.release()

        c = _carrier()
        c.job = job
        vt.started = True
        c.lock.release()
        return vt

    def finish(self):
        """Unwind everything (called by the main thread)."""
        self.abort = True
        for t in list(self.threads):
            while t is not self.main and not t.done:
                self.current = t
                t.baton.release()
                self.main.baton.acquire()
                self.current = self.main
        self.current = self.main


def sched():
    s = ACTIVE
    if s is None or s.current.ident != _thread.get_ident():
        return None
    return s


# -- primitives ---------------------------------------------------------------

_seq = [0]


class _Obj:
    def _init_obj(self):
        s = sched()
        if s is not None:
            s.objseq += 1
            self._mc_id = s.objseq
        else:
            _seq[0] += 1
            self._mc_id = -_seq[0]

    def __hash__(self):
        return self._mc_id

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


class VEvent(_Obj):
    def __init__(self):
        self._init_obj()
        self._flag = False

    def is_set(self):
        s = sched()
        if s is not None:
            s.point("is_set")
        return self._flag

    isSet = is_set

    def set(self):
        s = sched()
        if s is not None:
            s.point("set")
        self._flag = True

    def clear(self):
        s = sched()
        if s is not None:
            s.point("clear")
        self._flag = False

    def wait(self, timeout=None):
        s = sched()
        if s is None:
            return self._flag
        s.point("wait")
        if not self._flag:
            s.block(lambda: self._flag, timeout, "Event.wait")
        return self._flag


class VLock(_Obj):
    reentrant = False

    def __init__(self):
        self._init_obj()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = sched()
        me = s.current if s is not None else None
        if s is not None:
            s.point("acquire")
        if self.reentrant and self._count and self._owner is me:
            self._count += 1
            return True
        if self._count:
            if s is None:
                if self._owner is not None and (ACTIVE is None):
                    self._count = 0      # owner belongs to a finished execution
                else:
                    raise RuntimeError("lock would block")
            elif not blocking:
                return False
            else:
                t = None if timeout is None or timeout < 0 else timeout
                if not s.block(lambda: not self._count, t, "Lock.acquire"):
                    return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s = sched()
        if s is None and not self._count:
            return
        if not self._count:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and s is not None and self._owner is not s.current:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            if s is not None and not s.abort:
                s.point("release")

    def locked(self):
        return bool(self._count)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s = sched()
        return self._count > 0 and (s is None or self._owner is s.current)

    def _at_fork_reinit(self):
        self._count = 0
        self._owner = None


class VRLock(VLock):
    reentrant = True


class VCondition(_Obj):
    def __init__(self, lock=None):
        self._init_obj()
        self._lock = lock if lock is not None else VRLock()
        self._waiters = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        s = sched()
        if s is None:
            return True
        token = [False]
        self._waiters.append(token)
        count, owner = self._lock._count, self._lock._owner
        self._lock._count, self._lock._owner = 0, None
        try:
            s.block(lambda: token[0], timeout, "Condition.wait")
        finally:
            if token in self._waiters:
                self._waiters.remove(token)
            if self._lock._count and not s.abort:
                s.block(lambda: not self._lock._count, None, "Condition.reacquire")
            self._lock._count, self._lock._owner = count, owner
        return token[0]

    def wait_for(self, predicate, timeout=None):
        s = sched()
        end = None if timeout is None else s.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        for token in self._waiters[:n]:
            token[0] = True
        del self._waiters[:n]
        s = sched()
        if s is not None:
            s.point("notify")

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class VSemaphore(_Obj):
    def __init__(self, value=1):
        self._init_obj()
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        s = sched()
        if s is not None:
            s.point("sem")
            if not self._value:
                if not blocking:
                    return False
                if not s.block(lambda: self._value > 0, timeout, "Semaphore"):
                    return False
        self._value -= 1
        return True

    def release(self, n=1):
        s = sched()
        if s is not None:
            s.point("semrel")
        self._value += n

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class VThread(_Obj):
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *,
                 daemon=None):
        self._init_obj()
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or "Thread-%d" % self._mc_id
        self.daemon = bool(daemon)
        self._vt = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = sched()
        if s is None:
            raise RuntimeError("thread started outside of a controlled execution")
        if self._vt is not None:
            raise RuntimeError("threads can only be started once")
        self._vt = s.spawn(self.run, self.name)
        self._vt.obj = self
        s.point("start")

    def is_alive(self):
        return self._vt is not None and not self._vt.done

    def join(self, timeout=None):
        s = sched()
        if s is not None and self._vt is not None and not self._vt.done:
            vt = self._vt
            s.block(lambda: vt.done, timeout, "join")

    @property
    def ident(self):
        return self._vt.ident if self._vt else None


class VTimer(VThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(target=self._go)
        self._iv, self._fn, self._a, self._k = interval, function, args or (), kwargs or {}
        self.finished = VEvent()

    def cancel(self):
        self.finished.set()

    def _go(self):
        if not self.finished.wait(self._iv):
            self._fn(*self._a, **self._k)


class VSimpleQueue(_Obj):
    def __init__(self):
        self._init_obj()
        self._q = collections.deque()

    def put(self, item, block=True, timeout=None):
        s = sched()
        if s is not None:
            s.point("put")
        self._q.append(item)

    def put_nowait(self, item):
        self.put(item)

    def get(self, block=True, timeout=None):
        s = sched()
        if s is not None:
            s.point("get")
            if not self._q and block:
                s.block(lambda: bool(self._q), timeout, "SimpleQueue.get")
        if not self._q:
            raise real_queue.Empty
        return self._q.popleft()

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._q

    def qsize(self):
        return len(self._q)


class VQueue(_Obj):
    def __init__(self, maxsize=0):
        self._init_obj()
        self.maxsize = maxsize
        self.queue = collections.deque()
        self.unfinished_tasks = 0

    def __class_getitem__(cls, item):
        return cls

    def full(self):
        return 0 < self.maxsize <= len(self.queue)

    def empty(self):
        return not self.queue

    def qsize(self):
        return len(self.queue)

    def put(self, item, block=True, timeout=None):
        s = sched()
        if s is not None:
            s.point("put")
            if self.full() and block:
                s.block(lambda: not self.full(), timeout, "Queue.put")
        if self.full():
            raise real_queue.Full
        self.queue.append(item)
        self.unfinished_tasks += 1

    def put_nowait(self, item):
        return self.put(item, False)

    def get(self, block=True, timeout=None):
        s = sched()
        if s is not None:
            s.point("get")
            if not self.queue and block:
                s.block(lambda: bool(self.queue), timeout, "Queue.get")
        if not self.queue:
            raise real_queue.Empty
        return self.queue.popleft()

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        self.unfinished_tasks -= 1

    def join(self):
        s = sched()
        if s is not None and self.unfinished_tasks:
            s.block(lambda: not self.unfinished_tasks, None, "Queue.join")


def _sleep(secs):
    s = sched()
    if s is None:
        return
    s.point("sleep")
    if secs > 0:
        s.block(lambda: False, secs, "sleep")


def _monotonic():
    s = ACTIVE
    return s.now if s is not None else real_time.monotonic()


def _time():
    s = sched()
    if s is None:
        return ACTIVE.now if ACTIVE is not None else real_time.time()
    s.now += s.tick
    return s.now


# -- substituted modules --------------------------------------------------------

class _Shim(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, key):
        return getattr(self.__dict__["_real"], key)


def _current_thread():
    s = sched()
    if s is not None and s.current.obj is not None:
        return s.current.obj
    return real_threading.current_thread()


threading = _Shim(real_threading, {
    "Event": VEvent, "Lock": VLock, "RLock": VRLock, "Condition": VCondition,
    "Semaphore": VSemaphore, "BoundedSemaphore": VSemaphore, "Thread": VThread,
    "Timer": VTimer, "current_thread": _current_thread,
})
queue = _Shim(real_queue, {"Queue": VQueue, "SimpleQueue": VSimpleQueue})
time = _Shim(real_time, {
    "sleep": _sleep, "monotonic": _monotonic, "time": _time, "perf_counter": _monotonic,
    "monotonic_ns": lambda: int(_monotonic() * 1e9), "time_ns": lambda: int(_monotonic() * 1e9),
})

_loaded = False
TOOL = 3


def _codes(code, out):
    out.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes(c, out)


def _on_line(code, line):
    s = ACTIVE
    if s is None or not s.lines or s.current.ident != _thread.get_ident():
        return
    s.point((code.co_name, line))


def load(line_modules=()):
    """(Re-)import aiomisc on top of the substituted modules."""
    global _loaded
    if _loaded:
        return
    import aiomisc  # noqa: every dependency is loaded with the real modules
    names = [n for n in sys.modules
             if n.split(".")[0] in ("aiomisc", "aiomisc_log", "aiomisc_worker")]
    for n in names:
        del sys.modules[n]
    saved = {n: sys.modules[n] for n in ("threading", "queue", "time")}
    sys.modules["threading"] = threading
    sys.modules["queue"] = queue
    sys.modules["time"] = time
    try:
        for n in sorted(names):
            try:
                importlib.import_module(n)
            except ImportError:
                pass
    finally:
        sys.modules.update(saved)
    _loaded = True
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "mc")
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    for n in line_modules:
        m = sys.modules[n]
        with open(m.__file__) as f:
            pass
        codes = []
        seen = set()

        def walk(obj):
            if isinstance(obj, (staticmethod, classmethod)):
                obj = obj.__func__
            if isinstance(obj, property):
                for f in (obj.fget, obj.fset):
                    if f is not None:
                        walk(f)
                return
            obj = getattr(obj, "__wrapped__", obj)
            if isinstance(obj, types.FunctionType):
                if obj.__code__.co_filename == m.__file__:
                    _codes(obj.__code__, codes)
            elif isinstance(obj, type) and obj.__module__ == n and obj not in seen:
                seen.add(obj)
                for v in list(vars(obj).values()):
                    walk(v)
        for v in list(vars(m).values()):
            walk(v)
        for c in codes:
            mon.set_local_events(TOOL, c, mon.events.LINE)


# -- the loop ---------------------------------------------------------------------

class TLoop(VLoop):
    """Event loop running in the main controlled thread."""
    MAX_STEPS = 20000

    def __init__(self, ch, s, slow=False):
        self.s = s
        super().__init__(ch, s.now, slow=slow)
        self.spins = 0
        self._woken = False
        s.idle_acts = lambda: [a for a in self._enabled(True) if not a.may] if self.actions else ()

    @property
    def vtime(self):
        return self.s.now

    @vtime.setter
    def vtime(self, v):
        if v > self.s.now:
            self.s.now = v

    def run_in_executor(self, executor, func, *args):
        return asyncio.BaseEventLoop.run_in_executor(self, executor, func, *args)

    def _write_to_self(self):
        self._woken = True

    def call_soon_threadsafe(self, callback, *args, context=None):
        s = sched()
        if s is not None and s.current is not s.main:
            s.point("call_soon_threadsafe")
        return super().call_soon_threadsafe(callback, *args, context=context)

    def _run_once(self):
        s = self.s
        if s.stuck is not None:
            raise Quiescent(s.stuck)
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Livelock("more than %d callbacks" % self.MAX_STEPS)
        ready = self._ready
        while ready and ready[0]._cancelled:
            ready.popleft()
            if self._batch > 0:
                self._batch -= 1
        if self._batch <= 0:
            self._collect_timers()
            self._batch = len(ready)
            self.iteration += 1
            self.spins += 1
            if self.spins > 30:
                self.spins = 0
                s.yield_("spinning")
        if ready:
            acts = self._enabled(False) if self.actions else ()
            if acts:
                c = self.ch.choose((0,) + tuple([a.cost for a in acts]), "ready",
                                   ["run"] + [a.name for a in acts])
                if c:
                    self._fire(acts[c - 1])
                    return
            s.point("callback")
            h = ready.popleft()
            self._batch -= 1
            if not h._cancelled:
                h._run()
                if self.step_hook is not None:
                    self.step_hook()
            h = None
            return
        self.spins = 0
        may = [a for a in self._enabled(True) if a.may] if self.actions else ()
        if may:
            c = self.ch.choose((0,) + tuple([a.cost for a in may]), "idle-may",
                               ["wait"] + [a.name for a in may])
            if c:
                self._fire(may[c - 1])
                return
        due = self._due()
        timeout = due[0]._when - s.now if due else None
        # only a wake-up (not a bare call_soon of another thread) ends the wait
        s.block(lambda: self._woken or s.fire is not None, timeout, "loop")
        self._woken = False
        if s.fire is not None:
            a, s.fire = s.fire, None
            if a in self.actions and (a.enabled is None or a.enabled()):
                self._fire(a)


def run(ch, main, lines=False, tick=0.002, use_loop=True):
    """Run `main(s, loop)` (coroutine function, or plain function without a loop).

    Returns its result; raises Stuck when nothing can proceed."""
    global ACTIVE
    from asyncio import base_events
    import logging
    s = Sched(ch, lines, tick=tick)
    ACTIVE = s
    saved = base_events.threading, logging.threading
    base_events.threading = threading
    logging.threading = threading
    try:
        if use_loop:
            loop = TLoop(ch, s)
            from aiomisc._context_vars import EVENT_LOOP
            EVENT_LOOP.set(loop)
            asyncio.set_event_loop(loop)
            return run_loop(loop, main(s, loop))
        try:
            return main(s)
        except Quiescent as e:
            raise Stuck(str(e))
    finally:
        s.finish()
        ACTIVE = None
        base_events.threading, logging.threading = saved
        if use_loop:
            asyncio.set_event_loop(None)
