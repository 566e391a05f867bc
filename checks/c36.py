"""C36: the supervisor of the worker processes (both implementations)."""
import atexit
import functools
import gc
import inspect
import io
import os
import pickle
import signal
import struct
import subprocess
import sys
import threading
import time

import aiomisc_worker.forking as forking
import aiomisc_worker.process as process
import aiomisc_log
import aiomisc_worker.process_inner as inner
import aiomisc_worker.worker as working
from aiomisc_worker import INT_SIGNAL
from mc.core import Violation
from mc.run import Unit

PROPERTY = "C36"
ASSUMPTIONS = [
    "fork, wait, Popen, kill, signal and atexit are substituted; a child is explored as an "
    "execution of its own",
    "the interrupt comes while the supervisor waits for its workers or between the lines of "
    "its loop, not in the middle of a fork",
]
BASE = 1 << 23
ADDRESS, COOKIE = "/nonexistent/x.sock", b"c" * 128
INIT = []
DEFAULT_HANDLER = signal.getsignal(INT_SIGNAL)
MODULES = [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "aiomisc_worker"]
EVENTS = type(threading.Event())


def reset():
    """The module state of a fresh process."""
    for m in (forking, process):
        for k, v in list(vars(m).items()):
            if isinstance(v, EVENTS):
                v.clear()
            elif type(v) is dict and not k.startswith("__"):
                v.clear()


def tables():
    """Dictionaries of the supervisor, wherever it keeps them."""
    for v in list(vars(forking).values()):
        if type(v) is dict:
            yield v
        elif type(v).__module__ == forking.__name__:
            yield from (x for x in getattr(v, "__dict__", {}).values() if type(x) is dict)


def ordered(real, got):
    """The call (address, cookie, worker_id, ...) however it is spelt."""
    sig = inspect.signature(real)

    def call(*a, **kw):
        b = sig.bind(*a, **kw)
        return got(*(b.arguments[k] for k in sig.parameters))
    return call


def good_init(*a, **kw):
    INIT.append((a, kw))


class InitBoom(Exception):
    pass


def bad_init(*a, **kw):
    INIT.append((a, kw))
    raise InitBoom("init")


def exit_init(*a, **kw):
    INIT.append((a, kw))
    raise SystemExit(3)


def pack(o):
    d = pickle.dumps(o)
    return struct.pack("!L", len(d)) + d


class Fatal(BaseException):
    pass


class Stdin:
    def __init__(self, data):
        self.buffer = io.BytesIO(data)
        self.closed = False

    def close(self):
        self.closed = True


class Child:
    def __init__(self, pid, ident):
        self.pid = pid
        self.ident = ident
        self.status = None
        self.reaped = False
        self.killed = []


class World:
    def __init__(self, ch, ids, child=None, ending="return", deaths=2, lines=False):
        self.ch = ch
        self.ids = ids
        self.child = child          # which fork continues as the child
        self.ending = ending
        self.deaths = deaths
        self.lines = lines
        self.kids = []
        self.handlers = {}
        self.exits = []
        self.interrupted = False
        self.waits = 0
        self.inchild = False
        self.worked = None
        self.reports = []
        self.config = None
        self.exiting = False
        self.alone = 0
        self.foreign = 0

    def bad(self, msg, key=None):
        sys.settrace(None)
        self.ch.fail(msg, key)
        return Fatal()

    # -- substituted primitives
    def fork(self):
        if self.interrupted:
            raise self.bad("a worker is started after the interrupt", "late-fork")
        if self.inchild:
            raise self.bad("the child forks")
        n = len(self.kids)
        if n > 12:
            raise self.bad("endless restarts", "endless")
        k = Child(BASE + n, None)
        self.kids.append(k)
        if self.child == n:
            self.inchild = True
            return 0
        return k.pid

    def worker(self, address, cookie, worker_id):
        if not self.inchild:
            raise self.bad("the supervisor itself works", "works")
        self.worked = (address, cookie, worker_id)
        h = self.handlers.get(INT_SIGNAL, signal.default_int_handler)
        if h is not signal.default_int_handler and h not in (signal.SIG_DFL, signal.SIG_IGN):
            if h is not DEFAULT_HANDLER:
                raise self.bad("the worker keeps the handler of the supervisor", "handler")
        if self.ending == "exit0":
            raise SystemExit(0)
        if self.ending == "exitnone":
            raise SystemExit
        if self.ending == "exit3":
            raise SystemExit(3)
        if self.ending == "exc":
            raise RuntimeError("worker")

    def sync(self):
        """At every wait: exactly one worker per identity."""
        m = dict(self.mapping())
        want = {}
        for i, ident in enumerate(self.ids):
            gens = [k for k in self.kids if k.ident == ident]
            if not gens:
                raise self.bad("identity %d has no worker" % i, "missing")
            if any(k.status is None for k in gens[:-1]):
                raise self.bad("identity %d has two workers" % i, "double")
            last = gens[-1]
            if last.status not in (None, 0) and last.reaped:
                raise self.bad("the died worker %d was not restarted" % i, "not-restarted")
        if len(self.kids) != sum(1 for k in self.kids if k.ident in self.ids):
            raise self.bad("unknown identity", "identity")

    def mapping(self):
        for k in self.kids:
            if k.ident is None:
                for t in tables():
                    for v in (t.get(k.pid), *(i for i in self.ids if t.get(i) == k.pid)):
                        if v in self.ids:
                            k.ident = v
        return [(k.pid, k.ident) for k in self.kids]

    def wait(self):
        return self.waitpid(-1, 0)

    def waitpid(self, pid, options):
        if self.inchild:
            raise self.bad("the child waits")
        if self.interrupted:
            raise self.bad("waits after the interrupt", "late-wait")
        self.sync()
        self.waits += 1
        live = [k for k in self.kids if k.status is None]
        if not live:
            self.alone += 1
            if self.alone > 2:
                raise self.bad("keeps waiting after all its workers have ended", "alone")
            raise ChildProcessError(10, "no child processes")
        opts = []
        if self.foreign > 0:
            opts += [(None, 0), (None, 256)]
        if self.deaths > 0 and live:
            for k in live:
                for st in (256, 0, 9, 15):
                    opts.append((k, st))
        opts.append("interrupt")
        o = self.ch.pick(opts, "wait")
        if o == "interrupt":
            self.interrupt()
            return self.waitpid(pid, options)
        k, st = o
        if k is None:
            self.foreign -= 1
            self.ch.observe("other child", st)
            return BASE - 1, st
        if st != 0:
            self.deaths -= 1
        k.status = st
        self.lastdied = k.ident
        k.reaped = True
        self.ch.observe("died", self.ids.index(k.ident), st)
        return k.pid, st

    def interrupt(self):
        self.ch.observe("interrupt")
        self.interrupted = True
        h = self.handlers.get(INT_SIGNAL)
        if not callable(h):
            raise self.bad("no handler for the interrupt", "handler")
        h(INT_SIGNAL, None)

    def kill(self, pid, sig):
        for k in self.kids:
            if k.pid == pid:
                if k.reaped and not self.lines:
                    raise self.bad("a finished worker is signalled", "kill-dead")
                if self.inchild:
                    raise self.bad("a child signals other workers", "sibling")
                if not self.exiting:
                    raise self.bad("a worker is signalled before the end", "kill-early")
                k.killed.append(sig)
                return
        raise self.bad("unknown process %r is signalled" % pid, "kill")

    def signal(self, sig, h):
        old = self.handlers.get(sig, signal.default_int_handler)
        self.handlers[sig] = h
        return old

    def finish(self):
        """The end of the process: what was registered runs."""
        self.exiting = True
        for f in reversed(self.exits):
            f()

    # -- interrupts between lines
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename == forking.__file__ and frame.f_code.co_name == "main":
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.waits > 0 and not self.interrupted and not self.inchild:
            if self.ch.pick((False, True), "line %d" % frame.f_lineno, cost=1):
                self.interrupt()
        return self._local


def configure(w):
    sig = inspect.signature(aiomisc_log.basic_config)

    def basic_config(*a, **kw):
        w.config = sig.bind(*a, **kw).arguments
    return basic_config


REAL_OS = {n: getattr(os, n) for n in ("fork", "wait", "waitpid", "kill")}


def patched(w, mod, fn, data, names):
    saved = []

    def put(obj, name, value):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)
    fake_os = {"fork": w.fork, "wait": w.wait, "waitpid": w.waitpid, "kill": w.kill}
    for n, v in fake_os.items():
        put(os, n, v)
    put(signal, "signal", w.signal)
    put(atexit, "register", lambda f, *a, **k: w.exits.append(functools.partial(f, *a, **k)) or f)
    put(atexit, "unregister", lambda f: w.exits.__setitem__(
        slice(None), [p for p in w.exits if p.func != f]))
    put(sys, "stdin", Stdin(data))
    reals = {"worker": working.worker, "bad_initializer": working.bad_initializer,
             "basic_config": aiomisc_log.basic_config, "Popen": subprocess.Popen, "sleep": time.sleep}
    for n, v in names.items():
        if n in ("worker", "bad_initializer", "basic_config"):
            v = ordered(reals[n], v) if n != "basic_config" else v
        for m in MODULES + [aiomisc_log, subprocess, time]:
            for k, x in list(vars(m).items()):
                if x is reals[n]:
                    put(m, k, v)
    for v, name in ((w.fork, "fork"), (w.wait, "wait"), (w.waitpid, "waitpid"), (w.kill, "kill")):
        for m in MODULES:
            for k, x in list(vars(m).items()):
                if x is REAL_OS[name]:
                    put(m, k, v)
    enabled = gc.isenabled()
    if w.lines:
        sys.settrace(w._global)
    try:
        r = fn()
        return ("return", r)
    except Violation:
        raise
    except BaseException as e:
        return ("raise", e)
    finally:
        sys.settrace(None)
        w.gc = gc.isenabled()
        (gc.enable if enabled else gc.disable)()
        try:
            if not w.ch.failures:
                w.finish()
        except Fatal:
            pass
        finally:
            for obj, name, v in reversed(saved):
                setattr(obj, name, v)


def handshake(ids, init, args=(1,), kwargs={"a": 2}):
    return b"".join(map(pack, ((10, "plain"), ADDRESS, COOKIE, tuple(ids), (init, args, kwargs))))


def sc_fork(ch, n, init=None, child=None, ending="return", deaths=2, lines=False,
            foreign=0):
    ids = [bytes([65 + i]) * 16 for i in range(n)]
    w = World(ch, ids, child, ending, deaths, lines)
    w.foreign = foreign
    INIT.clear()
    reset()
    names = {"worker": w.worker,
             "bad_initializer": lambda *a: w.reports.append(a),
             "basic_config": configure(w)}
    state = dict(vars(forking))
    try:
        how, r = patched(w, forking, forking.main, handshake(ids, init), names)
    finally:
        vars(forking).update(state)
        reset()
    if ch.failures:
        raise ch.failures[0]
    if w.config != {"level": 10, "log_format": "plain"}:
        raise Violation("logging is configured with %r" % w.config, "config")
    if init is not None and INIT != [((1,), {"a": 2})]:
        raise Violation("the initializer ran %r" % INIT, "init")
    if init in (bad_init, exit_init):
        if w.kids or len(w.reports) != 1 or w.reports[0][:3] != (ADDRESS, COOKIE, ids[0]) or \
                not isinstance(w.reports[0][3], InitBoom if init is bad_init else SystemExit):
            raise Violation("failed initializer: %d workers, reports %r" % (
                len(w.kids), w.reports), "init")
        return "badinit"
    if w.reports:
        raise Violation("a report without failure", "init")
    if child is not None:
        if not w.inchild:
            return "not-forked"
        if w.worked is None or w.worked[:2] != (ADDRESS, COOKIE):
            raise Violation("the child worked as %r" % (w.worked,), "child")
        want = ids[child] if child < n else w.lastdied
        if want is not None and w.worked[2] != want:
            raise Violation("the child has the identity %r" % (w.worked[2],), "identity")
        if how != "raise":
            raise Violation("the child continues as a supervisor", "child")
        code = (r.code or 0) if isinstance(r, SystemExit) else 1
        if (code == 0) != (ending == "return"):
            raise Violation("the child which ended by %s exits with %r" % (ending, r), "status")
        return "child"
    live = [k for k in w.kids if k.status is None]
    if w.interrupted:
        if how == "raise" and not isinstance(r, (SystemExit, KeyboardInterrupt)):
            raise Violation("interrupted and ended with %r" % r, "end")
        for k in live:
            if k.killed not in ([signal.SIGTERM], [signal.SIGKILL]):
                raise Violation("worker %d got %r after the interrupt" % (k.pid - BASE, k.killed),
                                "not-terminated")
    else:
        if live:
            raise Violation("ended while workers are alive", "early")
        if how == "raise" and not (isinstance(r, SystemExit) and not r.code):
            raise Violation("ended with %r after all workers have ended" % r, "end")
    return how, len(w.kids)


# --- the implementation with subprocesses

class FakePopen:
    def __init__(self, args, stdin=None, env=None, **kw):
        w = FakePopen.w
        if w.interrupted:
            raise w.bad("a worker is started after the interrupt", "late-fork")
        if args[:2] != [sys.executable, "-m"] or args[2] != "aiomisc_worker.process_inner":
            raise w.bad("runs %r" % args, "args")
        self.w = w
        self.pid = BASE + len(w.procs)
        self.returncode = None
        self.data = bytearray()
        self.killed = []
        self.stdin = self
        w.procs.append(self)
        if len(w.procs) > 12:
            raise w.bad("endless restarts", "endless")

    def write(self, d):
        self.data += bytes(d)
        return len(d)

    def flush(self):
        pass

    def close(self):
        d = bytes(self.data)
        self.msgs = []
        while d:
            n, = struct.unpack("!L", d[:4])
            self.msgs.append(pickle.loads(d[4:4 + n]))
            d = d[4 + n:]

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            self.w.sleep(timeout)
        if self.returncode is None:
            raise subprocess.TimeoutExpired("worker", timeout)
        return self.returncode

    def send_signal(self, sig):
        self.w.kill(self.pid, sig)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)


class PWorld(World):
    def kill(self, pid, sig):
        for p in self.procs:
            if p.pid == pid:
                if p.returncode is not None:
                    raise self.bad("a finished worker is signalled", "kill-dead")
                if not self.exiting:
                    raise self.bad("a worker is signalled before the end", "kill-early")
                p.killed.append(sig)
                return
        raise self.bad("unknown process %r is signalled" % pid, "kill")

    def sleep(self, t):
        ids = []
        for p in self.procs:
            if p.returncode is None:
                if len(p.msgs) != 5 or p.msgs[0] != (10, "plain") or p.msgs[1] != ADDRESS or \
                        p.msgs[2] != COOKIE or p.msgs[4] != (good_init, (1,), {"a": 2}):
                    raise self.bad("worker got %r" % p.msgs, "handshake")
                ids.append(p.msgs[3])
        if sorted(ids) != sorted(self.ids):
            raise self.bad("alive identities: %r" % ids, "identity")
        live = [p for p in self.procs if p.returncode is None]
        opts = ["interrupt"]
        if self.deaths > 0:
            opts += [[p] for p in live]
            opts += [[p, x] for p in live for x in live if p.pid < x.pid]
            opts += ["nothing"]
        o = self.ch.pick(opts, "sleep")
        if o == "interrupt":
            self.interrupted = True
            raise KeyboardInterrupt
        self.deaths -= 1
        if o == "nothing":
            return
        for p in o:
            p.returncode = self.ch.pick((1, 0, -9), "status")


def sc_popen(ch, n, deaths):
    ids = [bytes([65 + i]) * 16 for i in range(n)]
    w = PWorld(ch, ids, deaths=deaths)
    w.procs = []
    FakePopen.w = w
    reset()
    try:
        how, r = patched(w, process, process.main, handshake(ids, good_init),
                         {"Popen": FakePopen, "sleep": w.sleep,
                          "basic_config": configure(w)})
    finally:
        for p in w.procs:
            if p.returncode is None:
                p.returncode = 0
        reset()
    if ch.failures:
        raise ch.failures[0]
    if how != "return":
        raise Violation("ended with %r" % (r,), "end")
    for p in w.procs:
        if not p.killed and p.msgs and p.returncode == 0 and p.pid in w.alive:
            raise Violation("worker %d was not stopped" % (p.pid - BASE), "not-terminated")
    return how, len(w.procs)


def _finish(self):
    self.alive = {p.pid for p in self.procs if p.returncode is None}
    World.finish(self)


PWorld.finish = _finish


def sc_inner(ch, init):
    w = World(ch, ())
    INIT.clear()
    calls = []
    data = b"".join(map(pack, ((10, "plain"), ADDRESS, COOKIE, b"I" * 16,
                               (init, (1,), {"a": 2}))))
    how, r = patched(w, inner, inner.worker_inner, data, {
        "worker": lambda *a: calls.append(a),
        "bad_initializer": lambda *a: w.reports.append(a),
        "basic_config": configure(w)})
    if init is not None and INIT != [((1,), {"a": 2})]:
        raise Violation("the initializer ran %r" % INIT, "init")
    if init in (bad_init, exit_init):
        if calls or len(w.reports) != 1 or w.reports[0][:3] != (ADDRESS, COOKIE, b"I" * 16) or \
                not isinstance(w.reports[0][3], InitBoom if init is bad_init else SystemExit):
            raise Violation("failed initializer: %r %r" % (calls, w.reports), "init")
    elif calls != [(ADDRESS, COOKIE, b"I" * 16)] or w.reports:
        raise Violation("works as %r, reports %r" % (calls, w.reports), "inner")
    return how


def units(tier):
    q = tier == "quick"

    def u(name, fn, *a, bound=1, weight=1, **kw):
        return Unit(name, lambda ch: fn(ch, *a, **kw), bound, weight=weight)

    for n in (1, 2, 3):
        yield u("fork %d" % n, sc_fork, n, deaths=2 if q else 4, weight=n)
        yield u("fork %d, interrupt between lines" % n, sc_fork, n, lines=True,
                deaths=1 if q else 2, weight=2 * n)
        for e in ("return", "exit0", "exitnone", "exit3", "exc"):
            for c in range(n + 2):
                yield u("child %d of %d %s" % (c, n, e), sc_fork, n, child=c, ending=e)
        yield u("fork %d, a child of the initializer" % n, sc_fork, n, init=good_init,
                deaths=1 if q else 2, foreign=2, weight=n)
        for i in (good_init, bad_init, exit_init):
            yield u("%s %d" % (i.__name__, n), sc_fork, n, init=i, deaths=0)
        yield u("popen %d" % n, sc_popen, n, deaths=2 if q else 3)
    for i in (None, good_init, bad_init, exit_init):
        yield u("inner %s" % getattr(i, "__name__", i), sc_inner, i)
