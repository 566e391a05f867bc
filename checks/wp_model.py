"""Harness of the worker pool: the real WorkerPool on a virtual loop; the
supervisor, the worker processes, the sockets and the signals are a model.

The model of a worker process is what C25 establishes about the real one: it
authenticates, answers each request with one packet, answers CANCELLED when a
signal arrives after the request and before the answer is written; a signal
which arrives when the answer is on its way hits the next request.
"""
import asyncio
import functools
import hashlib
import hmac
import inspect
import os
import pickle
import signal
import socket
import struct
import subprocess
from multiprocessing import ProcessError

import aiomisc.utils as utils
import aiomisc.worker_pool as wp
from aiomisc_worker import SIGNAL, PacketTypes
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, run_loop
from mc.vnet import FakeSocket, NetLoop

BASE = 1 << 23                  # no real process has such a pid
WORLD = None
BOOTED = None                   # the secret and the identities of the last pool
_real_kill = os.kill
_real_popen = subprocess.Popen


def _kill(pid, sig):
    w = WORLD
    if w is None:
        if abs(pid) >= BASE:
            raise ProcessLookupError(3, "gone")
        return _real_kill(pid, sig)
    return w.kill(pid, sig)


os.kill = _kill


def job(*a, **kw):
    raise AssertionError("must not run here")


class Boom(Exception):
    def __eq__(self, o):
        return type(o) is Boom and o.args == self.args

    __hash__ = Exception.__hash__


def _refuse(k):
    raise ValueError("cannot be restored %r" % k)


class BadLoad(Exception):
    def __init__(self, k):
        self.k = k

    def __reduce__(self):
        return _refuse, (self.k,)


class BadDump:
    def __reduce__(self):
        raise pickle.PicklingError("cannot be stored")


class Reset(Exception):
    pass


class InitError(Exception):
    pass


def pack(o):
    d = pickle.dumps(o)
    return struct.pack("!L", len(d)) + d


class Stdin:
    def __init__(self, p):
        self.p = p
        self.data = bytearray()
        self.closed = False

    def write(self, d):
        self.data += d
        return len(d)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.p.booted()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Supervisor:
    """Stands for Popen of the supervisor process."""

    def __init__(self, *a, **kw):
        self.w = WORLD
        self.pid = BASE
        self.stdin = Stdin(self)
        self.returncode = None
        self.signals = []
        if self.w is None:
            raise RuntimeError("a process is started outside of a scenario")
        self.w.started(self)

    def booted(self):
        d = bytes(self.stdin.data)
        out = []
        while d:
            n, = struct.unpack("!L", d[:4])
            out.append(pickle.loads(d[4:4 + n]))
            d = d[4 + n:]
        self.w.boot(out)

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        return self.returncode

    def send_signal(self, sig):
        if self.returncode is None:
            self.w.kill(self.pid, sig)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


_real_bind = utils.bind_socket
_real_chmod = os.chmod


def bind_socket(*args, **kw):
    b = inspect.signature(_real_bind).bind(*args, **kw).arguments
    s = FakeSocket(socket.AF_UNIX, socket.SOCK_STREAM)
    WORLD.address = b["address"]
    WORLD.socks.append(s)
    return s


def chmod(path, *a, **kw):
    if WORLD is None or path != WORLD.address:
        return _real_chmod(path, *a, **kw)


def substitute():
    """Everything by which the pool reaches the system; returns what to restore."""
    saved = []
    for real, fake in ((_real_bind, bind_socket), (_real_chmod, chmod), (_real_popen, Supervisor)):
        for m in (wp, utils, os, subprocess):
            for k, v in list(vars(m).items()):
                if v is real:
                    saved.append((m, k, v))
                    setattr(m, k, fake)
    return saved


class Worker:
    n = 0

    def __init__(self, w, i, ident, gen):
        self.w = w
        self.i = i
        self.id = ident
        self.gen = gen
        self.pid = BASE + 1 + i + 100 * gen
        self.t = None
        self.alive = True
        self.gone = False          # the pool can know that it is dead
        self.authed = False
        self.cur = None            # running that call
        self.answer = None         # bytes on the way to the pool
        self.answered = None       # the call the answer is for
        self.requested = False     # the cancel flag of the process
        self.termed = False
        self.pos = 0
        self.cuts = None

    # -- connection
    def connect(self):
        w = self.w
        self.t = t = w.loop.accept(self.i)
        if t is None:
            self.alive = False
            self.gone = True
            return
        t.on_write = lambda t: self.read()
        t.on_close = lambda t: self.closed()
        t.feed(pack((PacketTypes.AUTH, self.id, w.digest(self.id), self.pid)))

    def read(self):
        t = self.t
        while len(t.out) - self.pos >= 4:
            n, = struct.unpack("!L", t.out[self.pos:self.pos + 4])
            if len(t.out) - self.pos - 4 < n:
                return
            p = pickle.loads(bytes(t.out[self.pos + 4:self.pos + 4 + n]))
            self.pos += 4 + n
            self.packet(p)

    def packet(self, p):
        w = self.w
        if not self.authed:
            if p != PacketTypes.AUTH_OK:
                w.fail("worker %d got %r instead of the permission" % (self.i, p), "auth")
            self.authed = True
            return
        if not isinstance(p, tuple) or p[0] != PacketTypes.REQUEST:
            w.fail("worker got %r" % (p,), "packet")
            return
        _, func, args, kwargs = p
        k = args[0]
        if self.gone:
            w.fail("call %d was sent to worker %d which is known to be dead" % (k, self.i), "dead")
        if self.cur is not None or self.answer is not None:
            w.fail("worker %d got call %d while busy with %r" % (self.i, k, self.cur), "busy")
        if func is not job or args != (k, "arg") or kwargs != {"kw": k}:
            w.fail("call %d came as %r %r %r" % (k, func, args, kwargs), "request")
        if k in w.sent:
            w.fail("call %d was sent twice" % k, "twice")
        if w.outcome.get(k) is not None:
            w.fail("call %d was sent after its caller had left" % k, "sent-late")
        w.sent[k] = self
        w.ch.observe("req", self.i, k)
        if self.alive:
            self.cur = self.last = k
        else:
            w.answers[k] = "died"

    def closed(self):
        w = self.w
        if self.alive and not self.termed and not self.gone and not w.closing():
            w.fail("the pool dropped the connection of the healthy worker %d" % self.i, "dropped")

    # -- behaviour of the process
    def finish(self):
        w = self.w
        k = self.cur
        kind = w.kinds[k]
        self.cur = None
        self.answered = k
        if self.requested:
            if k not in w.signalled:
                w.fail("call %d is interrupted by the cancel signal of another call" % k,
                       "innocent")
            self.requested = False
            p = (PacketTypes.CANCELLED, asyncio.CancelledError)
            w.answers[k] = "cancelled"
        elif kind == "ok":
            p = (PacketTypes.RESULT, ("r", k))
        elif kind == "none":
            p = (PacketTypes.RESULT, None)
        elif kind == "retexc":
            p = (PacketTypes.RESULT, Boom(k))
        elif kind == "exc":
            p = (PacketTypes.EXCEPTION, Boom(k))
        elif kind == "stop":
            p = (PacketTypes.EXCEPTION, StopIteration(k))
        elif kind == "badload":
            p = (PacketTypes.RESULT, BadLoad(k))
        elif kind == "timeout":
            p = (PacketTypes.EXCEPTION, asyncio.TimeoutError(k))
        elif kind == "conn":
            p = (PacketTypes.EXCEPTION, ConnectionRefusedError(k))
        elif kind == "cself":
            p = (PacketTypes.EXCEPTION, asyncio.CancelledError())
            w.answers[k] = "cancelled"
        elif kind == "exit":
            self.answered = None
            w.answers[k] = "died"
            self.die("eof")
            return
        else:
            raise AssertionError(kind)
        w.answers.setdefault(k, kind)
        self.answer = pack(p)

    def deliver(self):
        w = self.w
        a = self.answer
        if w.split and self.cuts is None:
            self.cuts = [w.split]
        if self.cuts:
            n = self.cuts.pop() % len(a)
            self.answer = a[n:]
            self.t.feed(a[:n])
            return
        self.cuts = None
        self.answer = None
        k, self.answered = self.answered, None
        w.ch.observe("ans", self.i, k)
        w.delivered.add(k)
        self.t.feed(a)

    def die(self, how):
        w = self.w
        self.alive = False
        for k in (self.cur, self.answered):
            if k is not None:
                w.answers[k] = "died"
        w.ch.observe("die", self.i)
        self.cur = self.answer = self.answered = None
        self.how = how

    def hangup(self):
        self.gone = True
        if self.how == "eof":
            self.t.feed_eof()
        else:
            self.t.reset()

    def signal(self, sig):
        w = self.w
        if not self.alive:
            raise ProcessLookupError(3, "no such process")
        if sig == SIGNAL:
            # (the answer may have arrived without being noticed yet)
            k = self.last
            if k is None or k not in w.left:
                w.fail("a cancel signal hits worker %d which runs %r; cancelled callers: %r"
                       % (self.i, k, sorted(w.left)), "foreign-signal")
            if k in w.signalled:
                w.fail("two signals for call %r" % k, "signal-twice")
            w.signalled.add(k)
            self.requested = True
        elif sig in (signal.SIGTERM, signal.SIGKILL):
            if not w.closing():
                if not self.requested and not w.signalled:
                    w.fail("a healthy worker is killed", "killed")
                if self.cur is not None:
                    w.fail("worker is killed while it runs call %d" % self.cur, "killed-busy")
            self.termed = True
            self.die("eof")
        else:
            w.fail("unexpected signal %r" % sig, "signal")


class World:
    def __init__(self, ch, kinds, nworkers=1, overflow=0, split=0):
        self.ch = ch
        self.kinds = list(kinds)
        self.loop = NetLoop(ch)
        self.loop.exec_urgent = True
        self.socks = []
        self.split = split
        self.nworkers = nworkers
        self.overflow = overflow
        self.sup = None
        self.workers = []
        self.sent = {}
        self.answers = {}
        self.delivered = set()
        self.outcome = {}
        self.left = set()           # callers which were cancelled
        self.signalled = set()
        self.tasks = {}
        self.closed_at = None
        self.closers = []
        self.order = []
        self.begun = set()
        self.init_error = None
        self.cookie = None
        self.respawns = 3
        self.intruders = []
        self.intr_kinds = []

    def fail(self, msg, key=None):
        self.ch.fail(msg, key)

    def closing(self):
        return bool(self.closers) or self.init_error is not None

    def act(self, name, fn, enabled=None, **kw):
        def fire():
            if not self.loop._ready:
                self.settle()
            fn()
        return self.loop.act(name, fire, enabled, **kw)

    # -- process level
    def started(self, sup):
        if self.sup is not None:
            raise Violation("the supervisor was started twice")
        self.sup = sup

    def boot(self, msgs):
        if len(msgs) != 5:
            raise Violation("the supervisor got %d messages" % len(msgs), "handshake")
        (_, _), address, cookie, ids, init = msgs
        if address != self.address or len(set(ids)) != self.nworkers or len(ids) != self.nworkers or \
                init != (None, (), {}):
            raise Violation("the supervisor got %r" % (msgs,), "handshake")
        self.act("killed", self.killed, lambda: bool(self.sup.signals))
        global BOOTED
        self.cookie = cookie
        self.ids = ids
        BOOTED = cookie, ids
        for i, ident in enumerate(ids):
            self.add(i, ident, 0)

    def digest(self, ident, cookie=None):
        return hmac.HMAC(cookie or self.cookie, ident, digestmod=hashlib.sha256).digest()

    def add(self, i, ident, gen):
        p = Worker(self, i, ident, gen)
        self.workers.append(p)
        live = lambda: p.alive and p.t is not None
        self.act("boot%d.%d" % (i, gen), p.connect)
        self.act("finish%d.%d" % (i, gen), p.finish,
                 lambda: live() and p.cur is not None, repeat=True)
        self.act("deliver%d.%d" % (i, gen), p.deliver,
                 lambda: live() and p.answer is not None, repeat=True, urgent=True)
        self.act("hangup%d.%d" % (i, gen), p.hangup,
                 lambda: not p.alive and p.t is not None and not p.gone)
        for how in self.deaths:
            self.act("die-%s%d.%d" % (how, i, gen), functools.partial(p.die, how),
                     lambda: live(), may=True)
        self.act("respawn%d.%d" % (i, gen), lambda: self.add(i, ident, gen + 1),
                 lambda: not p.alive and p.t is not None and p.gone and gen < 2 and
                 self.sup.returncode is None and not self.sup.signals)

    def killed(self):
        """The stopped supervisor has terminated its workers."""
        for p in self.workers:
            if p.alive and p.t is not None:
                p.die("eof")
                p.hangup()

    deaths = ()

    def kill(self, pid, sig):
        if self.sup is not None and pid == self.sup.pid:
            if self.sup.returncode is not None:
                raise ProcessLookupError(3, "gone")
            self.sup.signals.append(sig)
            self.ch.observe("sup", int(sig))
            if not self.closing():
                self.fail("the supervisor is stopped while the pool is in use", "sup-early")
            if self.sup_dies:
                self.sup.returncode = 0
            return
        for p in self.workers:
            if p.pid == pid:
                self.ch.observe("kill", p.i, int(sig))
                return p.signal(sig)
        self.fail("signal %r to unknown process %r" % (sig, pid), "kill-unknown")

    sup_dies = True

    # -- oracle
    def expected(self, k):
        kind = self.kinds[k]
        a = self.answers.get(k)
        if a == "died":
            return ("ProcessError",)
        if a == "cancelled":
            return ("cancelled",)
        return {"ok": ("value", ("r", k)), "none": ("value", None),
                "retexc": ("value", Boom(k)), "exc": ("raised", Boom(k)),
                "timeout": ("raised", k), "conn": ("raised", k)}.get(kind, ("error",))

    def settle(self):
        """Nothing is ready and no time passed."""
        for k in self.left:
            if k not in self.outcome:
                raise Violation("the cancelled caller %d still waits" % k, "cancel-ignored")
            p = self.sent.get(k)
            if p is not None and p.cur == k and p.alive and k not in self.signalled and \
                    not self.closing():
                raise Violation("call %d still runs after its caller was cancelled" % k,
                                "not-signalled")
        for k in self.delivered:
            if k not in self.outcome:
                raise Violation("call %d was answered, its caller still waits" % k, "answer-lost")
        if self.closing():
            return
        for k, p in self.sent.items():
            if self.answers.get(k) == "died" and p.gone and k not in self.outcome:
                raise Violation("the worker of call %d died, its caller still waits" % k,
                                "death-lost")
        for p in self.workers:
            if p.alive and p.authed and not p.t.closing and p.pid not in self.pool.pids:
                raise Violation("worker %d works, pids are %r" % (p.i, self.pool.pids), "pids")
        waiting = [k for k in self.tasks if k not in self.outcome and k not in self.sent]
        idle = [p for p in self.workers if p.alive and p.authed and p.cur is None and
                p.answer is None and not p.t.closing]
        if waiting and idle:
            raise Violation("calls %r wait although worker %d is idle" % (waiting, idle[0].i),
                            "starved")
        for k in waiting:
            if self.kinds[k] == "baddump" and idle:
                raise Violation("hang", "starved")
        for j, t in enumerate(self.intruders):
            if self.intr_kinds[j] not in ("silent", "partial") and not t.closing and \
                    not t.eof_written:
                raise Violation("stranger %r is still connected" % self.intr_kinds[j], "stranger")

    async def caller(self, k):
        if self.kinds[k] == "baddump":
            return await self.pool.create_task(job, k, BadDump(), kw=k)
        return await self.pool.create_task(job, k, "arg", kw=k)

    def finished(self, k, task):
        try:
            o = ("value", task.result())
        except asyncio.CancelledError:
            o = ("cancelled",)
        except ProcessError as e:
            o = ("ProcessError", e)
        except BaseException as e:
            o = ("raised", e)
        self.outcome[k] = o
        self.ch.observe("out", k, o[0])
        self.check(k, o)
        if len(set(self.outcome) - self.late) == len(self.kinds) - len(self.late) and not self.alldone.done():
            self.alldone.set_result(None)

    def check(self, k, o):
        if k in self.left and o == ("cancelled",):
            return
        if self.init_error is not None:
            if o[0] == "raised" and isinstance(o[1], InitError) and o[1].args == ("init",):
                return
            if k in self.late:
                return
        if self.closing() and (o == ("cancelled",) or (
                o[0] == "raised" and isinstance(o[1], RuntimeError))):
            if k not in self.delivered or o == ("cancelled",):
                return
        if self.kinds[k] == "baddump":
            if o[0] != "raised" or not isinstance(o[1], Exception):
                self.fail("caller %d of a bad request got %r" % (k, o), "outcome")
            return
        if k not in self.sent:
            self.fail("caller %d got %r although its call was not sent" % (k, o), "outcome")
            return
        e = self.expected(k)
        if k not in self.delivered and e != ("ProcessError",):
            self.fail("caller %d got %r before its worker answered" % (k, o), "early")
        if e == ("error",):
            ok = o[0] in ("raised", "ProcessError") and isinstance(o[1], Exception)
        elif e == ("ProcessError",):
            ok = o[0] == "ProcessError"
        elif e[0] == "raised" and self.kinds[k] in ("timeout", "conn"):
            ok = o[0] == "raised" and o[1].args == (k,) and isinstance(o[1], (
                asyncio.TimeoutError if self.kinds[k] == "timeout" else ConnectionRefusedError))
        else:
            ok = o == e
        if not ok:
            self.fail("caller %d got %r, its worker answered %r" % (k, o, e), "outcome")

    late = frozenset()
    ending = False


def scenario(ch, kinds, nworkers=1, overflow=0, cancels=(), deaths=(), split=0, closes=0,
             late=0, submit="all", intruders=(), init=None, sup_dies=True, close_cancel=False,
             must_close=True, sup_dead=False, idle_cost=None, late_check=True):
    global WORLD
    w = World(ch, list(kinds) + ["ok"] * late, nworkers, overflow, split)
    w.deaths = deaths
    w.loop.idle_cost = (1 if nworkers > 1 else 0) if idle_cost is None else idle_cost
    w.sup_dies = sup_dies
    loop = w.loop
    saved = substitute()
    WORLD = w
    w.late = set(range(len(kinds), len(w.kinds)))

    def cancel(k):
        if not w.tasks[k].done():
            w.left.add(k)
            w.ch.observe("cancel", k)
            w.tasks[k].cancel()

    async def closer(n):
        w.begun.add(n)
        try:
            await w.pool.close()
        except asyncio.CancelledError:
            pass
        w.closed[n] = True

    def close(n):
        w.closed[n] = False
        w.order.append(n)
        w.closers.append(loop.create_task(closer(n)))
        w.ch.observe("close", n)

    def submit_one(k):
        w.tasks[k] = loop.create_task(w.caller(k))
        w.tasks[k].add_done_callback(functools.partial(w.finished, k))

    def intrude(j, kind):
        t = loop.accept("x%d" % j)
        if t is None:
            return
        w.intruders.append(t)
        w.intr_kinds.append(kind)
        ident = w.ids[0]
        good = w.digest(ident)
        pid = BASE + 5000 + j

        def written(t):
            d = bytes(t.out)
            while d:
                n, = struct.unpack("!L", d[:4])
                p = pickle.loads(d[4:4 + n])
                d = d[4 + n:]
                if p == PacketTypes.AUTH_OK or isinstance(p, tuple):
                    w.fail("the stranger %r got %r" % (kind, p), "admitted")
        t.on_write = written
        if kind == "digest":
            t.feed(pack((PacketTypes.AUTH, ident, b"\0" * 32, pid)))
        elif kind == "nodigest":
            t.feed(pack((PacketTypes.AUTH, ident, b"", pid)))
        elif kind == "prefix":
            t.feed(pack((PacketTypes.AUTH, ident, good[:16], pid)))
        elif kind == "longer":
            t.feed(pack((PacketTypes.AUTH, ident, good + b"\0", pid)))
        elif kind == "hex":
            t.feed(pack((PacketTypes.AUTH, ident, good.hex(), pid)))
        elif kind == "otherdigest":
            t.feed(pack((PacketTypes.AUTH, ident, w.digest(b"x" * 16), pid)))
        elif kind == "cookie":
            t.feed(pack((PacketTypes.AUTH, ident, w.digest(ident, b"other"), pid)))
        elif kind == "unknown":
            t.feed(pack((PacketTypes.AUTH, b"x" * 16, w.digest(b"x" * 16), pid)))
        elif kind == "othertype":
            t.feed(pack((PacketTypes.RESULT, ident, good, pid)))
        elif kind == "badinit":
            t.feed(pack((PacketTypes.BAD_INITIALIZER, ident, b"\0" * 32, pid)))
            t.feed(pack((PacketTypes.EXCEPTION, InitError("evil"))))
        elif kind == "badinit-unknown":
            t.feed(pack((PacketTypes.BAD_INITIALIZER, b"x" * 16, w.digest(b"x" * 16), pid)))
            t.feed(pack((PacketTypes.EXCEPTION, InitError("evil"))))
        elif kind == "tuple":
            t.feed(pack((1, 2, 3)))
        elif kind == "junk":
            t.feed(struct.pack("!L", 5) + b"\xff\xff\xff\xff\xff")
        elif kind == "eof":
            t.feed_eof()
        elif kind == "reset":
            t.reset()
        elif kind == "halfeof":
            t.feed(b"\0\0\0\5ab")
            t.feed_eof()
        elif kind == "partial":
            t.feed(pack((PacketTypes.AUTH, ident, good, pid))[:-1])
        elif kind == "silent":
            pass

    def initfail(mode):
        """The first worker reports that its initializer failed."""
        w.initev.set_result(None)
        t = loop.accept("init")
        if t is None:
            return
        w.sup.returncode = 0
        w.init_error = True
        ident = w.ids[0]
        t.feed(pack((PacketTypes.BAD_INITIALIZER, ident, w.digest(ident), BASE + 1)))
        t.feed(pack((PacketTypes.EXCEPTION, InitError("init"))))
        if mode == "eof":
            t.feed_eof()

    def dead_tasks(main):
        return [t for t in loop._mc_tasks if not t.done() and t is not main]

    async def main():
        w.closed = {}
        w.initev = loop.create_future()
        w.alldone = loop.create_future()
        me = asyncio.current_task()
        if init:
            w.add = lambda *a: None
        w.pool = pool = wp.WorkerPool(nworkers, overflow)
        await pool.start()
        if sup_dead:
            w.sup.returncode = 1
        n = len(kinds)
        for k in range(n):
            if submit == "all" or (submit == "first" and k == 0):
                submit_one(k)
            else:
                w.act("submit%d" % k, functools.partial(submit_one, k), urgent=True)
        for k in range(n, len(w.kinds)):
            w.act("late%d" % k, functools.partial(submit_one, k),
                  lambda: w.closing() and not w.ending)
        for k in cancels:
            w.act("cancel%d" % k, functools.partial(cancel, k), lambda k=k: k in w.tasks, may=True)
        for j, kind in enumerate(intruders):
            w.act("intruder%d" % j, functools.partial(intrude, j, kind), urgent=True)
        if init:
            w.act("initfail", functools.partial(initfail, init))
        for c in range(closes):
            w.act("close%d" % c, functools.partial(close, c), lambda: not w.ending, may=True)
        if close_cancel:
            w.act("closecancel", lambda: w.closers[0].cancel(),
                  lambda: bool(w.closers) and w.order[0] in w.begun, may=True)
        if n:
            await w.alldone
        elif not init:
            await asyncio.sleep(5)
        if not loop._ready:
            w.settle()
        if init:
            await w.initev
            await asyncio.sleep(0)
        close("last")
        await asyncio.wait(list(w.closers))
        w.ending = True
        await asyncio.wait(list(w.closers))
        if close_cancel:
            await asyncio.sleep(2)
        late = [t for k, t in w.tasks.items() if not t.done()]
        if late:
            await asyncio.wait(late, timeout=5)
        if w.sup.signals != ([] if sup_dead or (init and w.init_error) else [signal.SIGINT]):
            raise Violation("the supervisor got signals %r" % (w.sup.signals,), "sup")
        if pool.pids:
            raise Violation("the closed pool lists the workers %r" % (pool.pids,), "pids")
        if loop.listeners:
            raise Violation("the pool still listens after close", "listen")
        if late_check:
            t = loop.create_task(pool.create_task(job, 99))
            await asyncio.wait([t], timeout=5)
            if not t.done():
                raise Violation("a call after close hangs", "late-hang")
            if not t.cancelled() and t.exception() is None:
                raise Violation("a call after close returned", "late-result")
        for _ in range(4):
            await asyncio.sleep(0)
        left = [t for t in dead_tasks(me)]
        if left:
            raise Violation("tasks left after close: %r" % left, "left")
        if len(w.outcome) != len(w.tasks):
            raise Violation("callers left: %r" % (w.outcome,), "callers")
        return tuple(sorted((k, o[0]) for k, o in w.outcome.items())), \
            tuple(sorted(w.sent)), tuple(sorted(w.signalled))

    try:
        r = run_loop(loop, main())
        if ch.failures:
            raise ch.failures[0]
        return r
    except Stuck as e:
        if ch.failures:
            raise ch.failures[0]
        raise Violation("%s; outcomes %r, sent %r, closers %r" % (
            e, w.outcome, sorted(w.sent), w.closed), "stuck")
    finally:
        if w.sup is not None:
            w.sup.returncode = 0
        WORLD = None
        for m, k, v in saved:
            setattr(m, k, v)
        for s in w.socks:
            if s.fileno() >= 0:
                s.close()
