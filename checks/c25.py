"""C25: the worker process: aiomisc_worker.worker on a scripted socket.

The signal of the pool is delivered before every line of the worker, of the
protocol and of the user function (the handler which the worker has installed
is called there, which is what the interpreter does).
"""
import asyncio
import hashlib
import hmac
import os
import pickle
import signal
import socket
import struct
import sys

from aiomisc_worker import SIGNAL, PacketTypes
import aiomisc_worker.process_inner as process_inner
import aiomisc_worker.protocol as protocol_module
import aiomisc_worker.worker as worker_module
from mc.core import Violation
from mc.run import Unit

PROPERTY = "C25"
ASSUMPTIONS = [
    "the pool sends a cancel signal only while a request of the worker is outstanding and "
    "terminates a worker which answered otherwise than with a cancellation notice after it "
    "(the pool side is C23)",
    "signal handlers run between source lines",
]
COOKIE, IDENT, ADDRESS = b"c" * 128, b"i" * 16, "/nonexistent/worker.sock"
W = None


class Boom(Exception):
    def __init__(self, *a):
        super().__init__(*a)


class TwoArgs(Exception):
    """Cannot be restored from its pickle."""

    def __init__(self, a, b):
        super().__init__(a)


class NoDump(Exception):
    def __reduce__(self):
        raise pickle.PicklingError("no")


class NoDump2:
    def __reduce__(self):
        raise ConnectionError("no")


class ReprBoom:
    def __reduce__(self):
        raise ValueError("no")

    def __repr__(self):
        raise RuntimeError("no repr")


def f(k, kind, **kw):
    w = W
    w.calls.append(k)
    if k in w.signalled:
        w.ch.fail("request %d was cancelled before its function was called, and runs" % k, "runs")
    if kw != {"kw": k}:
        w.ch.fail("request %d came with %r" % (k, kw), "request")
    w.running = k
    try:
        r = body(k, kind)
        w.ran.add(k)
        return r
    finally:
        w.running = None


def body(k, kind):
    if kind == "value":
        x = k
        return ("r", x)
    if kind == "none":
        return None
    if kind == "big":
        return b"x" * 5000
    if kind == "exc":
        raise Boom(k)
    if kind == "conn":
        raise ConnectionResetError(k)
    if kind == "oserror":
        raise OSError(5, "io")
    if kind == "stop":
        raise StopIteration(k)
    if kind == "timeout":
        raise asyncio.TimeoutError(k)
    if kind == "cself":
        raise asyncio.CancelledError
    if kind == "twoargs":
        raise TwoArgs(1, 2)
    if kind == "nodumpexc":
        raise NoDump(k)
    if kind == "nodump":
        return [NoDump()]
    if kind == "lambda":
        return lambda: 1
    if kind == "reprboom":
        return ReprBoom()
    if kind == "swallow":
        try:
            x = 1
            x = 2
        except asyncio.CancelledError:
            W.swallowed.add(k)
        return "done"
    if kind == "exit":
        raise SystemExit(3)
    if kind == "kbd":
        raise KeyboardInterrupt
    raise AssertionError(kind)


def _refuse(*a):
    raise ValueError("cannot be restored")


class BadRequest:
    def __reduce__(self):
        return _refuse, ()


def _refuse2(*a):
    raise AttributeError("no such function in the worker")


class BadRequest2:
    def __reduce__(self):
        return _refuse2, ()


def pack(o):
    d = pickle.dumps(o)
    return struct.pack("!L", len(d)) + d


EXPECT = {
    "value": lambda k: (PacketTypes.RESULT, ("r", k)),
    "none": lambda k: (PacketTypes.RESULT, None),
    "big": lambda k: (PacketTypes.RESULT, b"x" * 5000),
    "swallow": lambda k: (PacketTypes.RESULT, "done"),
}
EXC = {"exc": Boom, "conn": ConnectionResetError, "oserror": OSError, "stop": StopIteration,
       "timeout": asyncio.TimeoutError, "cself": asyncio.CancelledError}


class Fatal(BaseException):
    """Ends the worker where it would be killed or hang."""


def bad(w, msg, key=None):
    """The worker may catch exceptions: note the violation, then end it."""
    sys.settrace(None)
    w.ch.fail(msg, key)
    return Fatal()


class World:
    def __init__(self, ch, kinds, reply=None, piece=None, lose=False, sig=0):
        self.ch = ch
        self.kinds = kinds
        self.reply = reply
        self.piece = piece
        self.lose = lose
        self.sigs = sig
        self.buf = b""
        self.out = b""
        self.next = 0
        self.outstanding = None
        self.answers = []
        self.calls = []
        self.ran = set()
        self.swallowed = set()
        self.running = None
        self.signalled = {}
        self.auth = None
        self.lost = False
        self.ended = False
        self.connected = None
        self.closed = False
        self.tracing = False

    # -- socket
    def recv(self, n):
        if not self.connected or self.closed:
            raise OSError(9, "bad file descriptor")
        if n <= 0:
            return b""
        if self.lost:
            return b""
        if not self.buf:
            self.refill()
            if self.lost:
                if self.lost == "reset":
                    raise ConnectionResetError(104, "reset")
                return b""
        if self.lose and self.ch.pick((False, True), "lose", cost=1):
            return self.drop()
        m = min(n, self.piece or n)
        r, self.buf = self.buf[:m], self.buf[m:]
        return r

    def drop(self):
        self.lost = self.ch.pick(("eof", "reset"), "how")
        self.ch.observe("lost", self.lost)
        if self.lost == "reset":
            raise ConnectionResetError(104, "reset")
        return b""

    def refill(self):
        if self.out:
            raise bad(self, "the worker reads in the middle of its packet", "partial")
        if self.auth is None:
            raise bad(self, "the worker reads before it authenticates", "auth")
        if not self.auth:
            self.auth = True
            self.buf = pack(PacketTypes.AUTH_OK if self.reply is None else self.reply)
            return
        if self.reply is not None:
            raise bad(self, "the rejected worker waits for requests", "rejected")
        if self.outstanding is not None:
            raise bad(self, "request %d was not answered" % self.outstanding, "answer")
        if self.next == len(self.kinds):
            self.ended = True
            self.lost = self.ch.pick(("eof", "reset"), "end")
            return
        k = self.outstanding = self.next
        self.next += 1
        kind = self.kinds[k]
        if kind == "badrequest":
            self.buf = pack((PacketTypes.REQUEST, f, (BadRequest(),), {}))
        elif kind == "badrequest2":
            self.buf = pack((PacketTypes.REQUEST, f, (BadRequest2(),), {}))
        elif kind == "badargs":
            self.buf = pack((PacketTypes.REQUEST, f, (), {"kw": k}))
        else:
            self.buf = pack((PacketTypes.REQUEST, f, (k, kind), {"kw": k}))
        self.ch.observe("request", k)
        if self.sigs > 0:
            self.trace()

    def send(self, d):
        if not self.connected or self.closed:
            raise OSError(9, "bad file descriptor")
        if self.lost or (self.lose and self.ch.pick((False, True), "lose", cost=1)):
            self.lost = self.lost or "reset"
            raise BrokenPipeError(32, "broken pipe")
        self.out += bytes(d)
        while len(self.out) >= 4:
            n, = struct.unpack("!L", self.out[:4])
            if len(self.out) < 4 + n:
                break
            data, self.out = self.out[4:4 + n], self.out[4 + n:]
            self.packet(data)
        return len(d)

    def packet(self, data):
        if self.auth is None:
            p = pickle.loads(data)
            good = hmac.HMAC(COOKIE, IDENT, digestmod=hashlib.sha256).digest()
            if p != (PacketTypes.AUTH, IDENT, good, os.getpid()):
                raise bad(self, "the worker introduces itself with %r" % (p,), "auth")
            self.auth = False
            return
        k = self.outstanding
        if k is None:
            raise bad(self, "a packet without request: %r" % (pickle.loads(data),), "extra")
        self.outstanding = None
        sys.settrace(None)
        kind = self.kinds[k]
        try:
            t, payload = pickle.loads(data)
        except Exception as e:
            if kind == "twoargs":
                t, payload = PacketTypes.EXCEPTION, e
            else:
                raise bad(self, "answer %d cannot be read: %r" % (k, e), "answer")
        self.ch.observe("answer", k, int(t))
        sig = self.signalled.get(k)
        if t == PacketTypes.CANCELLED:
            if payload is not asyncio.CancelledError and not isinstance(
                    payload, asyncio.CancelledError):
                raise bad(self, "cancelled with %r" % payload, "answer")
            if sig is None:
                raise bad(self, "request %d was cancelled without a signal" % k, "cancelled")
            self.answers.append(k)
            return
        if sig == "running" and kind not in ("swallow",):
            raise bad(self, "request %d was signalled while it ran and answered %r" % (
                k, t), "not-cancelled")
        ok = False
        if kind in EXPECT:
            e = EXPECT[kind](k)
            ok = (t, payload) == e
        elif kind in EXC:
            ok = t == PacketTypes.EXCEPTION and type(payload) is EXC[kind] and (
                payload.args == (k,) or kind in ("oserror", "cself"))
        elif kind in ("nodump", "nodumpexc", "lambda", "badrequest", "badrequest2", "badargs", "twoargs",
                      "reprboom"):
            ok = t == PacketTypes.EXCEPTION and isinstance(payload, Exception)
        if not ok:
            raise bad(self, "request %d (%s) was answered with %r %r" % (k, kind, t, payload),
                            "answer")
        self.answers.append(k)
        if sig is not None:
            raise Fatal       # the pool terminates such a worker

    # -- signals
    FILES = {worker_module.__file__, protocol_module.__file__, __file__}
    NAMES = {"f", "body"}

    def trace(self):
        self.tracing = True
        sys.settrace(self._global)
        fr = sys._getframe()
        while fr is not None:
            if fr.f_code.co_filename in (worker_module.__file__, protocol_module.__file__):
                fr.f_trace = self._local
            fr = fr.f_back

    def _global(self, frame, event, arg):
        code = frame.f_code
        if code.co_filename in self.FILES and (
                code.co_filename != __file__ or code.co_name in self.NAMES):
            return self._local(frame, event, arg)
        return None

    def _local(self, frame, event, arg):
        if event in ("line", "call", "return") and self.sigs > 0 and \
                self.outstanding is not None and self.outstanding not in self.signalled:
            if event == "line" and self.ch.pick((False, True), "%s:%d" % (
                    frame.f_code.co_name, frame.f_lineno), cost=1):
                self.signal(frame)
        return self._local

    def signal(self, frame):
        k = self.outstanding
        self.sigs -= 1
        inside = frame.f_code.co_filename == __file__ and frame.f_code.co_name == "body"
        self.signalled[k] = "running" if inside else "around"
        self.ch.observe("signal", k, frame.f_code.co_name)
        h = signal.getsignal(SIGNAL)
        if not callable(h):
            raise bad(self, "the worker does not handle the signal of the pool", "handler")
        h(SIGNAL, frame)


class Sock:
    """socket.socket() of the worker."""

    def __init__(self, *a, **kw):
        pass

    def connect(self, address):
        if address != ADDRESS:
            raise bad(W, "connects to %r" % (address,), "connect")
        if W.connected:
            raise bad(W, "connected twice")
        if W.refuse is not None:
            raise W.refuse
        W.connected = True

    def recv(self, n, flags=0):
        return W.recv(n)

    def recv_into(self, b, n=0, flags=0):
        d = W.recv(n or len(b))
        b[:len(d)] = d
        return len(d)

    def send(self, d, flags=0):
        d = bytes(d)[:W.piece or len(d)]
        return W.send(d)

    def sendall(self, d, flags=0):
        d = bytes(d)
        n = W.piece or len(d) or 1
        for i in range(0, len(d), n):
            W.send(d[i:i + n])

    def shutdown(self, *a):
        pass

    def setblocking(self, *a):
        pass

    def settimeout(self, *a):
        pass

    def close(self):
        W.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def run(w, fn):
    global W
    W = w
    saved = socket.socket, sys.excepthook
    socket.socket = Sock
    try:
        fn()
        return None
    except Violation:
        raise
    except BaseException as e:
        return e
    finally:
        sys.settrace(None)
        socket.socket, sys.excepthook = saved
        W = None


def reset_flags():
    """Every scenario is a new process."""
    for name, v in vars(worker_module).items():
        if isinstance(v, type) and v.__module__ == worker_module.__name__:
            for a, x in INITIAL.get(name, {}).items():
                setattr(v, a, x)
    for a, x in INITIAL["globals"].items():
        setattr(worker_module, a, x)


INITIAL = {"globals": {a: x for a, x in vars(worker_module).items()
                       if isinstance(x, (bool, int, type(None)))}}
for _n, _v in list(vars(worker_module).items()):
    if isinstance(_v, type) and _v.__module__ == worker_module.__name__:
        INITIAL[_n] = {a: x for a, x in vars(_v).items()
                       if isinstance(x, (bool, int, type(None))) and not a.startswith("__")}


def sc(ch, kinds, piece=None, lose=False, sig=0, refuse=None):
    reset_flags()
    w = World(ch, kinds, piece=piece, lose=lose, sig=sig)
    w.refuse = refuse
    e = run(w, lambda: worker_module.worker(ADDRESS, COOKIE, IDENT))
    if ch.failures:
        raise ch.failures[0]
    last = kinds[w.next - 1] if w.next else None
    if isinstance(e, Fatal):
        return tuple(w.answers), "terminated"
    if w.lost or refuse is not None:
        if e is not None:
            raise Violation("the worker ends with %r when the connection is lost" % e, "loud")
    elif last in ("exit", "kbd") and w.outstanding is not None:
        if not isinstance(e, SystemExit if last == "exit" else KeyboardInterrupt):
            raise Violation("%s: the worker ends with %r" % (last, e), "exit")
    else:
        raise Violation("the worker ended with %r after %r of %r" % (e, w.answers, kinds), "ended")
    exp = [k for k in range(w.next) if kinds[k] not in ("badrequest", "badrequest2", "badargs")]
    for k in w.calls:
        if w.calls.count(k) != 1:
            raise Violation("request %d ran %d times" % (k, w.calls.count(k)), "twice")
    if w.ended and w.answers != list(range(len(kinds))):
        raise Violation("answers %r of %r" % (w.answers, kinds), "answers")
    missing = [k for k in exp if k not in w.calls and k not in w.signalled and not w.lost]
    if missing:
        raise Violation("not executed: %r" % missing, "executed")
    if w.connected and not w.closed:
        raise Violation("the socket is left open", "open")
    return tuple(w.answers), tuple(w.calls)


def sc_rejected(ch, reply):
    reset_flags()
    w = World(ch, ("value",), reply=reply)
    w.refuse = None
    e = run(w, lambda: worker_module.worker(ADDRESS, COOKIE, IDENT))
    if e is None or not isinstance(e, Exception):
        raise Violation("a rejected worker ends with %r" % e, "rejected")
    if w.calls:
        raise Violation("it has executed something")


class BadInit(World):
    def packet(self, data):
        try:
            self.answers.append(pickle.loads(data))
        except Exception as e:
            raise Violation("the pool cannot read the report: %r" % e, "report")


def sc_badinit(ch, exc, through):
    reset_flags()
    w = BadInit(ch, ())
    w.refuse = None
    if through == "direct":
        e = run(w, lambda: worker_module.bad_initializer(ADDRESS, COOKIE, IDENT, exc))
    if e is not None:
        raise Violation("reporting %r failed with %r" % (exc, e), "report")
    if len(w.answers) != 2:
        raise Violation("reports %r" % w.answers, "report")
    good = hmac.HMAC(COOKIE, IDENT, digestmod=hashlib.sha256).digest()
    if w.answers[0] != (PacketTypes.BAD_INITIALIZER, IDENT, good, os.getpid()):
        raise Violation("reports %r" % (w.answers[0],), "report")
    t, p = w.answers[1]
    if t != PacketTypes.EXCEPTION or not isinstance(p, BaseException):
        raise Violation("reports %r" % (w.answers[1],), "report")
    if isinstance(exc, Boom) and (type(p) is not Boom or p.args != exc.args):
        raise Violation("reports %r instead of %r" % (p, exc), "report")


KINDS = ("value", "none", "big", "exc", "conn", "oserror", "stop", "timeout", "cself", "twoargs",
         "nodumpexc", "nodump", "lambda", "reprboom", "badrequest", "badrequest2",
         "badargs", "swallow")
ENDS = ("exit", "kbd")


def units(tier):
    q = tier == "quick"

    def u(name, fn, *a, bound=1, weight=1, **kw):
        return Unit(name, lambda ch: fn(ch, *a, **kw), bound, weight=weight)

    for a in KINDS:
        for b in KINDS:
            yield u("plain %s,%s" % (a, b), sc, (a, b, "value"))
        for b in ENDS:
            yield u("plain %s,%s" % (a, b), sc, (a, b))
        yield u("signal %s" % a, sc, (a, "value", "exc"), sig=1)
        yield u("signal second %s" % a, sc, ("value", a, "value"), sig=1)
        yield u("lose %s" % a, sc, (a, "value"), lose=True)
        yield u("lose %s, pieces" % a, sc, (a, "value"), lose=True, piece=7 if a != "big" else 999)
        if not q or a in ("value", "exc", "cself", "swallow", "badrequest"):
            yield u("signal twice %s" % a, sc, (a, "value", "value"), sig=2, bound=2, weight=3)
        yield u("signal and lose %s" % a, sc, (a, "value"), sig=1, lose=True, bound=2, weight=3)
        for p in (1, 3, 64):
            if a != "big" or p > 10:
                yield u("pieces of %d %s" % (p, a), sc, (a, "value"), piece=p)
        if not q:
            yield u("signals %s" % a, sc, (a, "exc", "value", "none"), sig=3, bound=3, weight=9)
    yield u("nothing", sc, ())
    yield u("lose at once", sc, (), lose=True, piece=5)
    yield u("refused", sc, (), refuse=ConnectionRefusedError(111, "refused"))
    for r in (PacketTypes.AUTH_FAIL, PacketTypes.BAD_PACKET, None, (PacketTypes.REQUEST, f, (), {})):
        if r is not None:
            yield u("rejected %r" % (r if isinstance(r, int) else "request",), sc_rejected, r)
    for n, e in (("boom", Boom(1)), ("twoargs", TwoArgs(1, 2)), ("nodump", NoDump(1)),
                 ("exit", SystemExit(2)), ("oserror", OSError(2, "x"))):
        yield u("initializer %s" % n, sc_badinit, e, "direct")
