"""C37: errors nobody handles are logged, once and completely."""
import asyncio
import gc
import io
import json
import logging
import sys
import traceback
import warnings

import aiomisc_log
from aiomisc.log import UnhandledLoopHook
from aiomisc_log import LogFormat, create_logging_handler
from mc.core import Violation
from mc.run import Unit
from mc.vloop import VLoop

PROPERTY = "C37"
ASSUMPTIONS = [
    "the objects of a context can be represented (their __repr__ does not raise)",
    "the handlers of the logger do not raise",
]


class Boom(Exception):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


class Empty(Exception):
    def __len__(self):
        return 0


class Base(BaseException):
    pass


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


class Transport(asyncio.Transport):
    def __init__(self, info):
        super().__init__(info)
        self.asked = []


class Hooked:
    """A hook on a logger of its own, and nothing else listening."""

    def __init__(self, cls=UnhandledLoopHook, **kw):
        self.loop_logger = logging.getLogger("unhandled")
        self.saved = self.loop_logger.handlers[:], self.loop_logger.propagate, self.loop_logger.level
        self.hook = cls(**kw)
        self.logger = self.hook.logger
        self.logger.setLevel(1)
        self.capture = Capture()
        self.hook.add_handler(self.capture)

    def __enter__(self):
        self.disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *a):
        logging.disable(self.disabled)
        self.logger.handlers.clear()
        self.loop_logger.handlers[:], self.loop_logger.propagate, self.loop_logger.level = self.saved


def raised(cls, *args):
    try:
        raise cls(*args)
    except BaseException as e:
        return e


EXCEPTIONS = {
    "absent": lambda: None, "none": lambda: None, "raised": lambda: raised(Boom, "x"),
    "fresh": lambda: Boom("never raised"), "falsy": lambda: raised(Falsy), "empty": lambda: raised(Empty),
    "base": lambda: raised(Base), "cancelled": lambda: raised(asyncio.CancelledError),
    "exit": lambda: raised(SystemExit, 3), "group": lambda: raised(ExceptionGroup, "g", [Boom()]),
}
MESSAGES = ("absent", "something failed", "", "100%s %d", None, 5, "two\nlines")
FUTURES = ("absent", "none", "pending", "cancelled", "result", "error", "falsy", "base")
# Keys which users may put into the context of loop.call_exception_handler
KEYS = ("name", "msg", "args", "exc_info", "module", "asctime", "levelname", "process", "thread", "taskName",
        "asyncgen", "server", "client", "extra", "filename", "created", "stack_info", "lineno",
        "logger", "self", "level", "exc_text", "func")


def finish(loop, fut, kind):
    if kind == "cancelled":
        fut.cancel()
    elif kind == "result":
        fut.set_result(1)
    elif kind in ("error", "falsy", "base"):
        fut.set_exception({"error": Boom, "falsy": Falsy, "base": Base}[kind]())


def make_future(loop, kind):
    if kind in ("absent", "none"):
        return None
    fut = loop.create_future()
    finish(loop, fut, kind)
    return fut


def make_task(loop, kind):
    if kind in ("absent", "none"):
        return None

    async def body():
        if kind in ("error", "falsy", "base"):
            raise {"error": Boom, "falsy": Falsy, "base": Base}[kind]()
        if kind in ("pending", "cancelled"):
            await loop.create_future()
        return 1
    task = loop.create_task(body())
    spin(loop)
    if kind == "cancelled":
        task.cancel()
        spin(loop)
    return task


def spin(loop, n=5):
    async def nothing():
        for _ in range(n):
            await asyncio.sleep(0)
    loop.run_until_complete(nothing())


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def verify(ch, hooked, context, error, infos=()):
    """The records of one call for this (original) context."""
    records = hooked.capture.records
    source = context.get("source_traceback") or ()
    if len(records) != 1 + bool(source):
        ch.fail("%d records instead of %d" % (len(records), 1 + bool(source)), "records")
    r = records[0]
    if r.levelno != logging.ERROR:
        ch.fail("level %d" % r.levelno, "level")
    want = context.get("message", "unhandled loop exception")
    if r.getMessage() != str(want):
        ch.fail("message %r instead of %r" % (r.getMessage(), want), "message")
    if error is None:
        if r.exc_info and r.exc_info[1] is not None:
            ch.fail("exception %r came from nowhere" % (r.exc_info,), "exc_info")
    elif not r.exc_info or r.exc_info[1] is not error or r.exc_info[0] is not type(error) or \
            r.exc_info[2] is not error.__traceback__:
        ch.fail("exc_info %r instead of %r" % (r.exc_info, error), "exc_info")
    if error is not None:
        text = logging.Formatter("%(message)s").format(r)
        line = traceback.format_exception_only(type(error), error)[-1].strip()
        if line not in text:
            ch.fail("the text %r does not show %r" % (text, line), "text")
    for key, value in context.items():
        if key in ("message", "exception", "future", "task", "source_traceback"):
            continue
        if value is None and key in ("handle", "protocol", "transport", "socket"):
            continue
        if key in ("handle", "protocol", "transport", "socket"):
            name = {"socket": "sock"}.get(key, key)
            if getattr(r, name, None) != repr(value):
                ch.fail("%s is %r" % (name, getattr(r, name, None)), "extra")
        elif not any(v is value for v in vars(r).values()):
            ch.fail("the item %r of the context is not in the record" % key, "extra")
    for key, value in infos:
        if not any(v is value for v in vars(r).values()):
            ch.fail("the %r of the transport is not in the record" % key, "extra")
    # attributes of the record itself stay what they are
    plain = logging.makeLogRecord({"name": hooked.logger.name, "levelname": "ERROR", "args": (),
                                   "process": r.process})
    for key in ("name", "levelname", "process"):
        if not same(getattr(r, key), getattr(plain, key)):
            ch.fail("the record's own %r was overwritten by %r" % (key, getattr(r, key)), "own attribute")
    if source:
        s = records[1]
        if s.levelno != logging.ERROR or s.getMessage() != "".join(traceback.format_list(source)):
            ch.fail("source traceback %r" % s.getMessage(), "source")
    # and any formatter can write the records
    stream = io.StringIO()
    h = create_logging_handler(LogFormat.json)
    h.stream = stream
    for r in records:
        h.handle(r)
    for line in stream.getvalue().splitlines():
        json.loads(line)


def call(ch, hooked, context, error, infos=()):
    before = dict(context)
    try:
        hooked.hook(None, context)
    except BaseException as e:
        ch.fail("the hook raised %r" % e, "raised")
    if list(context) != list(before) or any(context[k] is not before[k] for k in before):
        ch.fail("the hook changed the context", "context")
    verify(ch, hooked, before, error, infos)


def errors(ch):
    """Where the exception comes from."""
    loop = VLoop(ch)
    asyncio.set_event_loop(loop)
    context = {}
    ek = ch.pick(EXCEPTIONS, "exception")
    fk = ch.pick(FUTURES, "future")
    tk = ch.pick(FUTURES, "task")
    mk = ch.pick(MESSAGES[:3], "message")
    error = EXCEPTIONS[ek]()
    fut, task = make_future(loop, fk), make_task(loop, tk)
    if mk != "absent":
        context["message"] = mk
    for name, kind, value in (("exception", ek, error), ("future", fk, fut), ("task", tk, task)):
        if kind != "absent":
            context[name] = value
    if error is None:
        for f in (fut, task):
            if f is not None and f.done() and not f.cancelled() and f.exception() is not None:
                error = f.exception()
                break
    ch.observe("errors", ek, fk, tk, mk)
    with Hooked() as hooked:
        call(ch, hooked, context, error)
    loop.close()


def items(ch):
    """What else is in the context."""
    context = {}
    mk = ch.pick(MESSAGES, "message")
    if mk != "absent":
        context["message"] = mk
    error = EXCEPTIONS[ch.pick(("absent", "raised"), "exception")]()
    if error is not None:
        context["exception"] = error
    infos = ()
    t = ch.pick(("absent", "none", "empty", "full", "mixed"), "transport")
    if t == "none":
        context["transport"] = None
    elif t != "absent":
        every = {"peername": ("1.2.3.4", 5), "sockname": ("::1", 6, 0, 0), "compression": "zlib",
                 "cipher": ("AES", "TLSv1.3", 256), "peercert": {"subject": ()}, "pipe": object(),
                 "subprocess": object()}
        if t == "mixed":
            every = {k: v for k, v in every.items() if len(k) % 2}
        if t == "empty":
            every = {}
        infos = tuple(every.items())
        context["transport"] = Transport(every)
    for key in ("handle", "protocol", "socket"):
        k = ch.pick(("absent", "none", "there"), key)
        if k != "absent":
            context[key] = None if k == "none" else object()
    s = ch.pick(("absent", "none", "empty", "there"), "source")
    if s != "absent":
        context["source_traceback"] = {"none": None, "empty": [], "there": traceback.extract_stack()}[s]
    with Hooked() as hooked:
        call(ch, hooked, context, error, infos)
    ch.observe("items", t, s)


def names(ch):
    """Items with arbitrary names, alone and in pairs."""
    a = ch.pick(KEYS, "key")
    b = ch.pick(("none",) + KEYS, "second")
    context = {"message": "m"} if ch.pick((True, False), "message") else {}
    context[a] = object()
    if b != "none" and b != a:
        context[b] = object()
    error = EXCEPTIONS[ch.pick(("absent", "raised", "falsy"), "exception")]()
    if error is not None:
        context["exception"] = error
    ch.observe("names", a, b)
    with Hooked() as hooked:
        call(ch, hooked, context, error)


class RealLoop(asyncio.SelectorEventLoop):
    pass


def situations(ch):
    """What a real loop reports: every event is logged exactly once."""
    what = [ch.pick(SITUATIONS, "first"), ch.pick(SITUATIONS, "second")]
    debug = ch.pick((False, True), "debug")
    kinds = [ch.pick((Boom, Falsy, Empty), "error") for _ in what]
    loop = RealLoop()
    loop.set_debug(debug)
    errors, total, sources = [], [], 0
    with Hooked() as hooked, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        loop.set_exception_handler(hooked.hook)
        asyncio.set_event_loop(loop)
        gc.disable()
        try:
            for w, cls in zip(what, kinds):
                e = cls(w)
                n = SITUATIONS[w](loop, e)
                for _ in range(4):
                    spin(loop, 1)
                    gc.collect(0)
                if n:
                    errors.append(e)
            spin(loop)
        finally:
            gc.enable()
        seen = [r.exc_info[1] for r in hooked.capture.records if r.exc_info]
        if [id(e) for e in seen] != [id(e) for e in errors]:
            ch.fail("%r (debug %r): logged %r instead of %r" % (what, debug, seen, errors), "situation")
        for r in hooked.capture.records:
            if r.exc_info and r.exc_info[1].__traceback__ is not r.exc_info[2]:
                ch.fail("traceback lost", "situation")
        asyncio.set_event_loop(None)
        loop.close()
    ch.observe("situations", tuple(what), debug, len(seen))


def s_callback(loop, e):
    def f():
        raise e
    loop.call_soon(f)
    return 1


def s_timer(loop, e):
    def f():
        raise e
    loop.call_later(0, f)
    spin(loop)
    return 1


def s_task(loop, e):
    async def f():
        raise e
    loop.create_task(f())
    return 1


def s_retrieved(loop, e):
    async def f():
        raise e
    t = loop.create_task(f())
    spin(loop)
    t.exception()
    return 0


def s_future(loop, e):
    loop.create_future().set_exception(e)
    return 1


def s_done_callback(loop, e):
    def f(fut):
        raise e
    fut = loop.create_future()
    fut.add_done_callback(f)
    fut.set_result(1)
    return 1


def s_gather(loop, e):
    async def f():
        raise e

    async def g():
        try:
            await asyncio.gather(f(), return_exceptions=True)
        finally:
            pass
    loop.create_task(g())
    return 0


def s_reader(loop, e):
    import socket
    a, b = socket.socketpair()

    def f():
        loop.remove_reader(a)
        a.close()
        b.close()
        raise e
    loop.add_reader(a, f)
    b.send(b"x")
    return 1


def s_protocol(loop, e):
    """A protocol which fails: the transport is told and closed."""
    import socket
    a, b = socket.socketpair()

    class P(asyncio.Protocol):
        def data_received(self, data):
            raise e

    async def go():
        await loop.create_connection(P, sock=a)
        b.send(b"x")
        await asyncio.sleep(0.002)
    loop.run_until_complete(go())
    b.close()
    return 1


def s_asyncgen(loop, e):
    async def gen():
        try:
            yield 1
        finally:
            raise e

    async def go():
        it = gen()
        await it.__anext__()
        return it
    it = loop.run_until_complete(go())
    loop.run_until_complete(loop.shutdown_asyncgens())
    del it
    loop._asyncgens_shutdown_called = False
    return 1


def s_quiet(loop, e):
    return 0


SITUATIONS = {"quiet": s_quiet, "callback": s_callback, "timer": s_timer, "task": s_task,
              "retrieved": s_retrieved, "future": s_future, "done callback": s_done_callback,
              "gather": s_gather, "reader": s_reader, "protocol": s_protocol, "asyncgen": s_asyncgen}


def interpreter(ch):
    """The hook for exceptions which end the program."""
    cls = ch.pick((Boom, Falsy, Empty, Base), "error")
    chain = ch.pick(("none", "cause", "context"), "chain")
    n = ch.pick((1, 2), "handlers")
    tb = ch.pick((True, False), "traceback")
    try:
        try:
            raise KeyError("first")
        except KeyError as k:
            if chain == "cause":
                raise cls("second") from k
            if chain == "context":
                raise cls("second")
        raise cls("second")
    except BaseException as e:
        error = e
    saved = sys.excepthook
    root = logging.getLogger()
    before = root.handlers[:], root.level
    unhandled = logging.getLogger("unhandled")
    ub = unhandled.handlers[:], unhandled.propagate, unhandled.level
    level = ch.pick(("info", "critical", 10), "level")
    captures = [Capture() for _ in range(n)]
    try:
        logging.disable(logging.NOTSET)
        for _ in range(ch.pick((1, 2), "configured")):
            aiomisc_log.basic_config(level=level, log_format=LogFormat.disabled, handlers=captures)
        if sys.excepthook is saved:
            ch.fail("no hook was installed", "excepthook")
        unhandled.setLevel(1)
        sys.excepthook(cls, error, error.__traceback__ if tb else None)
        for c in captures:
            if len(c.records) != 1:
                raise Violation("%d records of one exception" % len(c.records), "excepthook")
            r = c.records[0]
            if r.exc_info[0] is not cls or r.exc_info[1] is not error or \
                    r.exc_info[2] is not (error.__traceback__ if tb else None):
                ch.fail("exc_info %r" % (r.exc_info,), "excepthook")
            text = logging.Formatter("%(message)s").format(r)
            if "Unhandled exception" not in text or "second" not in text or \
                    (cls in (Boom, Base) and (chain != "none") != ("first" in text)):
                ch.fail("text %r" % text, "excepthook")
        # ordinary messages arrive once, too, from the configured level on
        logging.getLogger("some.where").warning("hello %s", "you")
        logging.getLogger("some.where").critical("alarm")
        want = ["alarm"] if level == "critical" else ["hello you", "alarm"]
        for c in captures:
            if [r.getMessage() for r in c.records[1:]] != want:
                ch.fail("records %r" % [r.getMessage() for r in c.records[1:]], "records")
        ch.observe("interpreter", cls.__name__, chain, n, tb)
    finally:
        sys.excepthook = saved
        root.handlers[:], _ = before
        root.setLevel(before[1])
        unhandled.handlers[:], unhandled.propagate, unhandled.level = ub


def guarded(f):
    def run(ch):
        hook, disable = sys.excepthook, logging.root.manager.disable
        try:
            return f(ch)
        finally:
            sys.excepthook = hook
            logging.disable(disable)
            asyncio.set_event_loop(None)
    return run


def units(tier):
    for name, f in (("errors", errors), ("items", items), ("names", names), ("situations", situations),
                    ("interpreter", interpreter)):
        yield Unit(name, guarded(f), bound=0)
