"""C32: parameters of services: validation, attributes, pickling."""
import asyncio
import copy
import functools
import itertools
import pickle
import socket
import sys
import threading

import aiomisc
from aiomisc import Service
from aiomisc import service as services
from aiomisc._context_vars import EVENT_LOOP
from aiomisc.context import Context, get_context
from aiomisc.service import base
from mc.core import Violation
from mc.run import Unit
from mc.vloop import VLoop, run_loop

PROPERTY = "C32"
ASSUMPTIONS = [
    "a subclass which declares __required__ or __async_required__ replaces the inherited declaration",
    "parameters are not named like members of the Service class, and the parameters are picklable",
]

HERE = sys.modules[__name__]
UNSET = object()
NAMES = ("a", "b", "c")


async def _start(self):
    pass


def make(name, bases, dct):
    dct = dict({"__module__": __name__, "__qualname__": name, "start": _start}, **dct)
    k = type(Service)(name, bases, dct)
    setattr(HERE, name, k)
    return k


# -- classes and arguments ---------------------------------------------------
def classes(ch, depth):
    """Picks a chain of classes; returns it with what every class requires and defaults to."""
    out, req, defs = [], frozenset(), {}
    k = Service
    for i in range(depth):
        dct = {}
        own = ch.pick((None, (), ("a",), ("a", "b"), ("b", "c")), "required")
        if own is not None:
            kind = ch.pick((tuple, frozenset, list, set), "container") if i == 0 else tuple
            dct["__required__"] = kind(own)
            req = frozenset(own)
        own = ch.pick(((), ("a",), ("b",), ("b", "c")), "defaults")
        for n in own:
            dct[n] = defs[n] = (n, i) if n != "b" else None
        defs = dict(defs)
        k = make("K%d" % i, (k,), dct)
        out.append((k, req, dict(defs)))
    return out


def attributes(ch, depth):
    chain = classes(ch, depth)
    subsets = [s for n in range(4) for s in itertools.combinations(NAMES, n)]
    values = {"a": 1, "b": [2], "c": None, "extra": "x"}
    count = 0
    for k, req, defs in chain:
        if k.__required__ != req:
            raise Violation("%r requires %r" % (req, k.__required__), "required")
        made = []
        for s in subsets:
            for extra in (False, True):
                kw = {n: values[n] for n in s + ("extra",) * extra}
                count += 1
                try:
                    o = k(**kw)
                except Exception as e:
                    if req <= set(kw):
                        raise Violation("%s(%s) raised %r" % (k, kw, e), "rejected")
                    if not isinstance(e, AttributeError):
                        raise Violation("lost arguments raised %r" % e, "rejected-with")
                    missing = req - set(kw)
                    if not all(n in str(e) for n in missing):
                        raise Violation("%r does not name %r" % (e, missing), "rejected-with")
                    continue
                if not req <= set(kw):
                    raise Violation("%r was created without %r" % (kw, req - set(kw)), "accepted")
                made.append((o, kw))
        for o, kw in made:
            for n in NAMES + ("extra",):
                want = kw[n] if n in kw else defs.get(n, UNSET)
                got = getattr(o, n, UNSET)
                if got is not want:
                    raise Violation("%s is %r instead of %r" % (n, got, want), "attribute")
                if hasattr(o, n) != (want is not UNSET):
                    raise Violation("hasattr(%r)" % n, "attribute")
        for n, v in defs.items():
            if getattr(k, n) is not v:
                raise Violation("default %s became %r" % (n, getattr(k, n)), "default")
    ch.observe("classes", repr([(sorted(r), sorted(d)) for _, r, d in chain]))
    return count


# -- asynchronous methods -----------------------------------------------------
async def co(self, *a):
    pass


def plain(self, *a):
    pass


async def agen(self, *a):
    yield


@functools.wraps(co)
def wrapped(self, *a):
    return co(self)


class Callable:
    def __call__(self, *a):
        pass


KINDS = {
    "async": (co, True), "plain": (plain, False), "agen": (agen, False),
    "wrapped": (wrapped, False), "object": (Callable(), False), "none": (None, False),
    "timeout": (aiomisc.timeout(1)(co), True), "static": (staticmethod(co), True),
    "static plain": (staticmethod(plain), False), "class": (classmethod(co), True),
    "partial": (functools.partial(co), True), "value": (5, False),
    "threaded": (aiomisc.threaded(plain), False),
}


DECLARED = (None, (), ("start",), ("run",), ("start", "stop", "run"))
GIVEN = ((), ("b",), ("c", "items"), ("b", "c", "items", "extra"), ("extra",))


def asynchronous(ch, names, first=None):
    """Methods in a class, its base, or a mixin; declarations in the class or its base."""
    declared = {"start", "stop"}
    spaces = [{}, {}]
    for i in (0, 1):
        own = ch.pick((DECLARED if first is None else DECLARED[first:first + 1]) if i == 0
                      else (None, ("run",), ("start", "run")), "declared")
        if own is not None:
            spaces[i]["__async_required__"] = ch.pick((tuple, list), "kind")(own) if i == 0 else own
    mixin = {}
    known = {}
    where = {}
    for n in names:
        k = ch.pick(("missing",) + tuple(KINDS), n)
        if k == "missing":
            continue
        known[n] = KINDS[k][1]
        where[n] = ch.pick(("base", "child", "mixin"), "where")
        {"base": spaces[0], "child": spaces[1], "mixin": mixin}[where[n]][n] = KINDS[k][0]

    def ok(level):
        d = declared
        for i in range(level + 1):
            d = spaces[i].get("__async_required__", d)
        for n in d:
            seen = n in known and (where[n] == "base" or level == 1)
            good = known[n] if seen else n in ("start", "stop")
            if not good:
                return False
        return True

    k = Service
    for level in (0, 1):
        bases = (k,) if level == 0 or not mixin else (type("Mixin", (), dict(mixin)), k)
        want = ok(level)
        try:
            k = type(Service)("A%d" % level, bases, dict(spaces[level]))
            got = True
        except Exception as e:
            got = False
            e = repr(e)
        if got != want:
            raise Violation("class with %r %r %r: %s" % (spaces, mixin, known, "defined" if got else e),
                            "async-accepted" if got else "async-refused")
        if not got:
            break
    ch.observe("async", got, level)
    return got


# -- histories ----------------------------------------------------------------
class Sample(Service):
    __required__ = ("a",)
    b = "default"
    items = ()

    async def start(self):
        self.context["c32"] = self.a


class SampleChild(Sample):
    c = "child"


COPIES = [("pickle%d" % p, lambda o, p=p: pickle.loads(pickle.dumps(o, p)))
          for p in range(pickle.HIGHEST_PROTOCOL + 1)]
COPIES += [("copy", copy.copy), ("deepcopy", copy.deepcopy),
           ("list", lambda o: pickle.loads(pickle.dumps([o, o]))[1]),
           ("twice", lambda o: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(o)))))]


class Tracked:
    def __init__(self, o, given, values):
        self.o, self.given, self.values = o, set(given), dict(values)

    def check(self, where):
        k = type(self.o)
        for n in ("a", "b", "c", "items", "extra", "other"):
            want = self.values.get(n, getattr(k, n, UNSET))
            got = getattr(self.o, n, UNSET)
            if got != want:
                raise Violation("%s: %s is %r instead of %r" % (where, n, got, want), where)


def history(ch, k, depth, first=None):
    given = {"a": 1}
    for n in ch.pick(GIVEN if first is None else GIVEN[first:first + 1], "given"):
        given[n] = n + "0"
    live = [Tracked(k(**given), given, given)]
    v = 0
    for step in range(depth):
        op = ch.pick(("set", "copy", "mutate", "attach"), "op")
        t = ch.pick(live, "object")
        if op == "attach":
            t.o.tool = threading.Lock()     # not to be copied, and no parameter
        elif op == "set":
            n = ch.pick(("a", "b", "extra", "other"), "name")
            v += 1
            value = ch.pick((v, None), "value")
            setattr(t.o, n, value)
            t.values[n] = value
        elif op == "copy":
            name, how = ch.pick(COPIES if step == 0 else COPIES[2:3] + COPIES[-4:-2], "how")
            try:
                o = how(t.o)
            except Exception as e:
                raise Violation("%s raised %r" % (name, e), "copy-raised")
            if type(o) is not k:
                raise Violation("%s gave %r" % (name, o), "copy-type")
            new = Tracked(o, t.given, {n: x for n, x in t.values.items() if n in t.given})
            # an attribute which has never been a parameter belongs to the object alone
            new.loose = set(t.values) - t.given
            for n in new.loose:
                if getattr(o, n, UNSET) not in (t.values[n], getattr(k, n, UNSET)):
                    raise Violation("%s is %r in the copy" % (n, getattr(o, n)), "copy-loose")
                if getattr(o, n, UNSET) is not UNSET:
                    new.values[n] = getattr(o, n)
            if new.o is t.o:
                raise Violation("%s gave the same object" % name, "copy-same")
            live.append(new)
        elif op == "mutate":
            # must stay private to this object and its parameters
            t.o.items = t.values["items"] = t.o.items + ("more",) if isinstance(t.o.items, tuple) \
                else t.o.items + "more"
        for x in live:
            x.check("after " + op)
    ch.observe("history", tuple(tuple(sorted(map(repr, t.values.items()))) for t in live))
    return len(live)


def running(ch, k, kw):
    """A restored service is started like any other."""
    name, how = ch.pick(COPIES, "how")
    early = ch.choose((0, 0), "context before")
    orig = k(**kw)
    if early == 1:
        try:
            orig.start_event
            raise Violation("start_event before the loop is known", "event")
        except RuntimeError:
            pass
    o = how(orig)
    try:
        o.start_event
        raise Violation("start_event before the loop is known", "event")
    except RuntimeError:
        pass
    except AttributeError as e:
        raise Violation("start_event of a restored service: %r" % e, "event")

    async def main(vl):
        for x in (orig, o) if ch.choose((0, 0), "both") else (o,):
            x.set_loop(asyncio.get_running_loop())
            if not isinstance(x.start_event, asyncio.Event) or x.start_event.is_set():
                raise Violation("start_event %r" % (x.start_event,), "event")
            try:
                if x.context is not get_context():
                    raise Violation("context is another one", "context")
            except AttributeError as e:
                raise Violation("context of a restored service: %r" % e, "context")
            await x.start()
            if isinstance(x, Sample) and await get_context()["c32"] != kw["a"]:
                raise Violation("wrong value in the context", "context")
            get_context()["c32"] = None
            await x.stop(None)

    loop = VLoop(ch)
    EVENT_LOOP.set(loop)
    ctx = Context(loop=loop)
    try:
        run_loop(loop, main(loop))
    finally:
        ctx.close()
    return name


# -- the services of the package ----------------------------------------------
def shipped():
    from aiomisc.service import TCPServer, UDPServer, TLSServer, TCPClient, RobustTCPClient
    from aiomisc.service import TLSClient, RobustTLSClient
    from aiomisc.service.cron import CronService
    from aiomisc.service.periodic import PeriodicService
    from aiomisc.service import MemoryTracer, Profiler, ProcessService, RespawningProcessService
    from aiomisc.service.sdwatchdog import SDWatchdogService
    tls = dict(cert="c.pem", key="k.pem")
    addr = dict(address="127.0.0.1", port=1)
    out = [
        (TCPServer, addr), (UDPServer, addr), (TLSServer, dict(addr, **tls)), (TCPClient, addr),
        (RobustTCPClient, addr), (TLSClient, dict(addr, **tls)), (RobustTLSClient, dict(addr, **tls)),
        (PeriodicService, dict(interval=1)), (CronService, {}), (MemoryTracer, {}), (Profiler, {}),
        (ProcessService, {}), (RespawningProcessService, {}), (SDWatchdogService, {}),
    ]
    for mod, name, kw in (
        ("aiohttp", "AIOHTTPService", addr), ("aiohttp", "AIOHTTPSSLService", dict(addr, **tls)),
        ("asgi", "ASGIHTTPService", addr), ("asgi", "ASGIHTTPSSLService", dict(addr, **tls)),
        ("uvicorn", "UvicornService", addr), ("grpc_server", "GRPCService", {}),
        ("dns.tcp", "TCPDNSServer", dict(addr, records=None)), ("dns.udp", "UDPDNSServer", dict(addr, records=None)),
        ("raven", "RavenSender", dict(sentry_dsn="http://x")),
    ):
        try:
            m = __import__("aiomisc.service." + mod, fromlist=["x"])
        except ImportError:
            continue
        k = getattr(m, name, None)
        if k is not None:
            out.append((k, kw))
    return out


def concrete(k, **dct):
    for n in getattr(k, "__abstractmethods__", ()):
        dct.setdefault(n, co)
    return type(k)("My" + k.__name__, (k,), dct)


def package(ch):
    k, kw = ch.pick(shipped(), "service")
    extra = ch.choose((0, 0), "extra")
    req = ch.choose((0, 0), "require")
    dct = {"color": "red"}
    if req:
        dct["__required__"] = tuple(k.__required__) + ("taste",)
    c = concrete(k, **dct)
    args = dict(kw)
    if extra:
        args.update(taste="sweet", color="blue", smell=None)
    try:
        o = c(**args)
    except Exception as e:
        if req and not extra and isinstance(e, AttributeError) and "taste" in str(e):
            ch.observe("package", k.__name__, "refused")
            return "refused"
        raise Violation("%s(%r) raised %r" % (k.__name__, args, e), "package-raised")
    if req and not extra:
        raise Violation("%s was created without a required argument" % k.__name__, "package-accepted")
    want = {"color": "blue" if extra else "red"}
    if extra:
        want.update(taste="sweet", smell=None)
    for n in ("name", "taste", "color") if ch.choose((0, 0), "assign") else ():
        setattr(o, n, n + "!")
        want[n] = n + "!"
    for n, v in want.items():
        if getattr(o, n) != v:
            raise Violation("%s.%s is %r" % (k.__name__, n, getattr(o, n)), "package-attribute")
    for n in k.__required__:
        args2 = {m: v for m, v in args.items() if m != n}
        try:
            c(**args2)
        except (AttributeError, TypeError):
            continue
        raise Violation("%s was created without %s" % (k.__name__, n), "package-accepted")
    # a method which has to be a coroutine function
    for n in k.__async_required__:
        try:
            concrete(k, **{n: plain})
        except TypeError:
            continue
        raise Violation("%s with a plain %s" % (k.__name__, n), "package-async")
    ch.observe("package", k.__name__, extra, req)
    return k.__name__


def units(tier):
    deep = tier == "thorough"
    cap = 2000000 if deep else 100000
    yield Unit("attributes 1", lambda ch: attributes(ch, 1), bound=0, cap=cap, weight=1)
    yield Unit("attributes 2", lambda ch: attributes(ch, 2), bound=0, cap=cap, weight=20)
    if deep:
        yield Unit("attributes 3", lambda ch: attributes(ch, 3), bound=0, cap=cap, weight=200)
    for i in range(5) if deep else ():
        yield Unit("async start+stop+run %d" % i, lambda ch, i=i: asynchronous(
            ch, ("start", "stop", "run"), i), bound=0, cap=cap, weight=100)
        for k in (Sample, SampleChild):
            yield Unit("history %s %d" % (k.__name__, i), lambda ch, k=k, i=i: history(ch, k, 4, i),
                       bound=0, cap=cap, weight=100)
    for names in (("start", "stop"), ("start", "run"), ("stop", "run")):
        yield Unit("async %s" % "+".join(names), lambda ch, names=names: asynchronous(ch, names),
                   bound=0, cap=cap, weight=40)
    for k in (Sample, SampleChild):
        yield Unit("history %s" % k.__name__, lambda ch, k=k: history(ch, k, 3),
                   bound=0, cap=cap, weight=60)
        yield Unit("running %s" % k.__name__, lambda ch, k=k: running(ch, k, {"a": 3}),
                   bound=0, cap=cap)
    yield Unit("package", package, bound=0, cap=cap, weight=5)
