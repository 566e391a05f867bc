"""C30: the Sentry transport with substituted HTTP sessions under all schedules."""
import asyncio
import itertools
import json
import logging
import zlib

import aiohttp


class FakeConnector:
    def __init__(self, **kw):
        self.closed = False
        NET.connectors.append(self)

    async def close(self):
        await asyncio.sleep(0)
        self.closed = True


class FakeResponse:
    def __init__(self, status, headers):
        self.status = status
        self.headers = headers
        self.released = False

    def release(self):
        self.released = True

    close = release

    async def read(self):
        return b""

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.release()


class FakePost:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()

    async def __aenter__(self):
        self.resp = await self.coro
        return self.resp

    async def __aexit__(self, *a):
        self.resp.release()


class FakeSession:
    def __init__(self, connector=None, connector_owner=True, **kw):
        self.connector = connector or FakeConnector()
        self.owner = connector_owner
        self.closed = False
        NET.sessions.append(self)

    async def close(self):
        if not self.closed:
            self.closed = True
            if self.owner:
                await self.connector.close()

    def post(self, url, data=None, headers=None, timeout=None, **kw):
        return FakePost(self._post(url, data, headers, timeout))

    async def _post(self, url, data, headers, timeout):
        if self.closed or self.connector.closed:
            raise RuntimeError("Session is closed")
        limit = getattr(timeout, "total", timeout)
        return await asyncio.wait_for(NET.request(url, data, headers), limit)


class Net:
    """The HTTP server side of one execution."""

    def __init__(self, ch, outcomes, free):
        self.ch = ch
        self.outcomes = outcomes
        self.free = free
        self.connectors = []
        self.sessions = []
        self.requests = []           # event
        self.responses = []
        self.results = {}

    async def request(self, url, data, headers):
        ev = (url, data, tuple(sorted(headers.items())))
        self.requests.append(ev)
        self.ch.observe("request", data if len(data) < 5 else "")
        name = self.ch.pick(self.outcomes, "outcome") if len(self.requests) <= self.free \
            else self.outcomes[0]
        kind, _, dur = name.partition(".")
        if kind == "hang":
            self.results[ev] = name
            await asyncio.get_running_loop().create_future()
        if dur:
            await asyncio.sleep(int(dur) / 10)
        self.results[ev] = name
        if kind == "raise":
            raise ERROR
        status = {"ok": 200}.get(kind) or int(kind)
        head = {"x-sentry-error": "why"}
        if status == 429:
            head.update({"retry-after": {"5": "5", "7": "soon"}.get(dur, "0")})
        r = FakeResponse(status, head)
        self.responses.append(r)
        return r


ERROR = aiohttp.ClientError("boom")
NET = None
_real = aiohttp.TCPConnector, aiohttp.ClientSession
aiohttp.TCPConnector, aiohttp.ClientSession = FakeConnector, FakeSession
import aiomisc.service.raven as target  # noqa: E402
from raven.exceptions import APIError, RateLimited  # noqa: E402
from mc.core import Violation  # noqa: E402
from mc.run import Unit  # noqa: E402
from mc.vloop import Stuck, VLoop, leftover, run_loop  # noqa: E402

PROPERTY = "C30"
ASSUMPTIONS = [
    "aiohttp sessions, connectors and responses behave as their substitutes: a request ends with a "
    "response, with an error or by its time limit, and fails on a closed session",
    "a thread may be delayed between handing an event over and its arrival in the event loop",
]
TIMEOUT = 1


class CallbackError(Exception):
    pass


class Event:
    def __init__(self, w, i):
        self.w, self.i = w, i
        self.key = ("http://s/%d" % i, "d%d" % i, (("h", str(i)),))
        self.reports = []
        self.late = False            # may be refused because of the close
        self.delayed = False

    def send(self):
        w = self.w
        self.late = w.close_called
        w.called.append(self)
        w.transport.async_send("http://s/%d" % self.i, "d%d" % self.i, {"h": str(self.i)},
                               self.ok, self.failed)

    def report(self, value):
        w = self.w
        self.reports.append(value)
        w.ch.observe("report", (self.i, type(value).__name__))
        if len(self.reports) > 1:
            w.ch.fail("event %d is reported twice: %r" % (self.i, self.reports), "twice")
        if self.key not in w.net.requests:
            # refused: full, or closed
            waiting = [e for e in w.called if not e.key in w.net.requests and
                       (not e.reports or e is self)]
            full = w.qsize is not None and len(waiting) > w.qsize
            if value is None:
                w.ch.fail("event %d was not sent but reported as sent" % self.i, "phantom")
            elif not (self.late or w.close_called and self.delayed or w.timed_out() or full and (
                    waiting[0] is self or self.delayed or any(e.delayed for e in waiting))):
                w.ch.fail("event %d was refused (%r) with %d waiting" % (
                    self.i, value, len(waiting)), "refused")
        if self.i in w.bad_callbacks:
            raise CallbackError(self.i)

    def ok(self):
        self.report(None)

    def failed(self, exc):
        if exc is None:
            self.w.ch.fail("failure without a reason", "reason")
        self.report(exc)


class World:
    def __init__(self, ch, loop, net, qsize, bad, close_timeout):
        self.ch, self.loop, self.net = ch, loop, net
        self.qsize = qsize
        self.bad_callbacks = bad
        self.close_timeout = close_timeout
        self.close_called = False
        self.close_at = None
        self.called = []

    def timed_out(self):
        return self.close_timeout is not None and self.close_at is not None and \
            self.loop.time() >= self.close_at + self.close_timeout - 1e-6


def scenario(ch, kind, n, first, outcomes, free, workers=1, qsize=2, keepalive=True, bad=(),
             close_timeout=None, threads=(), closes=1):
    """The first events are sent at once, the others and the close at any moment."""
    global NET
    loop = VLoop(ch)
    net = NET = Net(ch, outcomes, free)
    w = World(ch, loop, net, None if kind == "plain" else qsize, bad, close_timeout)
    real = loop.call_soon_threadsafe

    def threadsafe(cb, *args, context=None):
        ev = w.sending
        if ev is None or not ev.delayed:
            return real(cb, *args)
        w.pending += 1

        def arrive():
            w.pending -= 1
            real(cb, *args)
            if w.progress and not w.progress.done():
                w.progress.set_result(None)
        loop.act("arrive%d" % ev.i, arrive)
    loop.call_soon_threadsafe = threadsafe
    w.sending = None
    w.pending = 0
    w.progress = None

    async def main():
        if kind == "plain":
            tr = target.AioHttpTransport(timeout=TIMEOUT, keepalive=keepalive)
        elif kind == "queued":
            tr = target.QueuedAioHttpTransport(timeout=TIMEOUT, keepalive=keepalive,
                                               workers=workers, qsize=qsize)
        else:
            tr = target.QueuedKeepaliveAioHttpTransport(timeout=TIMEOUT, workers=workers, qsize=qsize)
        w.transport = tr
        events = [Event(w, i) for i in range(n)]
        closed = loop.create_future()

        def send(ev):
            ev.delayed = ev.i in threads
            w.sending = ev
            try:
                ev.send()
            except CallbackError:            # refused at once
                pass
            w.sending = None
            if w.progress and not w.progress.done():
                w.progress.set_result(None)

        for ev in events[:first]:
            send(ev)
        if first and ch.choose((0, 1), "settle"):
            await asyncio.sleep(0)
        for ev in events[first:]:
            loop.act("send%d" % ev.i, lambda ev=ev: send(ev),
                     enabled=lambda ev=ev: ev.i == 0 or events[ev.i - 1] in w.called)

        def close():
            w.close_called = True
            w.close_at = loop.time()
            aw = [tr.close(timeout=close_timeout) if close_timeout is not None else tr.close()
                  for _ in range(closes)]

            async def wait():
                try:
                    for a in aw:
                        await a
                except Exception as e:
                    ch.fail("close() raised %r" % e, "close-raised")
                if close_timeout is not None and loop.time() > w.close_at + close_timeout + 1e-6:
                    ch.fail("close took %.3f s" % (loop.time() - w.close_at), "close-late")
                closed.set_result(None)
            loop.create_task(wait())
        loop.act("close", close)
        await closed
        if not w.pending and len(w.called) == n:
            for _ in range(3):
                await asyncio.sleep(0)
            left = [t for t in leftover(loop) if t is not me]
            if left:
                raise Violation("left after close: %r" % left, "leftover")
        while w.pending or len(w.called) < n:
            w.progress = loop.create_future()
            await w.progress
        await asyncio.sleep(3)
        left = [t for t in leftover(loop) if t is not me]
        if left:
            raise Violation("left after close: %r" % left, "leftover")
        return events
    try:
        me = loop.create_task(main())
        events = run_loop(loop, me)
    except Stuck as e:
        raise Violation("stuck: %s; reports %r" % (e, [
            [type(r).__name__ for r in ev.reports] for ev in w.called]), "stuck")
    return check(w, net, events)


def check(w, net, events):
    if len(set(net.requests)) != len(net.requests):
        raise Violation("an event was sent twice: %r" % net.requests, "requests")
    keys = [e.key for e in w.called]
    if [k for k in net.requests if k not in keys]:
        raise Violation("unknown request %r" % net.requests, "unknown")
    order = [k for k in keys if k in net.requests]
    if not any(e.delayed for e in w.called) and order != net.requests:
        raise Violation("order %r" % net.requests, "order")
    out = []
    for e in events:
        if len(e.reports) != 1:
            raise Violation("event %d is reported %d times" % (e.i, len(e.reports)), "unreported")
        r = e.reports[0]
        name = net.results.get(e.key) or "cut"
        sent = e.key in net.requests
        kind = name.split(".")[0]
        if not sent:
            good = isinstance(r, BaseException)
        elif isinstance(r, asyncio.CancelledError) or kind == "cut":
            good = w.timed_out() and r is not None
        elif kind == "ok":
            good = r is None
        elif kind == "raise":
            good = r is ERROR
        elif kind == "hang":
            good = isinstance(r, asyncio.TimeoutError)
        elif kind == "429":
            good = isinstance(r, RateLimited) and r.retry_after == (5 if name == "429.5" else 0)
        else:
            good = isinstance(r, APIError) and r.code == int(kind)
        if not good:
            raise Violation("event %d (%s) is reported as %r" % (e.i, name, r), "report")
        out.append((e.i, sent, type(r).__name__))
    if [s for s in net.sessions if not s.closed] or [c for c in net.connectors if not c.closed]:
        raise Violation("a session is not closed", "session")
    if [r for r in net.responses if not r.released]:
        raise Violation("a response is not released", "response")
    bad = [c for c in w.loop.unhandled if not isinstance(c.get("exception"), CallbackError)]
    if bad:
        raise Violation("unhandled %r" % bad[0], "unhandled")
    return tuple(out)


class Accept(logging.Filter):
    def filter(self, record):
        return "skip" not in record.getMessage()


def service(ch, n, min_level, filters, outcomes, when):
    """Records of any logger are sent by the service while it runs."""
    global NET
    loop = VLoop(ch)
    net = NET = Net(ch, outcomes, n)
    root = logging.getLogger()
    saved = root.handlers[:], root.level, root.manager.disable
    root.manager.disable = 0
    root.setLevel(logging.DEBUG)
    root.handlers[:] = [logging.NullHandler()]
    want = []
    svc = target.RavenSender(
        sentry_dsn=target.yarl.URL("http://k:s@sentry.test/7"), min_level=min_level,
        filters=[Accept()] if filters else [], client_options={
            "auto_log_stacks": False, "enable_breadcrumbs": False, "install_sys_hook": False,
            "install_logging_hook": False})

    def emit(i, running):
        level = ch.pick((30, 40, 20), "level")
        msg = ch.pick(("m", "skip"), "message") if filters else "m"
        logging.getLogger("c30.x").log(level, "%s%d", msg, i)
        if running and level >= min_level and (msg == "m" or not filters):
            want.append("%s%d" % (msg, i))

    async def main():
        if when == "before":
            emit(0, False)
        await svc.start()
        for i in range(n):
            emit(i, True)
            if ch.choose((0, 1), "turn"):
                await asyncio.sleep(0.05)
        await svc.stop(None)
        if when == "after":
            emit(9, False)
        await asyncio.sleep(3)
        left = [t for t in leftover(loop) if t is not me]
        if left:
            raise Violation("left after stop: %r" % left, "leftover")
    try:
        me = loop.create_task(main())
        run_loop(loop, me)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")
    finally:
        root.handlers[:] = saved[0]
        root.setLevel(saved[1])
        root.manager.disable = saved[2]
    got = []
    for url, data, head in net.requests:
        if url != "http://sentry.test/api/7/store/":
            raise Violation("url %r" % url, "url")
        got.append(json.loads(zlib.decompress(data))["sentry.interfaces.Message"]["formatted"])
    if got != want:
        raise Violation("sent %r, logged %r" % (got, want), "service")
    if [s for s in net.sessions if not s.closed] or [c for c in net.connectors if not c.closed]:
        raise Violation("a session is not closed", "session")
    return tuple(got)


def units(tier):
    deep = tier == "thorough"

    def add(kind, n, first, outcomes, free, bound=2, w=2, **kw):
        name = "%s %d/%d %s free=%d %s bound=%d" % (
            kind, first, n, "+".join(outcomes), free,
            " ".join("%s=%s" % (k, v) for k, v in kw.items()), bound)
        return Unit(name, lambda ch: scenario(ch, kind, n, first, outcomes, free, **kw),
                    bound=bound, cap=200000 if deep else 30000, weight=w)

    every = ("ok", "ok.3", "500", "429", "429.5", "429.7", "raise", "raise.3", "hang")
    some = ("ok.3", "raise", "hang")
    x = int(deep)
    for kind, keepalive in (("plain", True), ("plain", False), ("queued", True), ("queued", False),
                            ("keepalive", True)):
        kw = {} if kind == "keepalive" else {"keepalive": keepalive}
        yield add(kind, 1, 0, every, 1, bound=3 + x, **kw)
        yield add(kind, 2, 0, every, 2, bound=1 + x, w=4, **kw)
        yield add(kind, 2, 2, every, 2, bound=2 + x, w=4, **kw)
        yield add(kind, 3, 3, some, 3, bound=2 + x, qsize=3, w=4, **kw)
        yield add(kind, 3, 1, some, 2, bound=2 + x, w=6, **kw)
        yield add(kind, 2, 1, some, 2, bound=2 + x, bad=(0,), w=4, **kw)
        yield add(kind, 2, 0, ("ok.3", "500"), 1, bound=2 + x, bad=(0, 1), w=4, **kw)
        yield add(kind, 1, 0, ("ok.3", "hang"), 1, bound=2 + x, closes=2, **kw)
        for t in (0, 0.2, 0.5, 5):
            yield add(kind, 2, 1, ("ok.3", "ok", "hang"), 2, bound=2, close_timeout=t, w=4, **kw)
            yield add(kind, 3, 3, ("hang", "ok.3"), 2, bound=2, close_timeout=t, qsize=1, w=3, **kw)
            yield add(kind, 1, 1, ("ok.3",), 1, bound=2, close_timeout=t, threads=(0,), **kw)
        for threads in ((0,), (1,), (0, 1)):
            yield add(kind, 2, 0, ("ok.3", "hang"), 1, bound=2 + x, threads=threads, qsize=1, w=4, **kw)
            yield add(kind, 2, 1, ("ok.3", "hang"), 1, bound=2 + x, threads=threads, qsize=2, w=4, **kw)
        if kind == "plain":
            continue
        for workers, qsize in itertools.product((1, 2, 3), (1, 2)):
            if (workers, qsize) == (1, 2):
                continue
            yield add(kind, 3, 1, some, 2, bound=2, workers=workers, qsize=qsize, w=6, **kw)
            yield add(kind, 4, 4, ("ok", "hang"), 2, bound=2, workers=workers, qsize=qsize, w=4, **kw)
            yield add(kind, 3, 2, ("ok.3", "raise"), 2, bound=2, workers=workers, qsize=qsize,
                      threads=(2,), w=6, **kw)
            yield add(kind, 2, 2, ("hang", "ok"), 2, bound=2, workers=workers, qsize=qsize,
                      bad=(0, 1), w=4, **kw)
        for t in (0, 0.5):
            for bad in ((1,), (1, 2), (0, 1, 2)):
                yield add(kind, 3, 3, ("hang", "ok.3"), 1, bound=2, qsize=3, bad=bad,
                          close_timeout=t, w=4, **kw)
    for when in ("before", "after"):
        for lvl, flt in ((30, False), (40, False), (30, True)):
            yield Unit("service %s min=%d filter=%s" % (when, lvl, flt),
                       lambda ch, lvl=lvl, flt=flt, when=when: service(
                           ch, 2, lvl, flt, ("ok", "ok.3"), when),
                       bound=1, cap=20000, weight=8)
