"""C33: notifications of the systemd watchdog service."""
import asyncio
import importlib
import os
import socket
import sys

import aiomisc.entrypoint  # noqa: F401
from aiomisc import Service, entrypoint
from aiomisc._context_vars import EVENT_LOOP
from aiomisc.service import sdwatchdog
from aiomisc.signal import Signal
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C33"
ASSUMPTIONS = [
    "the notification socket accepts a datagram or fails with an OSError; sockets are substituted",
    "the event loop is responsive: callbacks take no time",
]
ep_module = sys.modules["aiomisc.entrypoint"]
EPS = 1e-6


class Boom(Exception):
    pass


class FakeSocket:
    def __init__(self, net, *args):
        self.net, self.args = net, args
        self.address = None
        self.blocking = True
        self.closed = False
        net.sockets.append(self)

    def connect(self, address):
        self.address = address

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def close(self):
        if self.closed:
            raise Violation("closed twice", "close")
        self.closed = True

    def fileno(self):
        return -1 if self.closed else 99


class Net:
    """What the service manager receives."""

    def __init__(self, ch, faults):
        self.ch, self.faults = ch, faults
        self.sockets = []
        self.log = []            # (time, event)

    def ev(self, *e):
        self.log.append((self.loop.vtime,) + e)
        self.ch.observe(*map(str, e))


class Loop(VLoop):
    async def sock_sendall(self, sock, data):
        net = self.net
        if not isinstance(sock, FakeSocket) or sock.closed or sock.blocking or sock.address is None:
            net.ch.fail("datagram on a socket which is not connected", "socket")
        kind, failed = "ok", False
        if net.faults:
            kind = ("ok", "refused", "slow", "nobufs")[net.ch.choose((0, 1, 1, 1), "send")]
        failed = kind in ("refused", "nobufs")
        text = data.decode()
        if kind == "slow":
            await asyncio.sleep(0.05)
        net.ev("lost" if failed else "sent", text)
        if kind == "refused":
            raise ConnectionRefusedError("nobody listens")
        if kind == "nobufs":
            raise OSError(105, "No buffer space available")


class Other(Service):
    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o

    async def start(self):
        k = self.skind
        self.net.ev("start", self.n)
        if k == "slow":
            await asyncio.sleep(1.3)
        elif k == "hang":
            await asyncio.sleep(1e6)
        elif k == "fail":
            raise Boom
        elif k == "failslow":
            await asyncio.sleep(0.9)
            raise Boom
        elif k == "sig":
            await asyncio.sleep(0.4)
            self.net.ev("started", self.n)
            self.start_event.set()
            await asyncio.Event().wait()
        self.net.ev("started", self.n)

    async def stop(self, exception=None):
        self.net.ev("stop", self.n)
        if self.pkind == "slow":
            await asyncio.sleep(3.7)
        elif self.pkind == "fail":
            raise Boom
        self.net.ev("stopped", self.n)


FAILING = ("fail", "failslow")


def scenario(ch, address, env, given, others, where, body, faults=False, dynamic=(), cancel=None):
    net = Net(ch, faults)
    loop = net.loop = Loop(ch)
    loop.net = net
    loop.exec_urgent = True
    real = socket.socket
    saved = ep_module.entrypoint
    environ = {k: os.environ.pop(k, None) for k in ("NOTIFY_SOCKET", "WATCHDOG_USEC")}

    class Entry(entrypoint):
        PRE_START, POST_START, PRE_STOP, POST_STOP = Signal(), Signal(), Signal(), Signal()

    EVENT_LOOP.set(loop)
    try:
        if address is not None:
            os.environ["NOTIFY_SOCKET"] = address
        if env is not None:
            os.environ["WATCHDOG_USEC"] = str(int(env * 1000000))
        m = importlib.reload(sdwatchdog)
        ep_module.entrypoint = Entry
        m.setup()
        socket.socket = lambda *a, **kw: FakeSocket(net, *a, **kw)

        class Watch(m.SDWatchdogService):
            def __hash__(self):
                return 50

            async def start(self):
                net.ev("watch-start")
                await super().start()
                net.ev("watch-started")

            async def stop(self, exception=None):
                net.ev("watch-stop")
                await super().stop(exception)
                net.ev("watch-stopped")

        try:
            w = Watch(**({} if given is ... else {"watchdog_interval": given}))
        except Exception as e:
            raise Violation("the service cannot be created: %r" % e, "create")
        interval = env if given is ... else given
        svcs = [Other(n=i, skind=a, pkind=b, net=net) for i, (a, b) in enumerate(others)]
        listed = list(svcs)
        listed.insert(min(where, len(listed)), w)
        st = {"entered": None, "left": None, "error": None}

        async def main():
            ep = Entry(*listed, loop=loop, log_config=False)

            async def life():
                async with ep:
                    net.ev("entered")
                    if ep_extra and ep_extra[0] == "early":
                        raise Boom
                    for op in dynamic:
                        if op == "start":
                            s = Other(n=len(svcs), skind="ret", pkind="ok", net=net)
                            svcs.append(s)
                            await ep.start_services(s)
                        elif op == "stop":
                            net.dynamic_stop = True
                            net.ev("dyn")
                            await ep.stop_services(svcs[-1])
                            net.ev("dyn-end")
                        elif op == "failing":
                            try:
                                await ep.start_services(Other(n=77, skind="fail", pkind="ok", net=net))
                            except Boom:
                                pass
                    await asyncio.sleep(body)
                    net.ev("leaving")
                    if ep_extra:
                        raise Boom
            try:
                if cancel is None:
                    await life()
                else:
                    await asyncio.wait_for(life(), cancel)
            except (Boom, asyncio.TimeoutError) as e:
                st["error"] = e
            net.ev("over")
            await asyncio.sleep(10)

        ep_extra = ch.pick(((), ("late",)), "exit") if dynamic else ()
        try:
            run_loop(loop, main())
        except Stuck as e:
            raise Violation("stuck: %s" % e, "stuck")
    finally:
        socket.socket = real
        ep_module.entrypoint = saved
        for k, v in environ.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    check(net, address, env, interval, svcs, st)
    return len(net.log)


def check(net, address, env, interval, svcs, st):
    log = net.log
    grams = [(i, t, e[1], e[0]) for i, (t, *e) in enumerate(log) if e[0] in ("sent", "lost")]
    names = [e[0] if e[0] not in ("sent", "lost") else "%s %s" % tuple(e) for t, *e in log]

    def at(*e):
        for i, (t, *x) in enumerate(log):
            if tuple(x) == e:
                return i
        return None

    if not address:
        if grams or net.sockets:
            raise Violation("not silent without a notification socket: %r" % grams, "silent")
        if at("entered") is None and not st["error"]:
            raise Violation("the services were not started", "start")
        return
    if len(net.sockets) != 1:
        raise Violation("%d sockets" % len(net.sockets), "socket")
    sock = net.sockets[0]
    want = "\0" + address[1:] if address[0] == "@" else address
    if sock.address != want or tuple(sock.args[:2]) != (socket.AF_UNIX, socket.SOCK_DGRAM):
        raise Violation("socket %r connected to %r" % (sock.args, sock.address), "socket")
    for i, t, text, _ in grams:
        if text.split("=")[0] not in ("STATUS", "READY", "STOPPING", "WATCHDOG", "WATCHDOG_USEC") or "\n" in text:
            raise Violation("datagram %r" % text, "datagram")
    entered = at("entered")
    ready = [i for i, t, x, _ in grams if x == "READY=1"]
    bad = [x for i, t, x, _ in grams if x.startswith(("READY=", "STOPPING=", "WATCHDOG=")) and x[-2:] != "=1"]
    if bad:
        raise Violation("datagrams %r" % bad, "datagram")
    if entered is None:
        if ready:
            raise Violation("readiness was announced although the start failed: %r" % names, "ready-failed")
    else:
        if len(ready) != 1:
            raise Violation("readiness announced %d times: %r" % (len(ready), names), "ready")
        for s in svcs:
            if s.n < 50 and at("started", s.n) is not None and at("started", s.n) < entered and \
                    at("started", s.n) > ready[0]:
                raise Violation("readiness announced before service %d started" % s.n, "ready-early")
        if ready[0] < at("watch-started"):
            raise Violation("readiness announced before the watchdog started", "ready-early")
        if ready[0] > entered:
            raise Violation("readiness announced late", "ready")
    # heartbeats
    beats = [(i, t) for i, t, x, _ in grams if x == "WATCHDOG=1"]
    usec = [(i, x) for i, t, x, _ in grams if x.startswith("WATCHDOG_USEC=")]
    if interval is None:
        if beats or usec:
            raise Violation("heartbeats without an interval: %r" % names, "beats-none")
    else:
        if interval != env:
            if [x for i, x in usec] != ["WATCHDOG_USEC=%d" % round(interval * 1000000)]:
                raise Violation("announced intervals %r" % usec, "usec")
            if beats and beats[0][0] < usec[0][0]:
                raise Violation("heartbeat before the interval was announced", "usec")
        elif usec:
            raise Violation("announced %r, the manager knows it" % usec, "usec")
        started, stop = at("watch-started"), at("watch-stop")
        if started is not None:
            begin = log[started][0]
            end = log[stop][0] if stop is not None else log[-1][0]
            slack = 0.1 if net.faults else 0
            moments = [begin - interval / 2] + [t for i, t in beats] + ([end] if stop is not None or entered is not None else [])
            for i, (a, b) in enumerate(zip(moments, moments[1:])):
                if b - a > interval / 2 + slack + EPS:
                    raise Violation("no heartbeat between %.3f and %.3f (interval %s): %r" % (
                        a, b, interval, names), "beat-missing")
                last = i == len(moments) - 2 and len(moments) > len(beats) + 1
                if b - a < interval / 2 - slack - EPS and not last:
                    raise Violation("heartbeats at %.3f and %.3f (interval %s)" % (a, b, interval), "beat-early")
            for i, t in beats:
                if t < begin - EPS or stop is not None and i > (at("watch-stopped") or at("over")):
                    raise Violation("heartbeat at %.3f, outside of the service's life" % t, "beat-outside")
        elif beats:
            raise Violation("heartbeats of a service which did not start", "beat-outside")
    # the end
    stopping = [i for i, t, x, _ in grams if x == "STOPPING=1"]
    stops = [i for i, (t, *e) in enumerate(log) if e[0] in ("stop", "watch-stop")]
    dyn = (at("dyn"), at("dyn-end"))
    final = [i for i in stops if dyn[0] is None or not dyn[0] < i < dyn[1]]
    if entered is None and not stops:
        if stopping:
            raise Violation("stopping announced by an entrypoint which did not start", "stopping")
        return
    if len(stopping) != 1:
        raise Violation("stopping announced %d times: %r" % (len(stopping), names), "stopping")
    if final and stopping[0] > min(final):
        raise Violation("stopping announced when the services were already being stopped: %r" % names,
                        "stopping-late")
    if stopping[0] < at("entered") or at("leaving") is not None and stopping[0] < at("leaving"):
        raise Violation("stopping announced while running: %r" % names, "stopping-early")
    if any(i > at("over") for i, *_ in grams):
        raise Violation("datagrams after the end", "after")
    if not sock.closed:
        raise Violation("the socket is left open", "close")


def units(tier):
    deep = tier == "thorough"
    cap = 300000
    ok = [("ret", "ok"), ("slow", "ok"), ("sig", "slow"), ("ret", "slow"), ("sig", "fail")]
    broken = [("fail", "ok"), ("failslow", "ok"), ("hang", "ok")]
    n = 0
    addresses = (None, "", "/run/notify", "@abstract/x")
    for a in addresses:
        for env in (None, 1.0, 5):
            for given in (..., None, 0.5, 1.0, 7):
                def run(ch, a=a, env=env, given=given):
                    return scenario(ch, a, env, given, ch.pick(([], [ok[1]], [ok[2]]), "others"),
                                    ch.pick((0, 1), "where"), ch.pick((0, 0.2, 0.25, 2.6), "body"))
                yield Unit("config %r env=%s given=%s" % (a, env, "default" if given is ... else given),
                           run, bound=0, cap=cap, weight=1)
    lists = [[x] for x in ok + broken] + [[x, y] for x in ok for y in ok + broken] + \
        [[y, x] for x in ok for y in broken]
    for others in lists:
        def run(ch, others=others):
            cancel = 2.1 if any(k == "hang" for k, _ in others) else ch.pick(
                (None, 0.2, 1.0, 2.1, 3.5), "cancel")
            return scenario(ch, "/run/notify", 1.0, ..., others, ch.pick(range(len(others) + 1), "where"),
                            ch.pick((0, 0.3, 0.5, 1.7), "body"), cancel=cancel)
        yield Unit("life %s" % "+".join("%s/%s" % x for x in others), run, bound=1 if deep else 0, cap=cap, weight=2)
    for others in [x for x in (lists[:5] if not deep else lists) if ("hang", "ok") not in x]:
        def run(ch, others=others):
            return scenario(ch, "@x", 1.0, ch.pick((..., 0.7), "given"), others, 0, 1.7, faults=True)
        yield Unit("faults %s" % "+".join("%s/%s" % x for x in others), run,
                   bound=2 + (deep and len(others) == 1), cap=cap, weight=5)
    for ops in (("start",), ("start", "stop"), ("failing",), ("start", "failing", "stop"), ("stop",)):
        def run(ch, ops=ops):
            return scenario(ch, "/run/notify", 1.0, ..., [("ret", "ok"), ch.pick(ok[:4], "other")],
                            ch.pick((0, 2), "where"), ch.pick((0, 1.2), "body"), dynamic=ops)
        yield Unit("dynamic %s" % "+".join(ops), run, bound=1, cap=cap, weight=3)
