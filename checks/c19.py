"""C19: TCP / TLS / UDP server services."""
import asyncio
import socket

from aiomisc.service import TCPServer, TLSServer, UDPServer
import aiomisc.service.tls as tls_module
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, run_loop
from mc.vnet import FakeSocket, NetLoop

PROPERTY = "C19"
ASSUMPTIONS = [
    "in-memory transports below the real Server, StreamReader/Writer and protocol objects",
    "peers read what is sent to them; a connection accepted once stop began may be dropped unhandled",
]


class Boom(Exception):
    pass


PAYLOADS = [b"d0\0", b"", b"\r\n \xff d2\0 "]


class Base:
    def setup(self, w):
        self.w = w

    async def run_kind(self, k, reader, reply, read):
        w = self.w
        kind = w.kinds[k]
        w.calls.setdefault(k, []).append(None)
        if len(w.calls[k]) > 1:
            w.ch.fail("handler of %d was called twice" % k, "twice")
        w.current[k] = asyncio.current_task()
        if any(t is asyncio.current_task() for j, t in w.current.items() if j != k):
            w.ch.fail("two clients share a task", "shared-task")
        w.ch.observe("handle", k)
        try:
            if kind == "ret":
                return
            if kind == "raise":
                raise Boom(k)
            if kind == "raisebase":
                await asyncio.sleep(0)
                raise asyncio.CancelledError
            if kind == "hang":
                await asyncio.Event().wait()
            if kind == "slowcancel":
                try:
                    await asyncio.Event().wait()
                finally:
                    await asyncio.sleep(0)
                    await asyncio.sleep(1)
            if kind == "swallow":
                try:
                    await asyncio.Event().wait()
                except asyncio.CancelledError:
                    await asyncio.sleep(0.5)
                    return
            if kind in ("echo", "echoclose"):
                await read(k)
            if kind == "sleep":
                await asyncio.sleep(1)
                await read(k)
        except asyncio.CancelledError:
            w.cancelled[k] = w.cancelled.get(k, 0) + 1
            raise
        finally:
            w.ended.append(k)


def tcp_class(base, sync):
    if sync:
        class Srv(Base, base):
            def handle_client(self, reader, writer):
                k = writer.get_extra_info("peername")[1]
                w = self.w
                w.calls.setdefault(k, []).append(None)
                if len(w.calls[k]) > 1:
                    w.ch.fail("handler of %d was called twice" % k, "twice")
                w.current[k] = asyncio.current_task()
                w.ended.append(k)
                if w.kinds[k] == "raise":
                    raise Boom(k)
                writer.write(b"sync%d" % k)
    else:
        class Srv(Base, base):
            async def handle_client(self, reader, writer):
                k = writer.get_extra_info("peername")[1]
                w = self.w

                async def read(k):
                    while True:
                        d = await reader.read(10)
                        if not d:
                            break
                        writer.write(d)
                        w.got.setdefault(k, bytearray()).extend(d)
                        await writer.drain()
                    w.eof.append(k)
                    if w.kinds[k] == "echoclose":
                        writer.close()
                        await writer.wait_closed()
                await self.run_kind(k, reader, writer.write, read)
    return Srv


class W:
    def __init__(self, ch, kinds):
        self.ch = ch
        self.kinds = kinds
        self.calls = {}
        self.current = {}
        self.cancelled = {}
        self.got = {}
        self.eof = []
        self.ended = []
        self.fed = {}


def sc_tcp(ch, kinds, base="tcp", sync=False, data=("ab",), eofs=True, resets=False, late=0,
           restart=False):
    loop = NetLoop(ch)
    w = W(ch, list(kinds) + ["echo"] * late)
    sock = FakeSocket(socket.AF_UNIX, socket.SOCK_STREAM)
    st = {"stop": None, "stopped": False}
    conn = {}
    cls = tcp_class(TLSServer if base == "tls" else TCPServer, sync)
    saved = tls_module.SSLOptions.create_context
    tls_module.SSLOptions.create_context = lambda self: "ctx"

    def connect(k):
        t = loop.accept(k)
        if t is None:
            if not st["stop"]:
                raise Violation("nobody listens")
            conn[k] = "refused"
            return
        conn[k] = t
        t.when_stopping = st["stop"] is not None

    def send(k, d):
        t = conn[k]
        if t != "refused" and not t.closing and k not in st.get("gone", ()):
            t.feed(d)
            w.fed.setdefault(k, bytearray()).extend(d)

    def settle():
        """Nothing is ready: everybody must have been served."""
        for k, t in conn.items():
            if t == "refused":
                continue
            if len(w.calls.get(k, ())) != 1:
                raise Violation("connection %d was handled %d times" % (k, len(w.calls.get(k, ()))),
                                "handled")
            if w.kinds[k] in ("echo", "echoclose") and not sync and not t.lost:
                if w.got.get(k, b"") != w.fed.get(k, b""):
                    raise Violation("handler %d got %r of %r" % (k, w.got.get(k), w.fed.get(k)),
                                    "data")
            if not st["stop"] and t.closing and w.kinds[k] not in ("echoclose",) and \
                    k not in st.get("gone", ()):
                raise Violation("connection %d was closed by the service" % k, "closed-early")

    def stop():
        idle = not loop._ready
        if idle:
            settle()
        st["stop"] = loop.create_task(st["svc"].stop())
        st["ev"].set_result(None)

    def gone(k, how):
        t = conn[k]
        if t == "refused":
            return
        st.setdefault("gone", set()).add(k)
        if how == "eof":
            t.feed_eof()
        else:
            t.reset()

    def check_after(svc, again=False):
        st["stopped"] = True
        left = [t for t in loop._mc_tasks if not t.done() and t not in (st["main"], st["stop"])]
        if left:
            raise Violation("tasks left after stop: %r" % left, "left")
        if loop.listeners:
            raise Violation("the listener is still open", "listener")
        for k, t in conn.items():
            if t == "refused":
                continue
            n = len(w.calls.get(k, ()))
            if n != 1 and not (t.when_stopping or t.fresh) and k not in st["cancelled_new"]:
                raise Violation("connection %d was handled %d times" % (k, n), "handled")
            if not t.lost:
                raise Violation("connection %d is still open after stop" % k, "open")
            if n and k not in w.ended:
                raise Violation("handler %d has not finished when stop returns" % k, "unfinished")
            if w.cancelled.get(k, 0) > 1:
                raise Violation("handler %d was cancelled %d times" % (k, w.cancelled[k]),
                                "cancel-twice")
            exp = bytes(w.got.get(k, b"")) if not sync else (
                b"sync%d" % k if n and w.kinds[k] != "raise" else b"")
            if bytes(t.out) != exp and not (k in st.get("gone", ()) and
                                            exp.startswith(bytes(t.out))):
                raise Violation("connection %d got %r instead of %r" % (k, bytes(t.out), exp),
                                "crossed")
            if not bytes(w.fed.get(k, b"")).startswith(bytes(w.got.get(k, b""))):
                raise Violation("handler %d read %r of %r" % (k, w.got[k], w.fed.get(k)), "data")
        if sync:
            for k, t in w.current.items():
                if t and w.kinds[k] != "raise" and t.done() and not t.cancelled() and t.exception():
                    raise Violation("plain handler %d ended with %r" % (k, t.exception()), "sync")
        if again and svc.tasks:
            raise Violation("tasks are kept", "kept")

    async def main():
        st["main"] = asyncio.current_task()
        st["ev"] = loop.create_future()
        kw = dict(cert="c", key="k") if base == "tls" else {}
        svc = st["svc"] = cls(sock=sock, **kw)
        svc.w = w
        svc.set_loop(loop)
        await svc.start()
        for k in range(len(kinds)):
            loop.act("connect%d" % k, lambda k=k: connect(k), urgent=True)
            if not sync and w.kinds[k] in ("echo", "echoclose", "sleep"):
                for i, d in enumerate(data):
                    loop.act("data%d.%d" % (k, i), lambda k=k, d=d: send(k, d.encode() + b"%d" % k),
                             enabled=lambda k=k, i=i: k in conn and (i == 0 or
                                                                    len(w.fed.get(k, "")) or st["stop"]))
                if eofs:
                    loop.act("eof%d" % k, lambda k=k: gone(k, "eof"),
                             enabled=lambda k=k: k in conn, may=True)
            if resets:
                loop.act("reset%d" % k, lambda k=k: gone(k, "reset"),
                         enabled=lambda k=k: k in conn, may=True)
        for j in range(late):
            k = len(kinds) + j
            loop.act("late%d" % k, lambda k=k: connect(k), enabled=lambda: st["stop"] is not None,
                     may=True)

        def dostop():
            # started handlers are cancelled; a handler which has not begun never runs
            st["cancelled_new"] = {k for k, t in conn.items()
                                   if t != "refused" and k not in w.calls}
            for t in conn.values():
                if t != "refused":
                    t.fresh = False
            stop()
        loop.act("stop", dostop)
        await st["ev"]
        await st["stop"]
        check_after(svc)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        check_after(svc, True)
        return tuple(sorted(w.calls)), tuple(sorted(w.cancelled.items()))

    try:
        r = run_loop(loop, main())
        if ch.failures:
            raise ch.failures[0]
        return r
    except Stuck as e:
        raise Violation("%s; stop=%r handlers=%r" % (e, st["stop"], w.ended), "stuck")
    finally:
        tls_module.SSLOptions.create_context = saved
        if sock.fileno() >= 0:
            sock.close()


def sc_udp(ch, kinds, sync=False, late=0):
    loop = NetLoop(ch)
    w = W(ch, list(kinds) + ["reply"] * late)
    sock = FakeSocket(socket.AF_UNIX, socket.SOCK_DGRAM)
    st = {"stop": None}
    arrived = {}

    def handle(svc, data, addr):
        if not isinstance(addr, tuple) or addr[:1] != ("peer",):
            ch.fail("a datagram came with address %r" % (addr,), "addr")
        k = addr[1]
        if data != PAYLOADS[k]:
            ch.fail("datagram %d came as %r" % (k, data), "dgram-data")
        if sync:
            w.current[k] = asyncio.current_task()
        return k

    class Udp(Base, UDPServer):
        if sync:
            def handle_datagram(self, data, addr):
                k = handle(self, data, addr)
                w.calls.setdefault(k, []).append(None)
                w.ended.append(k)
                if w.kinds[k] == "raise":
                    raise Boom(k)
                self.sendto(b"r%d" % k, addr)
        else:
            async def handle_datagram(self, data, addr):
                k = handle(self, data, addr)

                async def read(k):
                    pass
                await self.run_kind(k, None, None, read)
                if w.kinds[k] == "reply":
                    self.sendto(b"r%d" % k, addr)
                if w.kinds[k] == "sleep":
                    self.sendto(b"r%d" % k, ("other", k))

    def arrive(k):
        if loop.dgram.deliver(PAYLOADS[k], ("peer", k)):
            arrived[k] = st["stop"] is not None

    def stop():
        if not loop._ready:
            for k in arrived:
                if len(w.calls.get(k, ())) != 1:
                    raise Violation("datagram %d was handled %d times" % (
                        k, len(w.calls.get(k, ()))), "handled")
        st["fresh"] = {k for k in arrived if k not in w.calls}
        st["stop"] = loop.create_task(st["svc"].stop())
        st["ev"].set_result(None)

    async def main():
        st["main"] = asyncio.current_task()
        st["ev"] = loop.create_future()
        svc = st["svc"] = Udp(sock=sock)
        svc.w = w
        svc.set_loop(loop)
        await svc.start()
        if svc.address != "127.0.0.1" or svc.port != 5353:
            raise Violation("address")
        for k in range(len(kinds)):
            loop.act("dgram%d" % k, lambda k=k: arrive(k), urgent=True)
        for k in range(len(kinds), len(w.kinds)):
            loop.act("late%d" % k, lambda k=k: arrive(k), enabled=lambda: st["stop"] is not None,
                     may=True)
        loop.act("stop", stop)
        await st["ev"]
        await st["stop"]
        for i in range(2):
            left = [t for t in loop._mc_tasks if not t.done() and t not in (st["main"], st["stop"])]
            if left:
                raise Violation("tasks left after stop: %r" % left, "left")
            if not loop.dgram.closing:
                raise Violation("the socket is still open", "open")
            for k, during in arrived.items():
                n = len(w.calls.get(k, ()))
                if n != 1 and not during and k not in st["fresh"]:
                    raise Violation("datagram %d was handled %d times" % (k, n), "handled")
                if n and k not in w.ended:
                    raise Violation("handler %d is not finished when stop returns" % k)
                exp = []
                if n and not w.cancelled.get(k):
                    if sync:
                        exp = [(b"r%d" % k, ("peer", k))] if w.kinds[k] != "raise" else []
                    elif w.kinds[k] == "reply":
                        exp = [(b"r%d" % k, ("peer", k))]
                    elif w.kinds[k] == "sleep":
                        exp = [(b"r%d" % k, ("other", k))]
                got = [x for x in loop.dgram.sent if x[0] == b"r%d" % k]
                if got != exp:
                    raise Violation("replies of %d are %r" % (k, got), "reply")
            if sync:
                for k, t in w.current.items():
                    if t and w.kinds[k] != "raise" and t.done() and not t.cancelled() and t.exception():
                        raise Violation("plain handler %d ended with %r" % (k, t.exception()), "sync")
            if len(loop.dgram.sent) > len(arrived):
                raise Violation("too many replies")
            await asyncio.sleep(0)
            await asyncio.sleep(0)
        return tuple(sorted(w.calls)), tuple(loop.dgram.sent)

    try:
        r = run_loop(loop, main())
        if ch.failures:
            raise ch.failures[0]
        return r
    except Stuck as e:
        raise Violation("%s; stop=%r" % (e, st["stop"]), "stuck")
    finally:
        if sock.fileno() >= 0:
            sock.close()


def units(tier):
    deep = tier == "thorough"
    out = []
    K = ("ret", "raise", "raisebase", "hang", "slowcancel", "swallow", "echo", "echoclose", "sleep")
    b = 3 if deep else 2
    for base in ("tcp", "tls"):
        for a in K:
            for late in (0, 1):
                out.append(Unit("%s %s late=%d" % (base, a, late),
                                lambda ch, a=a, base=base, late=late: sc_tcp(
                                    ch, (a,), base, late=late, resets=True, data=("ab", "c")),
                                b + (1 if base == "tcp" and (deep or a not in ("echo", "echoclose", "sleep")) else 0)))
        for sync in ("ret", "raise"):
            out.append(Unit("%s sync %s" % (base, sync), lambda ch, s=sync, base=base: sc_tcp(
                ch, (s, "ret"), base, sync=True, late=1), b))
    for i, a in enumerate(K):
        for c in ("echo", "slowcancel", "hang", "echoclose", "sleep"):
            for base in (("tcp", "tls") if deep else ("tcp",)):
                out.append(Unit("%s %s+%s" % (base, a, c), lambda ch, a=a, c=c, base=base: sc_tcp(
                    ch, (a, c), base, late=1), b if deep else 1))
    out.append(Unit("tcp three", lambda ch: sc_tcp(ch, ("hang", "raise", "echo")), b - 1))
    U = ("ret", "raise", "raisebase", "hang", "slowcancel", "swallow", "reply", "sleep")
    for a in U:
        out.append(Unit("udp %s" % a, lambda ch, a=a: sc_udp(ch, (a,), late=1), b + 1))
        for c in ("reply", "slowcancel", "hang", "sleep"):
            out.append(Unit("udp %s+%s" % (a, c), lambda ch, a=a, c=c: sc_udp(
                ch, (a, c), late=1), b))
    for s in ("reply", "raise"):
        out.append(Unit("udp sync %s" % s, lambda ch, s=s: sc_udp(ch, (s, "reply"), sync=True, late=1), b))
    return out
