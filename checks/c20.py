"""C20: TCP / TLS client services."""
import asyncio

import aiomisc.service.tls as tls_module
from aiomisc.service.tcp import RobustTCPClient, TCPClient
from aiomisc.service.tls import RobustTLSClient, TLSClient
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, run_loop
from mc.vnet import NetLoop

PROPERTY = "C20"
ASSUMPTIONS = [
    "in-memory transports, virtual clock; handlers let a cancellation they receive propagate",
    "what a robust client does when it never got connected is left open",
]
CLS = {"tcp": TCPClient, "tls": TLSClient, "rtcp": RobustTCPClient, "rtls": RobustTLSClient}
RETRY, RECON, CONN, WORK = 3.0, 5.0, 0.1, 0.2


class Boom(Exception):
    pass


def sc(ch, kind, attempts, depth, stop, results, handlers, cleanup=False, default="ret"):
    loop = NetLoop(ch)
    robust = kind.startswith("r")
    loop.exec_urgent = True
    loop.connect_hook = lambda *a: connect(*a)
    t0 = loop.time()
    trace = []            # ("attempt", t) ("handle", n, t)
    plan = []             # what was chosen: connection result / handler outcome
    st = {"stop": None, "running": 0, "live": 0}
    saved = tls_module.SSLOptions.create_context
    tls_module.SSLOptions.create_context = lambda self: "ctx"

    def now():
        return round(loop.time() - t0, 6)

    def late(what):
        if st["stop"] is not None and st["stopped"]:
            ch.fail("%s after stop had returned" % what, "after-stop")

    async def connect(host, port, kw):
        late("attempt")
        if (host, port) != ("host", 1):
            ch.fail("connects to %r" % ((host, port),), "address")
        if kw.get("ssl") != ("ctx" if kind.endswith("tls") else None):
            ch.fail("ssl is %r" % (kw.get("ssl"),), "ssl")
        trace.append(("attempt", now()))
        r = ch.pick(results, "connect") if len(plan) < depth else "ok"
        plan.append(r)
        ch.observe("attempt", now())
        n = len(loop.conns)
        if r == "hang":
            await asyncio.Event().wait()
        await asyncio.sleep(CONN)
        if r == "refused":
            raise ConnectionRefusedError(n)
        if r == "reset":
            raise ConnectionResetError(n)
        if r == "oserror":
            raise OSError(n)
        return n

    class Client(CLS[kind]):
        connect_attempts = attempts
        connect_retry_timeout = RETRY
        reconnect_timeout = RECON

        async def handle_connection(self, reader, writer):
            late("handler")
            n = writer.get_extra_info("peername")[1]
            if writer.transport is not loop.conns[-1] or n in [e[1] for e in trace if e[0] == "handle"]:
                ch.fail("handler got another connection", "conn")
            if st["running"]:
                ch.fail("two handlers at once", "two")
            st["running"] += 1
            trace.append(("handle", n, now()))
            r = ch.pick(handlers, "handler") if len(plan) < depth else default
            plan.append(r)
            ch.observe("handle", now())
            try:
                if r == "hang":
                    await asyncio.Event().wait()
                if r == "lost":
                    loop.call_later(WORK, writer.transport.reset)
                    await reader.readexactly(1)
                if r == "eof":
                    loop.call_later(WORK, writer.transport.feed_eof)
                    await reader.readexactly(1)
                await asyncio.sleep(WORK)
                if not self.start_event.is_set():
                    ch.fail("connected, but not reported as started", "start-event")
                if r == "raise":
                    raise Boom(n)
                trace.append(("returned", now()))
            except asyncio.CancelledError:
                st["cancelled"] = st.get("cancelled", 0) + 1
                if cleanup:
                    await asyncio.sleep(0.5)
                raise
            finally:
                st["running"] -= 1

    def expected():
        """The run as it has to be, as far as it was chosen."""
        t, i, out = 0.0, 0, []
        p = list(plan)
        first = True
        while True:
            for a in range(attempts):
                out.append(("attempt", round(t, 6)))
                if not p:
                    return out, None, t
                r = p.pop(0)
                if r == "hang":
                    return out, "forever", None
                t += CONN
                if r == "ok":
                    break
                if r == "oserror":
                    break
                t += RETRY
            if not attempts:
                r = "none"
            if r == "ok":
                out.append(("handle", i, round(t, 6)))
                i += 1
                if not p:
                    return out, None, t
                h = p.pop(0)
                if h == "hang":
                    return out, "forever", None
                t += WORK
                if h == "ret":
                    out.append(("returned", round(t, 6)))
                    return out, "return", t
                if not robust:
                    return out, "return", t      # the failure is logged
                first = False
            else:
                if not robust:
                    return out, r, t
                if first:
                    return out, "never", t
            t += RECON

    def dostop():
        st["stop"] = now()
        st["at"] = len(trace)
        st["task"] = loop.create_task(stopper())
        st["stopped"] = False
        if not st["ev"].done():
            st["ev"].set_result(None)

    async def stopper():
        if stop == "cancel":
            st["start"].cancel()
            await asyncio.gather(st["start"], return_exceptions=True)
        await st["svc"].stop()
        await asyncio.gather(st["start"], return_exceptions=True)

    async def main():
        kw = dict(cert="c", key="k") if kind.endswith("tls") else {}
        svc = st["svc"] = Client(address="host", port=1, **kw)
        svc.set_loop(loop)
        st["ev"] = loop.create_future()
        main_task = asyncio.current_task()

        async def start():
            await svc.start()
        st["start"] = loop.create_task(start())
        st["start"].add_done_callback(
            lambda t: st["ev"].done() or st["ev"].set_result(None))
        if stop:
            loop.act("stop", dostop, may=True, enabled=lambda: not st["start"].done())
        if default == "hang" or "hang" in results + handlers:
            # otherwise the run may never end
            loop.call_later(200, lambda: st["ev"].done() or dostop())
        await st["ev"]
        stopped = st["stop"] is not None
        if stopped:
            before = loop.time()
            await st["task"]
            st["stopped"] = True
            limit = 0.5 if cleanup else 0
            if loop.time() - before > limit + 1e-6:
                raise Violation("stop took %r" % (loop.time() - before), "slow-stop")
        for i in range(3):
            left = [t for t in loop._mc_tasks if not t.done() and t is not main_task]
            if left:
                raise Violation("tasks left: %r" % left, "left")
            await asyncio.sleep(0)
        if st["running"]:
            raise Violation("handler is running", "running")
        if stopped and st.get("cancelled", 0) > 1:
            raise Violation("handler cancelled %d times" % st["cancelled"], "cancelled")
        exp, end, t = expected()
        got = [tuple(e) for e in trace]
        if got != exp[:len(got)] or (len(exp) - len(got) > (1 if stopped else 0)):
            raise Violation("events %r, expected %r (%s) %r" % (got, exp, plan, st["start"]), "trace")
        if not stopped:
            if end in (None, "forever"):
                raise Violation("ended early: %r %r" % (got, plan), "ended")
            s = st["start"]
            err = None if s.cancelled() else s.exception()
            if end == "return":
                if err is not None:
                    raise Violation("start raised %r" % (err,), "raised")
            elif end == "none":
                if not isinstance(err, RuntimeError):
                    raise Violation("no attempts: %r" % (err,), "none")
            elif end != "never":
                want = {"refused": ConnectionRefusedError, "reset": ConnectionResetError,
                        "oserror": OSError}[end]
                if type(err) is not want:
                    raise Violation("start gave %r instead of %s" % (err, end), "error")
            if end != "never" and abs(now() - (t or 0)) > RETRY + 1e-6:
                raise Violation("ended at %r instead of %r" % (now(), t), "end-time")
        handled = [e for e in trace if e[0] == "handle"]
        if handled and not svc.start_event.is_set() and not stopped:
            raise Violation("not reported as started", "start-event")
        if not handled and "ok" not in plan and svc.start_event.is_set():
            raise Violation("reported as started without connection", "start-event")
        return tuple(map(str, trace)), end

    try:
        r = run_loop(loop, main())
        if ch.failures:
            raise ch.failures[0]
        return r
    except Stuck as e:
        raise Violation("%s %r" % (e, trace), "stuck")
    finally:
        tls_module.SSLOptions.create_context = saved


def units(tier):
    deep = tier == "thorough"
    out = []
    R = ("ok", "refused", "reset", "oserror", "hang")
    H = ("ret", "raise", "lost", "eof", "hang")
    for kind in CLS:
        for attempts in (0, 1, 2, 3):
            for stop in (None, "cancel", "stop"):
                if attempts == 0 and stop:
                    continue
                if attempts == 0 and kind.startswith("r"):
                    continue
                res = R if stop else R[:4]
                han = H if stop else H[:4]
                d = (7 if deep else 5) if not stop else (5 if deep else 4)
                name = "%s attempts=%d stop=%s" % (kind, attempts, stop)
                out.append(Unit(name, lambda ch, k=kind, a=attempts, d=d, s=stop, r=res, h=han:
                                sc(ch, k, a, d, s, r, h), 1))
    for kind in CLS:
        for stop in ("cancel", "stop"):
            out.append(Unit("%s cleanup stop=%s" % (kind, stop), lambda ch, k=kind, s=stop: sc(
                ch, k, 2, 2, s, ("ok", "refused"), ("hang", "raise"), cleanup=True), 1))
    return out
