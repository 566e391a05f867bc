"""C11: waiting for a coroutine from a thread always returns its outcome."""
import asyncio
import itertools
import _thread

from mc import vthread
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck

vthread.load(["aiomisc.thread_pool"])

from aiomisc._context_vars import EVENT_LOOP  # noqa: E402
from aiomisc.thread_pool import (  # noqa: E402
    CoroutineWaiter, ThreadPoolExecutor, run_in_executor, run_in_new_thread, sync_await,
    sync_wait_coroutine, wait_coroutine,
)

PROPERTY = "C11"
ASSUMPTIONS = [
    "threading.Event behaves as its (atomic) substitute; preemptions at synchronisation "
    "operations and at every source line of aiomisc/thread_pool.py; a line is atomic",
    "the event loop keeps running while a thread waits; the coroutines raise Exception "
    "subclasses or are cancelled",
]


class Boom(Exception):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


class Val:
    def __bool__(self):
        return False

    def __eq__(self, o):
        return True

    __hash__ = None


def scenario(ch, kinds, apis, via, cancels, lines, waiters=1):
    async def main(s, loop):
        pool = ThreadPoolExecutor(4)
        loop.set_default_executor(pool)
        main_ident = _thread.get_ident()
        recs = []
        done = {}
        tick = asyncio.Event()

        def make(i, kind):
            a, k = object(), object()
            rec = {"i": i, "kind": kind, "runs": 0, "want": None, "cancelled": False, "task": None,
                   "args": (a, k)}
            recs.append(rec)

            async def coro(x, key=None):
                rec["runs"] += 1
                rec["task"] = asyncio.current_task()
                if _thread.get_ident() != main_ident:
                    ch.fail("the coroutine runs outside of the loop's thread", "thread")
                if x is not a or key is not k:
                    ch.fail("wrong arguments", "args")
                if rec["runs"] > 1:
                    ch.fail("the coroutine was run %d times" % rec["runs"], "runs")
                ch.observe("run", i)
                try:
                    if kind == "sleep":
                        await asyncio.sleep(1)
                    elif kind in ("raise-later", "falsy"):
                        await asyncio.sleep(0)
                    elif kind == "pair":
                        if len([r for r in recs if r["runs"]]) == len(recs):
                            tick.set()
                        await tick.wait()
                    elif kind == "self-cancel":
                        asyncio.current_task().cancel()
                        await asyncio.sleep(5)
                    elif kind == "raise-cancelled":
                        raise asyncio.CancelledError
                    elif kind == "nested":
                        async def inner():
                            await asyncio.sleep(0)
                            return rec
                        r = await loop.run_in_executor(None, sync_await, inner)
                        if r is not rec:
                            ch.fail("nested wait returned %r" % r, "nested")
                except asyncio.CancelledError:
                    rec["cancelled"] = True
                    if kind == "swallow":
                        rec["want"] = ("ret", Val())
                        return rec["want"][1]
                    raise
                if kind in ("raise", "raise-later", "falsy"):
                    rec["want"] = ("exc", Falsy() if kind == "falsy" else Boom())
                    raise rec["want"][1]
                rec["want"] = ("ret", Val())
                return rec["want"][1]
            return rec, coro

        def body(rec, coro, api):
            a, k = rec["args"]
            if api in ("wait-loop", "waiter", "sync-loop") and rec["kind"] != "nested":
                EVENT_LOOP.set(None)      # the given loop counts, whatever the context says

            def plain(x, key=None):
                if _thread.get_ident() != main_ident:
                    ch.fail("the function is called outside of the loop's thread", "thread")
                return coro(x, key=key)
            try:
                if api == "wait":
                    r = wait_coroutine(coro(a, key=k))
                elif api == "wait-loop":
                    r = wait_coroutine(coro(a, key=k), loop=loop)
                elif api == "sync":
                    r = sync_wait_coroutine(None, coro, a, key=k)
                elif api == "await":
                    r = sync_await(coro, a, key=k)
                elif api == "sync-loop":
                    r = sync_wait_coroutine(loop, coro, a, key=k)
                elif api == "await-plain":
                    r = sync_await(plain, a, key=k)
                elif api == "waiter":
                    w = CoroutineWaiter(coro(a, key=k), loop)
                    w.start()
                    r = w.wait()
                    r2 = w.wait()
                    if r2 is not r:
                        ch.fail("second wait gave something else", "second")
                else:
                    raise AssertionError(api)
                out = ("ret", r)
            except asyncio.CancelledError as e:
                out = ("cancel", e)
            except Exception as e:
                out = ("exc", e)
            done[rec["i"]] = out
            ch.observe("done", rec["i"], out[0])
            return out

        futs = []
        for i, kind in enumerate(kinds):
            rec, coro = make(i, kind)
            args = (rec, coro, apis[i % len(apis)])
            if via == "pool":
                futs.append(run_in_executor(body, pool, args))
            elif via == "new":
                futs.append(run_in_new_thread(body, args))
            else:
                futs.append(asyncio.to_thread(body, *args))
            if len(kinds) == 1:
                def early(rec=rec):
                    return [t for t in loop._mc_tasks if rec["runs"] == 0 and not t.done() and
                            t.get_coro().__name__ in ("coro", "awaiter")]

                def cancel_early(rec=rec):
                    rec["early"] = True
                    for t in early(rec):
                        t.cancel()
                loop.act("early%d" % i, cancel_early, may=True, enabled=lambda: bool(early()))
            if i in cancels:
                loop.act("cancel%d" % i, lambda rec=rec: rec["task"].cancel(), may=True,
                         enabled=lambda rec=rec: rec["task"] is not None and not rec["task"].done())
        # a thread which is never woken up makes this execution stuck
        await asyncio.gather(*futs)
        for rec in recs:
            out = done.get(rec["i"])
            if rec["runs"] == 0:
                if rec.get("early"):
                    if out is None or out[0] != "cancel":
                        raise Violation("cancelled before the start, the thread got %r" % (out,))
                    continue
                raise Violation("the coroutine was never run", "runs")
            if out is None:
                raise Violation("the thread got no outcome", "no-outcome")
            want = rec["want"]
            if want is None:
                if out[0] != "cancel":
                    raise Violation("cancelled coroutine, the thread got %r" % (out,), "cancelled")
                if not rec["cancelled"] and not rec.get("early"):
                    raise Violation("thread was told about a cancellation which did not happen")
            elif out[0] != want[0] or out[1] is not want[1]:
                raise Violation("coroutine ended with %r, the thread got %r" % (want, out), "outcome")
        pool.shutdown()
        while not all(t.done for t in s.threads[1:]):
            await asyncio.sleep(1)
        if loop.unhandled:
            raise Violation("unhandled: %r" % (loop.unhandled,), "unhandled")
        return tuple(done[r["i"]][0] for r in recs)

    try:
        return vthread.run(ch, main, lines=lines)
    except Stuck as e:
        raise Violation("a thread waits for ever: %s" % e, "stuck")


def units(tier):
    deep = tier == "thorough"
    out = []
    all_kinds = ["ret", "raise", "raise-later", "falsy", "sleep", "self-cancel", "raise-cancelled",
                 "swallow", "nested"]
    apis = ["wait", "wait-loop", "sync", "await", "waiter"]

    def add(kinds, ap, via, cancels, lines, bound):
        name = "%s by %s via %s c=%s%s b=%d" % (
            "+".join(kinds), ",".join(ap), via, cancels, " lines" if lines else "", bound)
        out.append(Unit(name, lambda ch: scenario(ch, kinds, ap, via, cancels, lines), bound=bound,
                        cap=100000, weight=len(kinds) + 3 * lines))
    for kind, api in itertools.product(all_kinds, ["sync-loop", "await-plain"]):
        add([kind], [api], "pool", (0,), False, 1)
    for kind, api, via in itertools.product(all_kinds, apis, ["pool", "new", "to_thread"]):
        add([kind], [api], via, (0,), False, 2 + deep)
        if via == "pool" or deep:
            add([kind], [api], via, (0,), True, 1 + deep)
    for i, (a, b) in enumerate(itertools.product(all_kinds, repeat=2)):
        if a <= b:
            add([a, b], [apis[i % 5], apis[i // 5 % 5]], ["pool", "new"][i % 2], (0,), False, 1 + deep)
            if deep or i % 3 == 0:
                add([a, b], [apis[i % 5], apis[i // 5 % 5]], ["pool", "new"][i % 2], (1,), True, 1)
    for ap in apis:
        add(["pair", "pair"], [ap], "pool", (0,), False, 2 if deep else 1)
        add(["pair", "pair"], [ap], "new", (), True, 1)
    return out
