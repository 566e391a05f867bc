"""Harness shared by C09 and C10: threaded iterators on controlled threads."""
import asyncio
import _thread

from mc import vthread
from mc.core import Violation
from mc.vloop import Stuck

vthread.load(["aiomisc.iterator_wrapper"])

from aiomisc.iterator_wrapper import IteratorWrapper  # noqa: E402
from aiomisc.thread_pool import (  # noqa: E402
    ThreadPoolExecutor, threaded, threaded_iterable, threaded_iterable_separate,
)


class Boom(Exception):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


class Base(BaseException):
    pass


class Item:
    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return False

    def __repr__(self):
        return "I%d" % self.i


class World:
    pass


def make_source(w, ch, n, end, shape, pace, gate):
    """The iterable: n items, then the end; every step is recorded."""
    w.items = [Item(i) for i in range(n)]
    w.exc = {"raise": Boom("end"), "falsy": Falsy(), "stop": None,
             "base": Base()}[end]
    w.advanced = 0          # items produced
    w.taken = 0
    w.closed_flag = False   # finally block of the generator was run
    w.entered = False
    w.after_close = False
    w.args = None
    A, K = object(), object()
    w.call = (A, K)

    def step(i):
        if _thread.get_ident() == w.main_ident:
            ch.fail("the iterable runs in the loop's thread", "loop-thread")
        if w.after_close:
            ch.fail("the iterable was advanced after close had completed", "advanced-after-close")
        if pace:
            vthread.time.sleep(pace)
        if gate is not None and gate[0] == i:
            gate[1].wait()
        w.advanced = i + 1
        if w.max_size and w.advanced - w.taken > w.max_size + 1:
            ch.fail("producer is %d items ahead with max_size=%d" % (
                w.advanced - w.taken, w.max_size), "ahead")

    def check_args(a, k):
        w.calls += 1
        if w.calls > 1:
            ch.fail("the function was called %d times" % w.calls, "calls")
        if (a, k) != w.call:
            ch.fail("wrong arguments", "args")
    w.calls = 0

    def gen(a, k=None):
        check_args(a, k)
        w.entered = True
        try:
            for i in range(n):
                step(i)
                yield w.items[i]
            if w.exc is not None:
                raise w.exc
        finally:
            w.closed_flag = True

    def gen_swallow(a, k=None):
        check_args(a, k)
        w.entered = True
        try:
            for i in range(n):
                step(i)
                try:
                    yield w.items[i]
                except Exception:
                    w.told = True
            if w.exc is not None:
                raise w.exc
        finally:
            w.closed_flag = True

    class It:
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i >= n:
                w.closed_flag = True
                if w.exc is not None:
                    raise w.exc
                raise StopIteration
            step(self.i)
            self.i += 1
            return w.items[self.i - 1]

    def iterator(a, k=None):
        check_args(a, k)
        return It()

    def plain(a, k=None):
        check_args(a, k)
        if w.exc is not None:
            raise w.exc
        w.advanced = n
        w.closed_flag = True
        return list(w.items)

    return {"gen": gen, "iterator": iterator, "list": plain, "swallow": gen_swallow}[shape]


def build(w, func, api, max_size):
    A, K = w.call
    if api == "pool":
        return threaded_iterable(max_size=max_size)(func)(A, k=K)
    if api == "pool0":
        return threaded_iterable(func)(A, k=K)
    if api == "threaded":
        return threaded(func)(A, k=K)
    if api == "separate":
        return threaded_iterable_separate(max_size=max_size)(func)(A, k=K)
    if api == "wrapper":
        return IteratorWrapper(lambda: func(A, k=K), max_size=max_size, executor=w.pool)
    raise AssertionError(api)


async def settle(s, w):
    """Wait until the pool's threads are idle again."""
    w.pool.shutdown()
    while not all(t.done for t in s.threads[1:]):
        await asyncio.sleep(1)
    for t in s.threads[1:]:
        if t.error is not None:
            raise Violation("thread %s died with %r" % (t.name, t.error), "thread-error")


def scenario09(ch, n, end, shape, api, max_size, pace, slow, lines, manager):
    async def main(s, loop):
        w = World()
        w.main_ident = _thread.get_ident()
        w.pool = ThreadPoolExecutor(2)
        loop.set_default_executor(w.pool)
        w.max_size = max_size if api in ("pool", "separate", "wrapper") else 0
        if shape == "list":
            w.max_size = 0
        func = make_source(w, ch, n, end, shape, pace, None)
        it = build(w, func, api, max_size)
        got = []
        raised = None

        async def consume(src):
            nonlocal raised
            try:
                async for x in src:
                    w.taken += 1
                    got.append(x)
                    ch.observe("item", x.i)
                    if slow:
                        await asyncio.sleep(slow)
            except (Boom, Falsy, Base) as e:
                raised = e
        if manager:
            async with it as src:
                await consume(src)
        else:
            await consume(it)
        want = w.items if not (shape == "list" and w.exc is not None) else []
        if [x.i for x in got] != [x.i for x in want]:
            raise Violation("got items %r, expected %r" % (got, want), "items")
        if raised is not w.exc and not (end == "base" and raised is None):
            raise Violation("iteration ended with %r, expected %r" % (raised, w.exc), "end")
        if w.calls != 1:
            raise Violation("the function was called %d times" % w.calls, "calls")
        # an ended iterator stays ended
        for _ in range(2):
            try:
                x = await it.__anext__()
            except StopAsyncIteration:
                pass
            else:
                raise Violation("an ended iterator gave %r" % x, "after-end")
        # neither does another iteration start it again
        async for x in it:
            raise Violation("another iteration gave %r" % x, "after-end")
        await settle(s, w)
        if w.calls != 1:
            raise Violation("the function was called %d times" % w.calls, "calls")
        if loop.unhandled:
            raise Violation("unhandled: %r" % (loop.unhandled,), "unhandled")
        return len(got)

    try:
        return vthread.run(ch, main, lines=lines)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


def scenario10(ch, n, end, shape, api, max_size, pace, take, mode, lines, gate_at=None):
    async def main(s, loop):
        w = World()
        w.main_ident = _thread.get_ident()
        w.pool = ThreadPoolExecutor(2)
        loop.set_default_executor(w.pool)
        w.max_size = max_size if shape != "list" else 0
        gate = None
        if gate_at is not None:
            gate = (gate_at, vthread.threading.Event())

            def release():
                vthread.time.sleep(3)
                gate[1].set()
            vthread.threading.Thread(target=release, name="release").start()
        func = make_source(w, ch, n, end, shape, pace, gate)
        it = build(w, func, api, max_size)
        w.told = False
        got = []

        async def consume(limit):
            try:
                async for x in it:
                    w.taken += 1
                    got.append(x)
                    ch.observe("item", x.i)
                    if len(got) >= limit:
                        break
            except (Boom, Falsy):
                pass

        def closed():
            w.after_close = True
            ch.observe("closed", w.advanced, w.closed_flag)
            if w.entered and not w.closed_flag:
                raise Violation("close has completed but the generator was neither stopped nor "
                                "exhausted", "gen-open")

        started = True
        if mode == "before":
            started = False
            await it.close()
            await it.close()
        elif mode == "before-aexit":
            started = False
            async with it:
                pass
        elif mode == "close":
            if take:
                await consume(take)
            else:
                aiter(it)
            await it.close()
            closed()
            await it.close()
        elif mode == "double":
            if take:
                await consume(take)
            else:
                p = aiter(it)
            await asyncio.gather(it.close(), it.close())
        elif mode == "forget":
            async with it:
                p = aiter(it)
                for _ in range(take):
                    try:
                        x = await p.__anext__()
                    except (StopAsyncIteration, Boom, Falsy):
                        break
                    w.taken += 1
                it.close()
        elif mode == "aexit":
            async with it:
                if take:
                    await consume(take)
                else:
                    p = aiter(it)
        elif mode == "aexit-hold":
            async with it:
                p = aiter(it)
                for _ in range(take):
                    try:
                        x = await p.__anext__()
                    except (StopAsyncIteration, Boom, Falsy):
                        break
                    w.taken += 1
        elif mode == "drop":
            if take:
                await consume(take)
            else:
                p = aiter(it)
                del p
            await it.wait_closed()
        elif mode == "cancel":
            async def user():
                nonlocal started
                started = True
                async with it:
                    async for x in it:
                        w.taken += 1
                        got.append(x)
                        await asyncio.sleep(0.01)
                    await asyncio.sleep(5)
            started = False
            t = asyncio.ensure_future(user())
            loop.act("cancel", t.cancel, may=True, enabled=lambda: not t.done())
            try:
                await t
            except (asyncio.CancelledError, Boom, Falsy):
                pass
            if not started:
                return "never entered"
        elif mode == "raise":
            try:
                async with it:
                    if take:
                        await consume(take)
                    else:
                        p = aiter(it)
                    raise KeyError
            except KeyError:
                pass
        else:
            raise AssertionError(mode)
        closed()
        if not it.closed:
            raise Violation("iterator is not closed", "not-closed")
        if not started:
            # starting it now is useless but must not hang
            try:
                async for x in it:
                    raise Violation("closed iterator gave %r" % x, "item-after-close")
            except (Boom, Falsy):
                raise Violation("closed iterator raised", "raise-after-close")
        await asyncio.sleep(5)
        if w.advanced and w.entered and not w.closed_flag:
            raise Violation("generator was left open", "gen-open")
        await settle(s, w)
        if loop.unhandled:
            raise Violation("unhandled: %r" % (loop.unhandled,), "unhandled")
        return w.advanced, len(got)

    try:
        return vthread.run(ch, main, lines=lines)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")
