"""C28: the threaded log handler on controlled threads."""
import itertools
import logging

from mc import vthread

vthread.load(["aiomisc.log"])

import aiomisc.log  # noqa: E402
from aiomisc.log import ThreadedHandler  # noqa: E402
from mc.core import Violation  # noqa: E402
from mc.run import Unit  # noqa: E402
from mc.vloop import Stuck  # noqa: E402

PROPERTY = "C28"
ASSUMPTIONS = [
    "a record is accepted when handle() has returned before close() was called and the bounded "
    "queue had room; a record emitted while the bounded queue is full may be refused in buffered mode",
    "the wrapped handler fails with ordinary exceptions only",
]
INTERVAL = 0.5


class Boom(Exception):
    pass


class Target(logging.Handler):
    """Records what it gets; may fail, wait or be slow."""

    def __init__(self, w, kind):
        super().__init__()
        self.w = w
        self.kind = kind
        self.began = 0
        self.got = []

    def handle(self, record):
        w = self.w
        self.began += 1
        if w.s.current not in w.background:
            w.ch.fail("record %s is handled by %s" % (record.msg, w.s.current.name), "thread")
        self.got.append(record.msg)
        w.ch.observe("got", record.msg)
        i = len(self.got)
        if self.kind == "fail" and i == 1 or self.kind == "failall":
            raise Boom(record.msg)
        if self.kind == "block" and i == 1:
            w.gate.wait()
        if self.kind == "slow":
            vthread.time.sleep(2)
        if self.kind in ("point", "block"):
            w.s.point("target")
        return True


class World:
    def __init__(self, ch, s):
        self.ch, self.s = ch, s
        self.gate = vthread.threading.Event()
        self.background = set()
        self.clock = itertools.count()
        self.called = {}
        self.returned = {}
        self.upper = {}
        self.close_called = None
        self.raised = {}

    def start(self, handler):
        n = len(self.s.threads)
        handler.start()
        new = self.s.threads[n:]
        self.background.update(new)
        return new

    def emit(self, handler, target, name, timed=False):
        r = logging.LogRecord("x", logging.INFO, __file__, 1, name, (), None)
        self.called[name] = next(self.clock)
        t0 = self.s.now
        before = len(self.called)
        # records which may be waiting in the queue, this one included
        upper = len(self.called) - target.began
        try:
            handler.handle(r)
        except Exception as e:
            self.raised[name] = e
        if timed and self.s.now != t0:
            self.ch.fail("emit waited for %.3f s" % (self.s.now - t0), "waits")
        # ... those emitted meanwhile
        self.upper[name] = upper + len(self.called) - before
        self.returned[name] = next(self.clock)


def scenario(ch, emitters, kind, buffered=True, size=0, flush="", lines=False, closers=1,
             gaps=None, close_early=False, flusher=False):
    """emitters: number of records of every emitting thread."""
    def main(s):
        w = World(ch, s)
        target = Target(w, kind)
        h = ThreadedHandler(target, flush_interval=INTERVAL, buffered=buffered, queue_size=size)
        bg = w.start(h)
        if not all(t.obj.daemon for t in bg):
            raise Violation("the thread keeps the program from ending", "daemon")
        threads = []

        def emitter(k, n):
            def run():
                for i in range(n):
                    if gaps is not None:
                        vthread.time.sleep(ch.pick(gaps, "gap"))
                    w.emit(h, target, "%d.%d" % (k, i), timed=gaps is not None)
                    if flush and "%d.%d" % (k, i) in flush:
                        h.flush()
            return run
        if emitters == ("main",):
            emitter(0, 2)()
        else:
            for k, n in enumerate(emitters):
                threads.append(vthread.threading.Thread(target=emitter(k, n), name="emit%d" % k))
        if flusher:
            threads.append(vthread.threading.Thread(target=h.flush, name="flusher"))
        for t in threads:
            t.start()

        def close():
            if w.close_called is None:
                w.close_called = next(w.clock)
            try:
                h.close()
            except Exception as e:
                ch.fail("close() raised %r" % e, "close-raised")
        if not close_early:
            for t in threads:
                t.join()
        if kind == "block" and not close_early:
            w.gate.set()
        cl = [vthread.threading.Thread(target=close, name="close%d" % i) for i in range(closers - 1)]
        for t in cl:
            t.start()
        close()
        w.gate.set()
        for t in threads + cl:
            t.join()
        s.block(lambda: all(t.done for t in bg), None, "end of the background thread")
        return check(w, target, buffered, size)
    try:
        return vthread.run(ch, main, lines=lines, use_loop=False)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


def check(w, target, buffered, size):
    got = target.got
    if len(set(got)) != len(got):
        raise Violation("a record was passed twice: %r" % got, "twice")
    for name in got:
        if name not in w.called:
            raise Violation("unknown record %r" % name, "unknown")
    for a, b in itertools.combinations(got, 2):
        if w.called[a] > w.returned[b]:
            raise Violation("%s was accepted before %s: %r" % (b, a, got), "order")
    for name, t in w.returned.items():
        if t > w.close_called or name in got:
            continue
        if buffered and size and w.upper[name] > size:
            continue                         # refused: the queue was full
        if name in w.raised:
            raise Violation("emit raised %r" % w.raised[name], "raised")
        raise Violation("accepted record %s never reached the target: %r" % (name, got), "lost")
    return tuple(got), tuple(sorted(w.raised))


def basic(ch, n, buffered):
    """Records of a logger reach every configured handler."""
    def main(s, loop):
        w = World(ch, s)
        root = logging.getLogger()
        saved = root.handlers[:], root.level, logging.root.manager.disable
        import sys
        hook = sys.excepthook
        targets = [Target(w, "fail" if i == 0 else "point") for i in range(n)]
        try:
            logging.disable(logging.NOTSET)
            k = len(s.threads)
            aiomisc.log.basic_config(level="info", log_format="disabled", handlers=targets,
                                     buffered=buffered, flush_interval=INTERVAL, loop=loop)
            w.background.update(s.threads[k:])
            if len(w.background) != n:
                raise Violation("%d background threads" % len(w.background), "threads")
            hs = root.handlers[:]
            log = logging.getLogger("c28.x")
            for i in range(3):
                log.info("m%d", i)
            log.debug("hidden")
            for h in hs:
                h.close()
        finally:
            root.handlers[:] = saved[0]
            root.setLevel(saved[1])
            logging.disable(saved[2])
            sys.excepthook = hook

        async def end():
            import asyncio
            while not all(t.done for t in w.background):
                await asyncio.sleep(INTERVAL)
            for t in targets:
                if t.got != ["m%d"] * 3:
                    raise Violation("%r" % t.got, "basic")
            return "ok"
        return end()
    try:
        return vthread.run(ch, main)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


def units(tier):
    deep = tier == "thorough"

    def add(emitters, kind, bound=1, w=1, **kw):
        if bound:
            bound += 1 + deep if kw.get("lines") else 2
        name = "%s %s %s" % ("+".join(map(str, emitters)), kind, " ".join(
            "%s=%s" % i for i in kw.items()))
        return Unit("%s bound=%d" % (name, bound), lambda ch: scenario(ch, emitters, kind, **kw),
                    bound=bound, cap=400000 if deep else 40000, weight=w)

    x = int(deep)
    for kind in ("ok", "fail", "failall", "point", "slow"):
        yield add((2,), kind, bound=2 + x, w=4)
        yield add((1, 1), kind, bound=1 + x, w=4)
        yield add((2,), kind, bound=1 + x, lines=True, w=6)
        yield add((2,), kind, bound=1 + x, buffered=False, w=2)
        yield add((2,), kind, bound=1 + x, buffered=False, size=1, w=3)
        yield add((3,), kind, bound=1, buffered=False, size=1, lines=True, w=6)
        yield add((1, 2), kind, bound=1 + x, buffered=False, size=1, w=5)
        yield add((3,), kind, bound=1 + x, size=1, w=3)
        yield add((2, 1), kind, bound=1 + x, size=2, w=4)
    if not deep:
        yield add((2,), "ok", bound=2, lines=True, w=30)
    yield add((2, 1), "point", bound=1 + x, w=20)
    yield add((1,), "ok", bound=2, lines=True, w=10)
    yield add((0,), "ok", bound=2, lines=True, w=5)
    for lines in (False, True):
        yield add((2,), "block", bound=2 - lines + x, lines=lines, w=5)
        yield add((1, 1), "block", bound=1 + x, lines=lines, w=6)
        yield add((3,), "block", bound=1 + x, lines=lines, size=1, w=5)
        yield add((2, 1), "block", bound=1, lines=lines, size=2, w=5)
        yield add((2,), "point", bound=2 - lines, lines=lines, close_early=True, w=8)
        yield add((1, 1), "block", bound=1, lines=lines, close_early=True, w=8)
        yield add((1, 1), "point", bound=1, lines=lines, close_early=True, size=1, w=8)
        yield add((1, 1), "block", bound=1, lines=lines, close_early=True, size=1, w=8)
        yield add((2,), "point", bound=1, lines=lines, close_early=True, size=1, buffered=False, w=8)
        yield add((2,), "point", bound=1, lines=lines, closers=2, w=8)
        yield add((2,), "point", bound=1, lines=lines, flusher=True, w=8)
        yield add((2,), "point", bound=1, lines=lines, flush="0.0", w=6)
    # emitting takes no time, in whatever phase the background thread is
    gaps = (0, 0.25, 0.5, 0.75, 1.0)
    for kind in ("ok", "slow"):
        yield add((2,), kind, bound=0, gaps=gaps)
        yield add((3,), kind, bound=0, gaps=gaps, flush="0.0")
        yield add((2, 1), kind, bound=0, gaps=(0, 0.25, 0.6), size=2)
    for n in (1, 2, 3):
        for b in (True, False):
            yield Unit("basic_config %d %s" % (n, b), lambda ch, n=n, b=b: basic(ch, n, b),
                       bound=2 if n < 3 else 1, cap=20000, weight=6)
