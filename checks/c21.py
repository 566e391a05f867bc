"""C21: async file objects against the synchronous ones."""
import asyncio
import bz2
import gzip
import itertools
import lzma
import os
import shutil
import tempfile

from mc import vthread

vthread.load(["aiomisc.io"])

from aiomisc.io import AsyncBinaryIO, AsyncTextIO, Compression, async_open  # noqa: E402
from aiomisc.thread_pool import ThreadPoolExecutor  # noqa: E402
from mc.core import Violation  # noqa: E402
from mc.run import Unit  # noqa: E402
from mc.vloop import Stuck, VLoop, run_loop  # noqa: E402

PROPERTY = "C21"
ASSUMPTIONS = [
    "the oracle is the synchronous file object of the same class of this Python; one step of "
    "iteration corresponds to readline()",
    "operations are awaited one after another, except for concurrent iteration",
]
OPEN = {"NONE": open, "GZIP": gzip.open, "BZ2": bz2.open, "LZMA": lzma.open}
CONTENT = "ab\ncd\n\nef"
DIR = None


def scratch():
    global DIR
    if DIR is None or DIR[0] != os.getpid():
        import atexit
        from multiprocessing import util
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        DIR = (os.getpid(), tempfile.mkdtemp(prefix="verif-c21-", dir=base))
        d = DIR[1]
        atexit.register(shutil.rmtree, d, True)
        util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
    return DIR[1]


class InlineLoop(VLoop):
    """Executor calls run at once, marked as not being in the loop's thread."""
    inside = 0
    execs = 0
    expected = None

    def run_in_executor(self, executor, func, *args):
        if executor is not self.expected:
            raise Violation("%r is executed by %r" % (func, executor), "executor")
        fut = self.create_future()
        self.inside += 1
        self.execs += 1
        try:
            fut.set_result(func(*args))
        except Exception as e:
            if isinstance(e, StopIteration):
                e = RuntimeError(e)
            fut.set_exception(e)
        finally:
            self.inside -= 1
        return fut


def data(binary, s):
    return s.encode() if binary else s


# op: (name, sync call, async call); both get (file, binary)
async def _aiter(f):
    try:
        return await f.__anext__()
    except StopAsyncIteration:
        return "stop"


def _siter(f, b):
    line = f.readline()
    return line if line else "stop"


def meth(name, *args):
    def arg(a, b):
        if isinstance(a, str):
            return data(b, a)
        if isinstance(a, list):
            return [data(b, i) for i in a]
        return a

    def s(f, b):
        return getattr(f, name)(*[arg(a, b) for a in args])

    async def a(f, b):
        return await getattr(f, name)(*[arg(x, b) for x in args])
    return ("%s%r" % (name, args), s, a)


async def _await_tell(f, b):
    return await f.tell()


async def _close(f, b):
    return await f.close()


async def _closed(f, b):
    return f.closed()


OPS = [
    meth("read"), meth("read", 3), meth("readline"), meth("readline", 1), meth("readlines"),
    meth("readlines", 1), ("iter", _siter, lambda f, b: _aiter(f)),
    meth("seek", 0), meth("seek", 2), meth("seek", 0, 2), meth("tell"),
    meth("truncate"), meth("truncate", 4), meth("write", "x"), meth("write", "y\nz"),
    meth("writelines", ["p\n", "q"]), meth("flush"), ("close", lambda f, b: f.close(), _close),
]
INFO = [
    meth("readable"), meth("writable"), meth("seekable"),
    ("closed", lambda f, b: f.closed, _closed),
]
EXTRA = [
    meth("seek", 1, 1), meth("seek", -1, 2), meth("seek", -5), meth("read", 0), meth("read", -1),
    meth("truncate", 0), meth("truncate", 9), meth("write", ""), meth("writelines", []),
    meth("read", None), meth("readline", 0), meth("write", "\r\n"), meth("readinto", bytearray(4)),
    meth("nosuch"), meth("write", 5),
]


def outcome(fn):
    try:
        return ("ok", norm(fn()))
    except Exception as e:
        return ("error", type(e).__name__, str(e))


def norm(x):
    if type(x).__module__ in ("_io", "io", "gzip", "bz2", "lzma"):
        return type(x).__name__
    return x


def sc_seq(ch, mode, comp, ops, depth, exists=True, opts=(), last=None):
    binary = "b" in mode
    d = scratch()
    names = [os.path.join(d, "s", "f"), os.path.join(d, "a", "f")]
    for n in names:
        os.makedirs(os.path.dirname(n), exist_ok=True)
        if os.path.exists(n):
            os.remove(n)
        if exists:
            if comp == "NONE":
                with open(n, "w") as f:
                    f.write(CONTENT)
            else:
                with OPEN[comp](n, "wt") as f:
                    f.write(CONTENT)
    opts = dict(opts)
    how = ch.pick(("with", "await", "with-raise"), "how") if depth < 3 else "with"
    seq = []
    loop = InlineLoop(ch)

    async def main():
        sync_err = None
        smode = mode if "b" in mode or "t" in mode else "t" + mode
        if not binary:
            opts.setdefault("encoding", "utf-8")
        try:
            s = OPEN[comp](names[0], smode, **opts)
        except Exception as e:
            s, sync_err = None, e
        f = async_open(names[1], mode, Compression[comp], **opts)
        cls = (AsyncBinaryIO if binary else AsyncTextIO)
        if not isinstance(f, cls):
            raise Violation("wrong class %r" % type(f), "class")
        try:
            if how == "await":
                if await f is not f:
                    raise Violation("await gives another object", "await")
            else:
                if await f.__aenter__() is not f:
                    raise Violation("context gives another object", "enter")
        except Violation:
            raise
        except Exception as e:
            if s is not None or type(e) is not type(sync_err) or \
                    str(e).replace(names[1], names[0]) != str(sync_err):
                raise Violation("open(%r): %r instead of %r" % (mode, e, sync_err), "open-error")
            return "open failed"
        if s is None:
            raise Violation("open(%r) did not fail with %r" % (mode, sync_err), "open-error")
        for i in range(depth):
            pool = last if last and i == depth - 1 else ops
            k = ch.pick(range(len(pool) + 1), "op")
            if k == len(pool):
                break
            name, sop, aop = pool[k]
            seq.append(name)
            a = None
            try:
                a = ("ok", norm(await aop(f, binary)))
            except Exception as e:
                a = ("error", type(e).__name__, str(e))
            b = outcome(lambda: sop(s, binary))
            ch.observe(name, a[0])
            if a != b:
                raise Violation("%s: %s gives %r instead of %r" % (mode, seq, a, b), "result")
            if a[0] == "ok" and comp == "NONE":
                if f.name != names[1] or f.mode != s.mode:
                    raise Violation("name/mode %r %r" % (f.name, f.mode), "attr")
        err = None
        try:
            s.close()
        except Exception as e:
            err = e
        try:
            if how == "await":
                await f.close()
            elif how == "with":
                r = await f.__aexit__(None, None, None)
            else:
                e = KeyError("x")
                r = await f.__aexit__(KeyError, e, None)
                if r:
                    raise Violation("the exception is suppressed", "suppressed")
        except Violation:
            raise
        except Exception as e:
            if seq and how != "await" and isinstance(e, ValueError):
                # entering __exit__ of a detached file
                pass
            elif type(e) is not type(err):
                raise Violation("%s: closing raised %r instead of %r" % (seq, e, err), "close-error")
        if not any(n.startswith("detach") for n in seq) and not f.closed():
            raise Violation("not closed after %s" % seq, "closed")
        with open(names[0], "rb") as x, open(names[1], "rb") as y:
            want, got = x.read(), y.read()
        if comp != "NONE" and want != got:
            try:
                mod = {"GZIP": gzip, "BZ2": bz2, "LZMA": lzma}[comp]
                want, got = mod.decompress(want), mod.decompress(got)
            except Exception:
                pass
        if comp == "GZIP" and want != got:      # time stamps and names
            want, got = len(want), len(got)
        if want != got:
            raise Violation("%s %s: file is %r instead of %r" % (mode, seq, got, want), "content")
        return tuple(seq)

    try:
        return run_loop(loop, main())
    except Stuck as e:
        raise Violation(str(e), "stuck")


class Executor:
    """Given to the file, only passed on to the loop."""


class RecFile:
    """Tells where its methods are called; like a real file not thread safe."""
    mode = "r"
    name = "rec"

    def __init__(self, w, lines):
        self.w = w
        self.lines = lines
        self.pos = 0
        self.closed = False
        self.busy = 0

    def _blocking(self, what):
        self.w(what)

    def readline(self, n=-1):
        self._blocking("readline")
        p = self.pos
        self.w("pause")
        line = self.lines[p] if p < len(self.lines) else ""
        self.w("pause")
        self.pos = p + 1
        return line

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._blocking("__exit__")
        self.closed = True

    def close(self):
        self._blocking("close")
        self.closed = True

    def tell(self):
        return self.pos

    def __getattr__(self, key):
        if key in ("read", "readlines", "seek", "truncate", "write", "writelines", "flush",
                   "readinto", "peek"):
            return lambda *a: self._blocking(key)
        raise AttributeError(key)


def make(base, w, lines):
    class F(base):
        @staticmethod
        def get_opener():
            def opener(*a, **kw):
                w("open")
                return RecFile(w, lines)
            return opener
    return F


def sc_thread(ch, base):
    """Which methods are executed outside of the loop's thread."""
    loop = InlineLoop(ch)

    def w(what):
        if not loop.inside and what != "pause":
            raise Violation("%s is executed in the event loop's thread" % what, "inline")

    async def main():
        loop.expected = ch.pick((None, Executor()), "executor")
        f = make(base, w, ["a\n", "b"])("x", executor=loop.expected)
        how = ch.pick(("with", "await"), "how")
        if how == "with":
            await f.__aenter__()
        else:
            await f
        for i in range(2):
            op = ch.pick((("read", 1), ("readline",), ("readlines",), ("seek", 0), ("truncate", 0),
                          ("write", "s"), ("writelines", []), ("flush",), ("peek",), ("iter",)), "op")
            if op[0] == "iter":
                try:
                    await f.__anext__()
                except StopAsyncIteration:
                    pass
            else:
                await getattr(f, op[0])(*op[1:])
        if how == "with":
            await f.__aexit__(None, None, None)
        else:
            await f.close()
        if not f.closed():
            raise Violation("not closed", "closed")
        return op
    return run_loop(loop, main())


def sc_iter(ch, n, readers, base, cancel=False):
    """Several tasks iterate one file whose reads take place in threads."""
    lines = ["%d\n" % i for i in range(n)]
    got = []

    async def main(s, loop):
        pool = ThreadPoolExecutor(2)
        loop.set_default_executor(pool)
        ident = vthread.threading.current_thread()

        def w(what):
            if vthread.threading.current_thread() is ident:
                raise Violation("%s is executed in the event loop's thread" % what, "inline")
            s.point(what)

        async with make(base, w, lines)("x", "r", pool) as f:
            async def reader(k):
                out = []
                got.append(out)
                async for line in f:
                    out.append(line)
                    ch.observe(k, line)
            tasks = [loop.create_task(reader(k)) for k in range(readers)]
            if cancel:
                loop.act("cancel", tasks[0].cancel, may=True,
                         enabled=lambda: not tasks[0].done())
            res = await asyncio.gather(*tasks, return_exceptions=True)
            for r in res:
                if r is not None and not (cancel and isinstance(r, asyncio.CancelledError)):
                    raise Violation("iteration ended with %r" % (r,), "error")
            lost = [r for r in res if r is not None]
        pool.shutdown()
        flat = [x for o in got for x in o]
        if not lost and sorted(flat) != sorted(lines):
            raise Violation("%r readers got %r" % (readers, got), "lines")
        for o in got:
            if o != [x for x in lines if x in o]:
                raise Violation("reader got %r" % (o,), "order")
        return tuple(map(tuple, got))

    try:
        return vthread.run(ch, main)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


def units(tier):
    deep = tier == "thorough"
    out = []
    seqs = OPS + INFO
    for m in ("r", "w", "a", "x", "r+", "w+", "a+", "x+"):
        for b in ("", "b"):
            mode = m + b
            ex = (True, False) if m[0] != "x" else (False, True)
            out.append(Unit("plain %s" % mode, lambda ch, m=mode, e=ex[0]: sc_seq(
                ch, m, "NONE", OPS, 4 if deep else 3, e), 0))
            out.append(Unit("plain %s other" % mode, lambda ch, m=mode, e=ex[1]: sc_seq(
                ch, m, "NONE", seqs, 2, e), 0))
            out.append(Unit("plain %s extra" % mode, lambda ch, m=mode, e=ex[0]: sc_seq(
                ch, m, "NONE", EXTRA + OPS + INFO, 2, e), 0))
    for m in ("rt", "wt", "br", "bw+", "rb+", "q", "rw", ""):
        out.append(Unit("plain %s" % m, lambda ch, m=m: sc_seq(ch, m, "NONE", OPS, 1), 0))
    for o in ((("newline", ""),), (("newline", "\n"),), (("encoding", "utf-16"),),
              (("encoding", "ascii"), ("errors", "replace")), (("buffering", 1),)):
        for m in ("r", "w+", "r+"):
            out.append(Unit("plain %s %r" % (m, o), lambda ch, m=m, o=o: sc_seq(
                ch, m, "NONE", OPS, 2, True, o), 0))
    for c in ("GZIP", "BZ2", "LZMA"):
        for m in ("r", "w", "a", "x"):
            for b in ("", "b"):
                out.append(Unit("%s %s" % (c, m + b), lambda ch, m=m + b, c=c: sc_seq(
                    ch, m, c, OPS, 3 if deep and c != "LZMA" else 2, m[0] != "x",
                    (("preset", 0),) if c == "LZMA" and m[0] != "r" else ()), 0))
    for base in (AsyncTextIO, AsyncBinaryIO):
        out.append(Unit("threads %s" % base.__name__, lambda ch, b=base: sc_thread(ch, b), 0))
    for n in (0, 1, 2, 3):
        for r in (1, 2, 3):
            if n + r > 5:
                continue
            out.append(Unit("iterate %d lines by %d" % (n, r), lambda ch, n=n, r=r: sc_iter(
                ch, n, r, AsyncTextIO), (2 if n * r < 4 else 1) + deep))
    out.append(Unit("iterate cancelled", lambda ch: sc_iter(ch, 2, 2, AsyncTextIO, True), 1))
    return out
