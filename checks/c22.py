"""C22: the worker wire protocol."""
import asyncio
import io
import pickle
import socket
import struct

from aiomisc_worker import PacketTypes
from aiomisc_worker.protocol import AsyncProtocol, FileIOProtocol, SocketIOProtocol
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, run_loop
from mc.vnet import MemTransport, NetLoop

PROPERTY = "C22"
ASSUMPTIONS = ["transports deliver bytes reliably and in order, in pieces of any size"]

SETS = {
    "short": [None, (1, "a")],
    "empty": [b"", "", ()],
    "types": [(PacketTypes.REQUEST, len, (1,), {}), PacketTypes.AUTH_OK],
    "one": [0],
}
BIG = {
    "big": [b"x" * 70000, 5],
    "mixed": [{"a": [b"y" * 300]}, None, "z" * 66000],
}


class WFile(io.RawIOBase):
    """A raw file whose write may be short."""

    def __init__(self, size):
        self.size = size
        self.data = bytearray()

    def writable(self):
        return True

    def write(self, d):
        n = self.size(len(d))
        self.data += bytes(d[:n])
        return n


class RFile(io.RawIOBase):
    def __init__(self, pieces):
        self.pieces = pieces

    def readable(self):
        return True

    def read(self, size=-1):
        if size < 0:
            raise AssertionError("unbounded read")
        if size == 0 or not self.pieces:
            return b""
        p = self.pieces[0]
        r, p = p[:size], p[size:]
        if p:
            self.pieces[0] = p
        else:
            self.pieces.pop(0)
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)


class Sock:
    def __init__(self, size=None, pieces=None):
        self.size = size
        self.data = bytearray()
        self.r = RFile(pieces)

    def send(self, d, flags=0):
        n = self.size(len(d))
        self.data += bytes(d[:n])
        return n

    def sendall(self, d, flags=0):
        self.data += bytes(d)

    def recv(self, n, flags=0):
        return self.r.read(n)

    def recv_into(self, b, n=0, flags=0):
        r = self.r.read(n or len(b))
        b[:len(r)] = r
        return len(r)


def write(kind, msgs, size):
    if kind == "file":
        f = WFile(size)
        p = FileIOProtocol(f)
    elif kind == "buffered":
        raw = WFile(size)
        f = io.BufferedWriter(raw, 16)
        p = FileIOProtocol(f)
    else:
        f = Sock(size)
        p = SocketIOProtocol(f)
    for m in msgs:
        p.send(m)
    if kind == "buffered":
        f.flush()
        return bytes(raw.data)
    return bytes(f.data)


def reference(msgs):
    out = b""
    for m in msgs:
        d = pickle.dumps(m)
        out += struct.pack("!L", len(d)) + d
    return out


def decode(data, what):
    out = []
    while data:
        if len(data) < 4:
            raise Violation("%s: the stream ends with %r" % (what, data), "stream")
        n, = struct.unpack("!L", data[:4])
        if len(data) < 4 + n:
            raise Violation("%s: the stream ends inside of a message" % what, "stream")
        try:
            out.append(pickle.loads(data[4:4 + n]))
        except Exception as e:
            raise Violation("%s: %r" % (what, e), "stream")
        data = data[4 + n:]
    return out


def sc_write(ch, kind, msgs):
    n = [0]

    def size(avail):
        if avail == 0:
            return 0
        if n[0] > 3:
            return avail
        n[0] += 1
        opts = sorted({1, 3, 4, 5, avail // 2, avail - 1, avail} & set(range(1, avail + 1)),
                      reverse=True)
        return ch.pick(opts, "written")
    data = write(kind, msgs, size)
    got = decode(data, kind)
    if got != msgs or list(map(type, got)) != list(map(type, msgs)):
        raise Violation("%s: %r was written as %r" % (kind, short(msgs), short(got)), "written")
    return len(data)


def short(x):
    r = repr(x)
    return r if len(r) < 200 else r[:200] + "..."


def sc_async_write(ch, msgs):
    loop = NetLoop(ch)

    async def main():
        reader = asyncio.StreamReader(loop=loop)
        sp = asyncio.StreamReaderProtocol(reader, loop=loop)
        t = MemTransport(loop, sp, "peer")
        await asyncio.sleep(0)
        w = asyncio.StreamWriter(t, sp, reader, loop)
        p = AsyncProtocol(reader, w)

        async def sender():
            for m in msgs:
                await p.send(m)
        task = loop.create_task(sender())
        at = []

        def count():
            d, n = bytes(t.out), 0
            while len(d) >= 4:
                n += 1
                d = d[4 + struct.unpack("!L", d[:4])[0]:]
            return n

        def pause():
            sp.pause_writing()
            at.append(count())

        def written(t):
            if sp._paused and count() > at[-1] + 1:
                ch.fail("async: sends on while the transport accepts no more", "drain")
        t.on_write = written
        loop.act("pause", pause, may=True)
        loop.act("resume", sp.resume_writing, lambda: sp._paused)
        await task
        got = decode(bytes(t.out), "async")
        if got != msgs:
            raise Violation("async: %r" % short(got), "written")
        getattr(p, "close", t.close)()
        await asyncio.sleep(0)
        if not (t.eof_written or t.closing):
            raise Violation("close() leaves the connection open", "close")
        w.close()
        return len(t.out)
    try:
        return run_loop(loop, main())
    except Stuck as e:
        raise Violation(str(e), "stuck")


def cuts(ch, data, n, marks):
    """The pieces a stream comes in: every choice of up to n cut positions."""
    if len(data) < 80:
        pos = list(range(1, len(data)))
    else:
        pos = sorted(p for p in marks if 0 < p < len(data))
    out, prev, start = [], 0, 0
    for _ in range(n):
        opts = [None] + [p for p in pos if p > prev]
        if len(opts) == 1:
            break
        p = ch.pick(opts, "cut")
        if p is None:
            break
        out.append(data[prev:p])
        prev = p
    out.append(data[prev:])
    return [o for o in out if o]


def marks_of(msgs):
    m, o = set(), 0
    for x in msgs:
        n = len(reference([x]))
        m |= {o + d for d in (0, 1, 3, 4, 5, n // 2, n - 1)}
        m.add(o + 65536)
        o += n
    return m


def end_of(ch, data, marks, trunc):
    if not trunc:
        return len(data)
    pos = list(range(len(data))) if len(data) < 80 else sorted(p for p in marks if p < len(data))
    return ch.pick(pos, "end")


def whole(msgs, n):
    """How many messages are complete in the first n bytes."""
    k = o = 0
    for x in msgs:
        o += len(reference([x]))
        if o > n:
            break
        k += 1
    return k


def judge(kind, msgs, got, n, total, err):
    exp = msgs[:whole(msgs, n)]
    if got != exp or list(map(type, got)) != list(map(type, exp)):
        raise Violation("%s: received %s of %s cut at %d" % (kind, short(got), short(msgs), n),
                        "received")
    if err is None:
        raise Violation("%s: the end of the stream at %d of %d was not reported" % (
            kind, n, total), "no-error")


def sc_read(ch, kind, msgs, n, trunc, reset=False):
    data = reference(msgs)
    marks = marks_of(msgs)
    end = end_of(ch, data, marks, trunc)
    if n == "bytes":
        pieces = [data[i:i + 1] for i in range(end)]
    else:
        pieces = cuts(ch, data[:end], n, marks) if end else []
    got, err = [], None
    if kind == "file":
        p = FileIOProtocol(RFile(list(pieces)))
    elif kind == "buffered":
        p = FileIOProtocol(io.BufferedReader(RFile(list(pieces)), 16))
    else:
        p = SocketIOProtocol(Sock(pieces=list(pieces)))
    while err is None and len(got) <= len(msgs):
        try:
            got.append(p.receive())
        except Exception as e:
            err = e
    judge(kind, msgs, got, end, len(data), err)
    return len(got), type(err).__name__


def sc_async_read(ch, msgs, n, trunc, reset=False):
    loop = NetLoop(ch)
    data = reference(msgs)
    marks = marks_of(msgs)
    end = end_of(ch, data, marks, trunc)
    if n == "bytes":
        pieces = [data[i:i + 1] for i in range(end)]
    else:
        pieces = cuts(ch, data[:end], n, marks) if end else []

    async def main():
        reader = asyncio.StreamReader(loop=loop)
        sp = asyncio.StreamReaderProtocol(reader, loop=loop)
        t = MemTransport(loop, sp, "peer")
        w = asyncio.StreamWriter(t, sp, reader, loop)
        p = AsyncProtocol(reader, w)
        await asyncio.sleep(0)
        todo = list(pieces)

        def feed():
            if t.paused:
                raise Violation("the reader is paused for ever", "paused")
            t.feed(todo.pop(0))
            if not todo and not reset:
                pass
        loop.act("feed", feed, lambda: todo and not t.paused, repeat=True)
        loop.act("end", t.reset if reset else t.feed_eof, lambda: not todo)
        got, err = [], None
        while err is None and len(got) <= len(msgs):
            try:
                got.append(await p.receive())
            except Exception as e:
                err = e
        if not reset:
            judge("async", msgs, got, end, len(data), err)
        elif got != msgs[:len(got)] or err is None:
            raise Violation("async: received %s, %r" % (short(got), err), "received")
        w.close()
        await asyncio.sleep(0)
        return len(got), type(err).__name__
    try:
        return run_loop(loop, main())
    except Stuck as e:
        raise Violation(str(e), "stuck")


class NoDump:
    def __reduce__(self):
        raise ValueError("no")


def sc_unpicklable(ch, kind):
    """A message which cannot be stored leaves no trace in the stream."""
    size = lambda n: n
    f = WFile(size) if kind == "file" else Sock(size)
    p = FileIOProtocol(f) if kind == "file" else SocketIOProtocol(f)
    i = ch.pick((0, 1, 2), "bad")
    for k in range(3):
        try:
            p.send([k, NoDump()] if k == i else k)
        except Exception:
            if k != i:
                raise
        else:
            if k == i:
                raise Violation("no error")
    got = decode(bytes(f.data), kind)
    if got != [k for k in range(3) if k != i]:
        raise Violation("%s: %r" % (kind, got), "written")
    return i


def units(tier):
    q = tier == "quick"

    def u(name, f, *a, **kw):
        return Unit(name, lambda ch: f(ch, *a, **kw), kw.pop("bound", 1), weight=kw.pop("weight", 1))

    allsets = dict(SETS, **BIG)
    for sname, msgs in allsets.items():
        for kind in ("file", "socket", "buffered"):
            yield u("write %s %s" % (kind, sname), sc_write, kind, msgs)
        yield u("write async %s" % sname, sc_async_write, msgs)
        for kind in ("file", "socket", "buffered", "async"):
            f = sc_read if kind != "async" else sc_async_read
            a = (kind,) if kind != "async" else ()
            nc = 2 if q else 3
            yield u("read %s %s" % (kind, sname), f, *a, msgs, nc, False)
            yield u("read %s %s, truncated" % (kind, sname), f, *a, msgs, 1 if q else 2, True)
            if len(reference(msgs)) < 500:
                yield u("read %s %s, byte by byte" % (kind, sname), f, *a, msgs, "bytes", True)
        yield u("read async %s, reset" % sname, sc_async_read, msgs, 1, True, reset=True)
    for kind in ("file", "socket"):
        yield u("unpicklable %s" % kind, sc_unpicklable, kind)
