"""C27: replies of the DNS server over datagrams and streams."""
import asyncio
import socket
import struct

import dnslib

from aiomisc.service.dns import DNSStore, DNSZone, TCPDNSServer, UDPDNSServer, records as R
from checks.c26 import N, TYPES
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, run_loop
from mc.vnet import FakeSocket, NetLoop

PROPERTY = "C27"
ASSUMPTIONS = [
    "dnslib parses and builds packets correctly",
    "in-memory transports below the real protocols; a malformed request may be dropped, answered "
    "with an error or make the server close that connection",
    "requests have one question",
    "an announced size below 512 bytes counts as 512 (RFC 6891)",
]
T = R.RecordType
dnslib.dns.RDMAP.setdefault("DNAME", dnslib.DNAME)     # dnslib does not parse them by itself
EDNS = (None, 0, 511, 512, 513, 700, 1232, 4096, 65535)


class LookupFailed(Exception):
    pass


class World:
    """A store which is a plain list of records."""

    def __init__(self, recs):
        self.recs = recs
        self.store = DNSStore()
        zone = DNSZone(".")
        for r in recs:
            zone.add_record(r)
        self.store.add_zone(zone)

    def expected(self, qname, qtype):
        return [r for r in self.recs
                if r.name.lower() == qname.lower() and int(r.type) == qtype]


def question(qname, qtype, qid=7, edns=None, rd=1, qclass=1):
    q = dnslib.DNSRecord(dnslib.DNSHeader(id=qid, rd=rd),
                         q=dnslib.DNSQuestion(qname, qtype, qclass))
    if edns is not None:
        q.add_ar(dnslib.EDNS0(udp_len=edns))
    return q


def rr_key(rr):
    return (str(rr.rname).lower(), rr.rtype, rr.rclass, rr.ttl, wire(rr.rdata))


def wire(rd):
    b = dnslib.DNSBuffer()
    rd.pack(b)
    return bytes(b.data)


def want_keys(recs):
    return sorted((r.name.lower(), int(r.type), int(r.cls), r.ttl, wire(r.data)) for r in recs)


def check_reply(world, q, data, limit, failing=False):
    """The reply to q as the client sees it."""
    try:
        p = dnslib.DNSRecord.parse(data)
    except Exception as e:
        raise Violation("the reply to %s cannot be parsed: %s" % (q.q, e), "malformed-reply")
    if len(data) > limit:
        raise Violation("%d bytes sent, %d allowed" % (len(data), limit), "size")
    if p.header.id != q.header.id or p.header.qr != 1:
        raise Violation("header %s" % p.header, "id")
    if len(p.questions) != 1 or str(p.q.qname) != str(q.q.qname) or \
            p.q.qtype != q.q.qtype or p.q.qclass != q.q.qclass:
        raise Violation("question %r instead of %r" % (p.questions, q.q), "question")
    got = sorted(map(rr_key, p.rr))
    rcode = p.header.rcode
    if failing:
        if rcode != dnslib.RCODE.SERVFAIL or got:
            raise Violation("rcode %d %r for a failed lookup" % (rcode, got), "servfail")
        return rcode, 0
    exp = world.expected(str(q.q.qname), q.q.qtype)
    want = want_keys(exp)
    if not exp:
        if rcode != dnslib.RCODE.NXDOMAIN or got or p.header.tc:
            raise Violation("rcode %d %r tc=%d without records" % (rcode, got, p.header.tc),
                            "nxdomain")
        return rcode, 0
    if rcode != dnslib.RCODE.NOERROR:
        raise Violation("rcode %d with %d records" % (rcode, len(exp)), "noerror")
    rest = list(want)
    for k in got:
        if k not in rest:
            raise Violation("%r is not expected" % (k,), "answer")
        rest.remove(k)
    if bool(rest) != bool(p.header.tc):
        raise Violation("%d of %d answers, truncated=%d (%d of %d bytes)" % (
            len(got), len(want), p.header.tc, len(data), limit), "tc")
    if rest:
        full = q.reply()
        if q.ar:
            full.add_ar(dnslib.EDNS0(udp_len=512))
        for r in exp:
            full.add_answer(dnslib.RR(r.name, int(r.type), int(r.cls), r.ttl, r.data))
        if len(full.pack()) <= limit:
            raise Violation("%d answers cut which fit into %d bytes" % (len(rest), limit), "cut")
    return rcode, len(got), p.header.tc


def udp_limit(edns):
    return min(max(edns or 0, 512), 65507)


class Run:
    """One server over one of the transports."""

    def __init__(self, ch, store, proto):
        self.ch = ch
        self.loop = NetLoop(ch)
        self.proto = proto
        self.sock = FakeSocket(socket.AF_UNIX,
                               socket.SOCK_DGRAM if proto == "udp" else socket.SOCK_STREAM)
        cls = UDPDNSServer if proto == "udp" else TCPDNSServer
        self.svc = cls(store=store, sock=self.sock)

    def __call__(self, body):
        async def main():
            self.svc.set_loop(self.loop)
            await self.svc.start()
            r = await body()
            await self.svc.stop()
            return r
        try:
            return run_loop(self.loop, main())
        except Stuck as e:
            raise Violation("%s" % e, "stuck")
        finally:
            if self.sock.fileno() >= 0:
                self.sock.close()

    @staticmethod
    async def settle():
        for _ in range(12):
            await asyncio.sleep(0)

    async def ask(self, data):
        """One request; the bytes of its reply."""
        if self.proto == "udp":
            n = len(self.loop.dgram.sent)
            self.loop.dgram.deliver(data, ("peer", 1))
            await self.settle()
            sent = self.loop.dgram.sent[n:]
            if len(sent) != 1:
                raise Violation("%d replies" % len(sent), "one-reply")
            if sent[0][1] != ("peer", 1):
                raise Violation("the reply goes to %r" % (sent[0][1],), "addr")
            return sent[0][0]
        t = self.loop.accept("c")
        t.feed(struct.pack("!H", len(data)) + data)
        await self.settle()
        out = split_frames(bytes(t.out))
        if len(out) != 1:
            raise Violation("%d replies" % len(out), "one-reply")
        t.feed_eof()
        await self.settle()
        if not t.lost:
            raise Violation("the connection is still open", "open")
        return out[0]


def split_frames(data):
    out = []
    while data:
        if len(data) < 2:
            raise Violation("incomplete frame %r" % data, "frame")
        n, = struct.unpack("!H", data[:2])
        if len(data) < 2 + n:
            raise Violation("incomplete frame: %d of %d" % (len(data) - 2, n), "frame")
        out.append(data[2:2 + n])
        data = data[2 + n:]
    return out


def sizes(ch, proto, mk, counts, edns_list=EDNS, qname="x.b.com.", qtype=T.A):
    n = ch.pick(counts, "n")
    edns = ch.pick(edns_list, "edns")
    w = World([mk(i) for i in range(n)])
    r = Run(ch, w.store, proto)

    async def body():
        q = question(qname, qtype, edns=edns)
        data = await r.ask(q.pack())
        x = check_reply(w, q, data, udp_limit(edns) if proto == "udp" else 65535)
        ch.observe(n, edns, x)
        return x
    return r(body)


def exact(ch, proto, mk, counts, qtype):
    """The announced size is about the size of the complete reply."""
    n = ch.pick(counts, "n")
    d = ch.pick((-1, 0, 1), "more")
    qname = "x.b.com."
    w = World([mk(i) for i in range(n)])
    full = question(qname, qtype, edns=512).reply()
    full.add_ar(dnslib.EDNS0(udp_len=512))
    for r in w.recs:
        full.add_answer(dnslib.RR(r.name, int(r.type), int(r.cls), r.ttl, r.data))
    edns = len(full.pack()) + d
    r = Run(ch, w.store, proto)

    async def body():
        q = question(qname, qtype, edns=edns)
        data = await r.ask(q.pack())
        x = check_reply(w, q, data, udp_limit(edns) if proto == "udp" else 65535)
        if proto == "udp" and edns >= 512 and x[2] != (d < 0):
            raise Violation("%d answers of %d bytes for %d bytes: truncated=%d" % (
                n, edns - d, edns, x[2]), "tc")
        ch.observe(n, d, x)
        return x
    return r(body)


def fields(ch, proto):
    """Ids, flags, classes, spellings of names."""
    w = World([R.A.create("x.b.com.", "192.0.2.1"), R.A.create("X.b.com.", "192.0.2.2"),
               R.TXT.create("x.b.com.", "t"), R.A.create("y" * 63 + "." + "z" * 63 + ".", "192.0.2.3"),
               R.A.create(".", "192.0.2.4")])
    qid = ch.pick((0, 1, 255, 256, 65535), "id")
    rd = ch.pick((0, 1), "rd")
    qclass = ch.pick((1, 3), "class")
    qname = ch.pick(("x.b.com.", "X.b.COM.", "xx.b.com.", "b.com.", ".", "x.B.com.",
                     "y" * 63 + "." + "z" * 63 + ".", "x.b.com.x."), "name")
    qtype = ch.pick((T.A, T.TXT, T.AAAA), "type")
    edns = ch.pick((None, 1232), "edns")
    r = Run(ch, w.store, proto)

    async def body():
        q = question(qname, qtype, qid, edns, rd, qclass)
        data = await r.ask(q.pack())
        x = check_reply(w, q, data, 65535)
        p = dnslib.DNSRecord.parse(data)
        if bool(edns) != any(a.rtype == dnslib.QTYPE.OPT for a in p.ar):
            raise Violation("EDNS of the reply: %r" % p.ar, "edns")
        return x
    return r(body)


def types(ch, proto, name):
    """Every record type and every variation of its arguments."""
    create, base, other = TYPES[name]
    variants = [base] + [dict(base, **{k: v}) for k, v in other.items()]
    sel = ch.pick([(v,) for v in variants] + [(base, v) for v in variants[1:]], "variant")
    ttl = ch.pick((0, 1, 3600, 2 ** 31 - 1), "ttl")
    try:
        recs = [create(**dict(v, ttl=ttl)) for v in sel]
    except Exception as e:
        raise Violation("cannot create %r: %r" % (sel, e), "create")
    w = World(recs)
    r = Run(ch, w.store, proto)

    async def body():
        q = question(N, int(T[name]))
        x = check_reply(w, q, await r.ask(q.pack()), 512 if proto == "udp" else 65535)
        return x
    return r(body)


def failing(ch, proto):
    """The lookup or the building of the reply fails; later requests are served."""
    w = World([R.A.create("x.b.com.", "192.0.2.1")])
    exc = ch.pick((LookupFailed, ValueError, KeyError, asyncio.TimeoutError, MemoryError), "exc")
    what = ch.pick(("query", "rr", "pack"), "what")
    before = ch.pick((0, 1), "before")
    orig = w.store.query

    class BadData(R.A):
        def pack(self, buffer):
            raise exc("pack")

    class Bad:
        name, type, data, cls, ttl = "x.b.com.", T.A, BadData("192.0.2.9"), R.DNSClass.IN, 1

        def rr(self, query_type):
            if what == "rr":
                raise exc("rr")
            return dnslib.RR(self.name, query_type, 1, 1, self.data)

    class Store(DNSStore):
        def query(self, name, record_type):
            if bad[0]:
                if what == "query":
                    raise exc("query")
                return [Bad()]
            return orig(name, record_type)
    bad = [False]
    r = Run(ch, Store(), proto)
    ch.observe(exc.__name__, what, before)

    async def body():
        for b in [False] * before + [True, False, True]:
            bad[0] = b
            q = question("x.b.com.", T.A)
            check_reply(w, q, await r.ask(q.pack()), 512, failing=b)
        return what
    return r(body)


def unknown(ch, proto):
    """A type nobody has records of: one reply without answers."""
    w = World([R.A.create("x.b.com.", "192.0.2.1")])
    qtype = ch.pick((0, 3, 26, 251, 252, 255, 999, 32768, 65535), "type")
    r = Run(ch, w.store, proto)

    async def body():
        q = question("x.b.com.", qtype)
        p = dnslib.DNSRecord.parse(await r.ask(q.pack()))
        if p.header.id != q.header.id or str(p.q.qname) != "x.b.com." or p.q.qtype != qtype:
            raise Violation("reply %s" % p, "question")
        if p.rr and qtype != 255:
            raise Violation("answers %r to an unknown type" % p.rr, "answer")
        q = question("x.b.com.", T.A)
        check_reply(w, q, await r.ask(q.pack()), 512)
        return p.header.rcode
    return r(body)


def good(i):
    return question("x%d.b.com." % i, T.A, qid=100 + i, edns=1232 if i % 2 else None)


GOOD_WORLD = [R.A.create("x0.b.com.", "192.0.2.1"), R.A.create("x1.b.com.", "192.0.2.2"),
              R.A.create("x1.b.com.", "192.0.2.3")]


def malformed_packets():
    whole = question("x0.b.com.", T.A, qid=900, edns=1232).pack()
    out = [whole[:i] for i in range(len(whole))]
    out += [b"\xff" * 12, b"\x00" * 3, b"\x00" * 12 + b"\xff", b"\xff" * 40,
            struct.pack("!HHHHHH", 1, 0, 1, 0, 0, 0) + b"\xc0\x0c\x00\x01\x00\x01",
            struct.pack("!HHHHHH", 1, 0, 65535, 0, 0, 0) + b"\x00\x00\x01\x00\x01"]
    return out


def datagrams(ch, n, bad_at):
    """Malformed datagrams between good ones, with or without time to handle them."""
    w = World(GOOD_WORLD)
    bads = malformed_packets()
    bad = ch.pick(range(len(bads)), "malformed")
    r = Run(ch, w.store, "udp")
    ch.observe(bad)

    async def body():
        loop = r.loop
        sent = []
        for i in range(n):
            if i == bad_at:
                loop.dgram.deliver(bads[bad], ("evil", 0))
                if ch.pick((False, True), "pause"):
                    await r.settle()
            q = good(i)
            sent.append((q, ("peer", i)))
            loop.dgram.deliver(q.pack(), ("peer", i))
            if i < n - 1 and ch.pick((False, True), "pause"):
                await r.settle()
        await r.settle()
        out = []
        for q, addr in sent:
            mine = [d for d, a in loop.dgram.sent if a == addr]
            if len(mine) != 1:
                raise Violation("%d replies for %r" % (len(mine), addr), "one-reply")
            out.append(check_reply(w, q, mine[0], udp_limit(None)))
        for d, a in loop.dgram.sent:
            if a[0] not in ("peer", "evil"):
                raise Violation("sent to %r" % (a,), "addr")
        return tuple(out)
    return r(body)


def stream(ch, n, cuts, end="eof", tail=b""):
    """n pipelined requests cut into pieces."""
    w = World(GOOD_WORLD)
    qs = [good(i % 3) for i in range(n)]
    data = b"".join(struct.pack("!H", len(q.pack())) + q.pack() for q in qs) + tail
    pos = []
    lo = 1
    for k in range(cuts):
        c = ch.pick([0] + list(range(lo, len(data))), "cut")
        if c:
            pos.append(c)
            lo = c + 1
        if not c or lo >= len(data):
            break
    pause = ch.pick((True, False), "pause")
    r = Run(ch, w.store, "tcp")
    ch.observe(tuple(pos), pause)

    async def body():
        t = r.loop.accept("c")
        await asyncio.sleep(0)
        prev = 0
        for p in pos + [len(data)]:
            t.feed(data[prev:p])
            prev = p
            if pause:
                await r.settle()
                if t.closing:
                    raise Violation("closed after %d bytes" % p, "closed")
                complete = 0
                off = 0
                for q in qs:
                    off += 2 + len(q.pack())
                    complete += off <= p
                if len(split_frames(bytes(t.out))) != complete:
                    raise Violation("%d replies after %d requests" % (
                        len(split_frames(bytes(t.out))), complete), "one-by-one")
        if end == "eof":
            t.feed_eof()
        elif end == "reset":
            await r.settle()
            t.reset()
        await r.settle()
        out = split_frames(bytes(t.out))
        if len(out) != n:
            raise Violation("%d replies to %d requests" % (len(out), n), "count")
        if not t.lost:
            raise Violation("the connection is still open", "open")
        return tuple(check_reply(w, q, d, 65535) for q, d in zip(qs, out))
    return r(body)


def two_streams(ch):
    """Two clients, pieces of their requests in every order."""
    w = World(GOOD_WORLD)
    r = Run(ch, w.store, "tcp")
    pieces = []
    for i in range(2):
        d = good(i).pack()
        d = struct.pack("!H", len(d)) + d
        pieces.append([d[:1], d[1:9], d[9:]])

    async def body():
        ts = [r.loop.accept("c%d" % i) for i in range(2)]
        left = [list(p) for p in pieces]
        while any(left):
            i = ch.pick([i for i in range(2) if left[i]], "client")
            ts[i].feed(left[i].pop(0))
            if ch.pick((True, False), "pause"):
                await r.settle()
        await r.settle()
        for i in range(2):
            out = split_frames(bytes(ts[i].out))
            if len(out) != 1:
                raise Violation("%d replies to client %d" % (len(out), i), "count")
            check_reply(w, good(i), out[0], 65535)
        return "ok"
    return r(body)


def bad_stream(ch, kind):
    """A malformed request does not stop the server from answering others."""
    w = World(GOOD_WORLD)
    r = Run(ch, w.store, "tcp")
    bads = malformed_packets()
    bad = bads[ch.pick(range(len(bads)), "malformed")]
    before = ch.pick((0, 1), "before")

    async def body():
        other = r.loop.accept("other")
        t = r.loop.accept("bad")
        await asyncio.sleep(0)
        g = good(0).pack()
        g = struct.pack("!H", len(g)) + g
        o = good(1).pack()
        other.feed(struct.pack("!H", len(o)) + o[:5])
        for _ in range(before):
            t.feed(g)
        if kind == "frame":
            t.feed(struct.pack("!H", len(bad)) + bad + g)
        elif kind == "cut":           # less than announced
            t.feed(struct.pack("!H", len(bad) + 1) + bad)
            t.feed_eof()
        else:
            t.feed(struct.pack("!H", len(bad) + 1) + bad)
            await r.settle()
            t.reset()
        await r.settle()
        out = split_frames(bytes(t.out))
        if len(out) < before:
            raise Violation("the good request is not answered", "count")
        for d in out[:before]:
            check_reply(w, good(0), d, 65535)
        other.feed(o[5:])
        await r.settle()
        out = split_frames(bytes(other.out))
        if len(out) != 1:
            raise Violation("another client got %d replies" % len(out), "other")
        check_reply(w, good(1), out[0], 65535)
        q = good(1)
        check_reply(w, q, await r.ask(q.pack()), 65535)
        return len(out)
    return r(body)


def units(tier):
    deep = tier == "thorough"

    def a(i):
        return R.A.create("x.b.com.", "10.%d.%d.%d" % (i >> 16, i >> 8 & 255, i & 255))

    def t(i):
        return R.TXT.create("x.b.com.", "%03d" % i + "t" * 190)

    def c(i):
        return R.CNAME.create("x.b.com.", "a%d.b%d.com." % (i, i % 3))
    A = dict(mk=a, qtype=T.A)
    X = dict(mk=t, qtype=T.TXT)
    C = dict(mk=c, qtype=T.CNAME)

    def u(name, f, *args, weight=5, **kw):
        return Unit(name, lambda ch: f(ch, *args, **kw), weight=weight)

    for proto in ("udp", "tcp"):
        yield u("%s: 0-48 A answers" % proto, sizes, proto, counts=range(0, 49), weight=20, **A)
        yield u("%s: 0-9 TXT answers" % proto, sizes, proto, counts=range(0, 10), **X)
        yield u("%s: 0-30 CNAME answers" % proto, sizes, proto, counts=range(0, 31), weight=15, **C)
        yield u("%s: A answers about 1232 and 4096 bytes" % proto, sizes, proto,
                counts=(70, 73, 74, 75, 76, 77, 252, 253, 254, 255, 256, 257, 258),
                edns_list=(None, 1200, 1231, 1232, 1233, 1247, 4095, 4096, 4097),
                weight=40, **A)
        yield u("%s: A answers about 64K" % proto, sizes, proto,
                counts=(4000, 4093, 4094, 4100), edns_list=(None, 65535), weight=60, **A)
        yield u("%s: 512 bytes without announcement" % proto, sizes, proto,
                counts=(29, 30, 31), edns_list=(None,), mk=lambda i: R.A.create(
                    "abcdefgh.b.com.", "192.0.2.%d" % i), qname="abcdefgh.b.com.", qtype=T.A)
        yield u("%s: exact size, A" % proto, exact, proto, a, (30, 31, 60, 250), T.A)
        yield u("%s: exact size, TXT" % proto, exact, proto, t, (2, 3, 7), T.TXT)
        yield u("%s: large records" % proto, sizes, proto, counts=range(0, 5),
                mk=lambda i: R.TXT.create("x.b.com.", [("%03d" % i + "t" * 197).encode()] * 3),
                qtype=T.TXT)
        yield u("%s: fields" % proto, fields, proto, weight=20)
        yield u("%s: failing lookups" % proto, failing, proto)
        yield u("%s: unknown types" % proto, unknown, proto)
        for name in TYPES:
            yield u("%s: %s records" % (proto, name), types, proto, name, weight=2)
    if deep:
        for proto in ("udp", "tcp"):
            yield u("%s: 0-300 A answers" % proto, sizes, proto, counts=range(0, 301),
                    edns_list=tuple(range(500, 530)) + (1232, 4096), weight=80, **A)
    for n, at in ((1, 0), (2, 0), (2, 1), (3, 1)):
        yield u("udp: %d datagrams, malformed at %d" % (n, at), datagrams, n, at, weight=8)
    for n, cuts in ((1, 2), (2, 1), (2, 2)) + (((1, 3), (3, 2), (2, 3)) if deep else ()):
        yield u("tcp: %d requests, %d cuts" % (n, cuts), stream, n, cuts, weight=10 * n ** cuts)
    yield u("tcp: 2 requests, reset", stream, 2, 1, "reset")
    yield u("tcp: 2 requests and a part", stream, 2, 1, "eof", b"\x00")
    yield u("tcp: 2 requests and a header", stream, 2, 1, "eof", b"\x00\x40abc")
    yield u("tcp: two clients", two_streams, weight=30)
    for kind in ("frame", "cut", "reset"):
        yield u("tcp: malformed %s" % kind, bad_stream, kind)
