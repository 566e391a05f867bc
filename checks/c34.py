"""C34: chunks of iterables; fast identifiers."""
import itertools
import sys
import uuid

import aiomisc
from aiomisc import utils
from mc.core import Violation
from mc.run import Unit

PROPERTY = "C34"
ASSUMPTIONS = ["chunk sizes are positive integers", "identifiers: the random source and the clock are inputs"]


class Boom(Exception):
    pass


class Counted:
    """An iterator which knows how often it was asked and may fail."""

    def __init__(self, values, fail=None):
        self.values, self.i, self.asked, self.fail = values, 0, 0, fail

    def __iter__(self):
        return self

    def __next__(self):
        self.asked += 1
        if self.i == self.fail:
            self.fail = None
            raise Boom
        if self.i >= len(self.values):
            raise StopIteration
        self.i += 1
        return self.values[self.i - 1]


class GetItem:
    def __init__(self, values):
        self.values = values

    def __getitem__(self, i):
        return self.values[i]


VALUES = (lambda n: list(range(n)), lambda n: [None] * n, lambda n: [0, [], "", False, None, ()] * 3,
          lambda n: [[i] for i in range(n)])
KINDS = {
    "list": list, "tuple": tuple, "generator": lambda v: (x for x in v), "iterator": iter,
    "counted": Counted, "dict": lambda v: dict.fromkeys(map(repr, v)), "getitem": GetItem,
    "map": lambda v: map(lambda x: x, v), "reversed": lambda v: reversed(v),
    "range": lambda v: range(len(v)), "string": lambda v: "x" * len(v), "bytes": lambda v: bytes(range(len(v))),
    "deque": lambda v: __import__("collections").deque(v),
}


def contents(ch, top):
    n = ch.pick(range(top + 1), "length")
    size = ch.pick((1, 2, 3, 4, 5, 6, 7, 100), "size")
    values = ch.pick(VALUES, "values")(n)[:n]
    kind = ch.pick(KINDS, "kind")
    src = KINDS[kind](values)
    want = list(src if kind in ("list", "tuple", "dict", "getitem", "deque") else KINDS[kind](values))
    got = []
    for c in aiomisc.chunk_list(src, size):
        if not isinstance(c, list):
            raise Violation("a chunk is a %s" % type(c).__name__, "type")
        if any(c is g for g in got):
            raise Violation("the same list again", "same")
        got.append(c)
        if len(got) > n + 2:
            raise Violation("endless", "endless")
    whole = [want[i:i + size] for i in range(0, len(want), size)]
    if got != whole or any(a is not b for x, y in zip(got, whole) for a, b in zip(x, y)):
        raise Violation("%r by %d: %r" % (want, size, got), "contents")
    # changing a chunk which was handed out does not change the others or the source
    got[:1] and got[0].clear()
    if kind == "list" and (src != values or got[1:] != whole[1:]):
        raise Violation("source or other chunks changed", "aliasing")
    ch.observe("chunks", n, size, len(got))
    return n, size


def lazy(ch, top):
    n = ch.pick(range(top + 1), "length")
    size = ch.pick((1, 2, 3, 5), "size")
    fail = ch.pick([None] + list(range(n + 1)), "fails at")
    src = Counted(list(range(n)), fail)
    it = iter(aiomisc.chunk_list(src, size))
    if src.asked:
        raise Violation("the source was read before the first chunk was asked for", "eager")
    got, left = [], n
    while True:
        before = src.asked
        try:
            c = next(it)
        except StopIteration:
            end = "stop"
        except Boom:
            end = "boom"
        else:
            got += c
            if src.asked - before > size or len(c) == size and src.asked - before != size:
                raise Violation("%d items read for a chunk of %d" % (src.asked - before, len(c)), "lazy")
            if not 0 < len(c) <= size or (len(c) < size and len(got) < n):
                raise Violation("chunk of %d" % len(c), "chunk")
            if ch.choose((0, 0), "stop here"):
                asked = src.asked
                del it
                if src.asked != asked:
                    raise Violation("read after it was dropped", "lazy")
                end = "dropped"
                break
            continue
        break
    if end == "stop" and fail is not None or end == "boom" and fail is None:
        raise Violation("failure of the source at %r: %s" % (fail, end), "failure")
    if end == "stop" and len(got) != n or end == "boom" and len(got) < fail - fail % size or \
            got != list(range(len(got))):
        raise Violation("%r of %d, failure at %r" % (got, n, fail), "failure")
    ch.observe("lazy", n, size, end, len(got))
    return end


def shared(ch, n):
    """Two chunkings taking turns: independent sources, or one common source."""
    common = ch.choose((0, 0), "common")
    a = Counted(list(range(n)))
    b = a if common else Counted(list(range(n)))
    sizes = ch.pick((1, 2, 3), "size a"), ch.pick((1, 2), "size b")
    its = [iter(aiomisc.chunk_list(a, sizes[0])), iter(aiomisc.chunk_list(b, sizes[1]))]
    got = [[], []]
    open_ = [0, 1]
    order = []
    while open_:
        i = ch.pick(open_, "who")
        c = next(its[i], None)
        if c is None:
            open_.remove(i)
        else:
            got[i] += c
            order += c
    if common:
        ok = order == list(range(n))
    else:
        ok = got[0] == got[1] == list(range(n))
    if not ok:
        raise Violation("%r" % (got,), "shared")
    ch.observe("shared", tuple(got[0]))
    return common


# -- identifiers --------------------------------------------------------------
RANDOM = (0, 1, 0x3fff, 0x4000, 0xc000, 0xffff, 1 << 62, 1 << 63, 1 << 76, 1 << 79, (1 << 128) - 1,
          0x0123456789abcdef0123456789abcdef)
TIMES = (0, 1, 4095, 4096, 1700000000 * 10 ** 9, 1700000000 * 10 ** 9 + 1, (1 << 63) - 1)
MASK4 = ((1 << 128) - 1) & ~(0xc000 << 48) & ~(0xf000 << 64)


def identifiers(ch, bits):
    """Every pattern of the given random bits at every instant."""
    seen = {}
    real = utils.getrandbits, utils.time_ns
    asked = []
    try:
        version = ch.pick((4, 1), "version")
        now = ch.pick(TIMES, "time") if version == 1 else 0
        utils.time_ns = lambda: now
        for r in itertools.chain(RANDOM, (1 << i for i in range(128)),
                                 (1 << i | 1 << j for i in range(bits) for j in range(i))):
            def rnd(k):
                asked.append(k)
                return r & (1 << k) - 1
            utils.getrandbits = rnd
            u = (aiomisc.utils.fast_uuid4 if version == 4 else aiomisc.utils.fast_uuid1)()
            if not isinstance(u, uuid.UUID) or u.version != version or u.variant != uuid.RFC_4122:
                raise Violation("%r is version %r, variant %r" % (u, getattr(u, "version", None),
                                                                  getattr(u, "variant", None)), "version")
            if uuid.UUID(str(u)) != u:
                raise Violation("%s is not readable" % u, "text")
            if version == 1 and u.node != uuid.getnode():
                raise Violation("node of %s is not this computer" % u, "node")
            used = sum(asked)
            asked.clear()
            # random bits at the fixed places of a UUID do not count
            key = r & MASK4 if version == 4 else r & 0x3fff
            if version == 4 and used != 128 or version == 1 and used < 14:
                raise Violation("%d random bits" % used, "random")
            if seen.setdefault(u, key) != key:
                raise Violation("%s for different random numbers" % u, "distinct")
        if len(set(seen.values())) != len(seen):
            raise Violation("not a function of the random bits", "distinct")
    finally:
        utils.getrandbits, utils.time_ns = real
    ch.observe("ids", version, now, len(seen))
    return len(seen)


def units(tier):
    deep = tier == "thorough"
    cap = 500000
    yield Unit("contents", lambda ch: contents(ch, 18 if deep else 13), bound=0, cap=cap, weight=10)
    yield Unit("lazy", lambda ch: lazy(ch, 16 if deep else 10), bound=0, cap=cap, weight=5)
    for n in range(1, 8 if deep else 6):
        yield Unit("shared %d" % n, lambda ch, n=n: shared(ch, n), bound=0, cap=cap, weight=n)
    yield Unit("identifiers", lambda ch: identifiers(ch, 128 if deep else 64), bound=0, cap=cap, weight=5)
