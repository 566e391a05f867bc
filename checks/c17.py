"""C17: signals call every receiver; entrypoint hooks run in the right phase."""
import asyncio
import functools
import itertools

from aiomisc.signal import Signal, receiver
from checks.ep_model import scenario
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C17"
ASSUMPTIONS = [
    "receivers connected or disconnected while a call is in progress count from the next call on",
    "a raising receiver ends the call with its exception",
]


class Boom(Exception):
    pass


def sc_signal(ch, ops):
    """ops on signals s0 and (after a copy) s1."""
    loop = VLoop(ch)
    sig = {0: Signal()}
    model = {0: set()}
    frozen = {0: False}
    calls = []
    active = [0]
    A, K = object(), object()

    def make(i):
        async def r(*args, **kw):
            if args != (A,) or kw != {"k": K}:
                ch.fail("receiver %d got %r %r" % (i, args, kw), "args")
            if active[0]:
                ch.fail("two receivers of one call run at once", "overlap")
            active[0] += 1
            calls.append(i)
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            active[0] -= 1
        return r

    for i in range(3):
        IMPL[i] = make(i)
    recv = SLOTS

    class Obj:
        async def method(self, *a, **k):
            return await recv[2](*a, **k)
    obj = Obj()
    targets = [recv[0], recv[1], obj.method]

    async def main():
        for op in ops:
            kind = op[0]
            if kind == "copy":
                sig[1] = sig[0].copy()
                model[1] = set(model[0])
                frozen[1] = False
                if sig[1].is_frozen:
                    raise Violation("a copy is frozen", "copy-frozen")
                continue
            n = op[1]
            if n not in sig:
                return None
            if kind in ("connect", "deco", "disconnect"):
                t = targets[op[2]]
                try:
                    if kind == "connect":
                        sig[n].connect(t)
                    elif kind == "deco":
                        if receiver(sig[n])(t) is not t:
                            raise Violation("decorator does not return the function", "deco")
                    else:
                        sig[n].disconnect(t)
                except RuntimeError:
                    if not frozen[n]:
                        raise Violation("%s refused on an unfrozen signal" % kind, "refuse")
                else:
                    if frozen[n]:
                        raise Violation("frozen signal accepted %s" % kind, "frozen")
                    (model[n].discard if kind == "disconnect" else model[n].add)(op[2])
            elif kind == "bad":
                for bad in (lambda **k: None, make, functools.partial(make, 1), None, 5):
                    try:
                        sig[n].connect(bad)
                    except Exception:
                        pass
                    else:
                        raise Violation("connected %r" % (bad,), "bad-accepted")
            elif kind == "freeze":
                sig[n].freeze()
                frozen[n] = True
                if not sig[n].is_frozen:
                    raise Violation("freeze does not freeze", "freeze")
            elif kind == "call":
                del calls[:]
                r = await sig[n].call(A, k=K)
                if sorted(calls) != sorted(model[n]):
                    raise Violation("call reached %r, connected %r" % (sorted(calls), model[n]),
                                    "receivers")
                ch.observe("call", n, tuple(sorted(calls)))
        for n in sorted(sig):
            del calls[:]
            await sig[n].call(A, k=K)
            if sorted(calls) != sorted(model[n]):
                raise Violation("final call of %d reached %r, connected %r" % (
                    n, sorted(calls), model[n]), "receivers")
            if sig[n].is_frozen != frozen[n]:
                raise Violation("is_frozen is wrong", "is_frozen")
        return tuple(sorted(model[0]))

    try:
        return run_loop(loop, main())
    except Stuck as e:
        raise Violation("stuck %s" % e)


IMPL = {}


def _slot(i):
    """A coroutine function whose place in a small set is always the same."""
    keep = []
    for n in range(100000):
        async def r(*a, **k):
            return await IMPL[i](*a, **k)
        if hash(r) & 31 in (4 * i, 4 * i + 1):
            return r
        keep.append(r)
    return keep[-1]


SLOTS = [_slot(i) for i in range(4)]


def sc_mutate(ch, behaviours, ncalls, outer):
    """Receivers (and the environment) change the signal while it is being called."""
    loop = VLoop(ch)
    s = Signal()
    calls = []
    connected = set()
    R = []

    def connect(i):
        s.connect(R[i])
        connected.add(i)

    def disconnect(i):
        s.disconnect(R[i])
        connected.discard(i)

    def make(i, b):
        async def r(call):
            calls.append((call, i))
            if b == "once":
                disconnect(i)
            elif b == "adds":
                connect(3)
            elif b == "drops":
                disconnect(2)
            await asyncio.sleep(0)
            if b == "late-once":
                disconnect(i)
            elif b == "recall" and call < 10:
                await s.call(call + 10)
        return r

    for i in range(4):
        IMPL[i] = make(i, behaviours[i] if i < len(behaviours) else "plain")
        R.append(SLOTS[i])
    for i in range(len(behaviours)):
        connect(i)

    async def one(n):
        before = set(connected)
        await s.call(n)
        after = set(connected)
        got = [i for c, i in calls if c == n]
        must = before & after
        may = before | after
        if len(got) != len(set(got)):
            raise Violation("a receiver was called twice: %r" % got, "twice")
        miss = must - set(got)
        if miss and not flapped[0]:
            raise Violation("connected receivers %r were not called" % miss, "missed")
        if not set(got) <= may and not flapped[0]:
            raise Violation("called %r, connected %r" % (got, may), "extra")
        ch.observe("got", n, tuple(sorted(got)))

    flapped = [False]

    async def main():
        if outer:
            def toggle():
                if 3 in connected:
                    disconnect(3)
                else:
                    connect(3)
            loop.act("toggle", toggle, may=True)
        try:
            await asyncio.gather(*[one(n) for n in range(ncalls)])
        except RuntimeError as e:
            raise Violation("changing the signal during a call: %r" % e, "mutation")
        return len(connected)

    try:
        return run_loop(loop, main())
    except Stuck as e:
        raise Violation("stuck %s" % e)


def units(tier):
    deep = tier == "thorough"
    out = []
    ops = []
    for n in (0, 1):
        ops += [("connect", n, 0), ("connect", n, 1), ("disconnect", n, 0), ("freeze", n)]
    ops += [("copy",), ("call", 0), ("call", 1), ("deco", 0, 2), ("connect", 0, 2),
            ("disconnect", 0, 2), ("bad", 0)]
    depth = 5 if deep else 4

    def run_all(ch, first):
        # the remaining operations are free choices of the explorer
        seq = [first]
        have1 = first[0] == "copy"
        for d in range(depth - 1):
            cands = [None] + [o for o in ops if have1 or o[0] == "copy" or o[1] == 0]
            o = ch.pick(cands, "op")
            if o is None:
                break
            if o[0] == "copy":
                have1 = True
            seq.append(o)
        ch.observe("ops", tuple(seq))
        return sc_signal(ch, seq)

    for o in ops:
        if o[0] != "copy" and o[1] == 1:
            continue
        out.append(Unit("signal ops first=%s depth=%d" % ("-".join(map(str, o)), depth),
                        lambda ch, o=o: run_all(ch, o), bound=0, weight=20))
    beh = ["plain", "once", "late-once", "adds", "drops", "recall"]
    for n in (1, 2, 3):
        for b in itertools.combinations_with_replacement(beh, n):
            for calls in (1, 2):
                out.append(Unit("mutate %s calls=%d" % ("+".join(b), calls),
                                lambda ch, b=b, calls=calls: sc_mutate(ch, b, calls, True),
                                bound=2 + deep))

    def add(services, dynamic=(), exit="normal", mode="async", bound=1, **kw):
        name = "%s %s %s %s%s" % (
            mode, exit, "+".join("%s/%s" % s for s in services) or "none",
            ",".join("-".join(map(str, d)) for d in dynamic),
            " ".join("%s=%s" % i for i in kw.items()))
        out.append(Unit(name, lambda ch: scenario(
            ch, services, tuple(dynamic), exit, mode, hooks=True, **kw),
            bound=bound + 1 + deep, cap=15000, weight=len(services)))

    starts = ["ret", "slow", "sig", "sigslow", "sigret", "sigclean", "sigfail", "failslow"]
    stops = ["ok", "slow", "default", "raise"]
    for mode in ("async", "with"):
        for ex in ("normal", "raise"):
            add([], exit=ex, mode=mode)
            for a, b in itertools.product(starts, stops):
                add([(a, b)], exit=ex, mode=mode, bound=2)
            for (a, b), (p, q) in itertools.product(
                    itertools.combinations_with_replacement(starts[:5], 2),
                    itertools.combinations_with_replacement(stops, 2)):
                add([(a, p), (b, q)], exit=ex, mode=mode)
        for a, b in itertools.product(starts[:5], stops):
            add([("ret", "ok")], [("new", a, b)], mode=mode)
            add([("sig", "slow")], [("new", a, b), ("stop", 0)], mode=mode)
            add([("sig", "slow")], [("stop", 0), ("new", a, b), ("stop", 1)], mode=mode)
            add([(a, b), ("ret", "slow")], [("stop", 0)], mode=mode)
            add([(a, b)], [("restart", 0)], mode=mode)
            add([(a, b)], exit="interrupt", mode=mode, interrupts=1)
    return out
