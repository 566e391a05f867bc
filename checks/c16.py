"""C16: shared context: values reach every reader, readers are independent."""
import asyncio
import itertools

from aiomisc import get_context
from aiomisc.context import Context
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, leftover, run_loop

PROPERTY = "C16"
ASSUMPTIONS = [
    "a set is applied by the loop in the order of the set calls (asyncio's FIFO of call_soon_threadsafe)",
    "sets from another thread are explored at the granularity of loop callbacks; what they hand to the loop without waking it stays unseen until something else wakes the loop",
]


CANCELLED, TIMEOUT, PENDING = "cancelled", "timeout", "pending"


class Val:
    def __init__(self, n, falsy=False):
        self.n = n
        self.falsy = falsy

    def __bool__(self):
        return not self.falsy

    def __eq__(self, o):
        return True      # identity is what counts

    def __hash__(self):
        return self.n

    def __repr__(self):
        return "V%d" % self.n


def reader_body(kind, ctx, key, loop):
    async def await_it():
        return await ctx[key]

    async def wait_for():
        return await asyncio.wait_for(ctx[key], 2)

    async def twice():
        f = ctx[key]
        a = await f
        b = await f
        if a is not b:
            raise Violation("awaiting the same read twice gave two values")
        return a

    async def late():
        await asyncio.sleep(1)
        return await ctx[key]

    async def gather():
        a, b = await asyncio.gather(ctx[key], ctx[key])
        if a is not b:
            raise Violation("two simultaneous reads gave two values")
        return a

    async def wait_timeout():
        f = asyncio.ensure_future(ctx[key])
        await asyncio.wait([f], timeout=2)
        if not f.done():
            f.cancel()
            raise asyncio.TimeoutError
        return f.result()

    return {"await": await_it, "wait_for": wait_for, "twice": twice, "late": late,
            "gather": gather, "wait": wait_timeout}[kind]


def scenario(ch, readers, sets, cancels, sequential):
    """readers: [(kind, key, when)], when: 'start' | 'act'; sets: [(key, when)]"""
    loop = VLoop(ch)
    t0 = loop.time()
    ctx = Context(loop)
    applied = {}        # key -> [values]
    issued = {}
    recs = []

    def do_set(key, i):
        # the second value set is None, the other values are true and false in turn
        v = None if i == 1 else Val(i, falsy=(i % 4 == 0))
        issued.setdefault(key, []).append(v)
        ctx[key] = v

        def mark():
            applied.setdefault(key, []).append(v)
            ch.observe("applied", key, i)
        loop.call_soon_threadsafe(mark)

    def make_reader(i, kind, key):
        rec = {"i": i, "kind": kind, "key": key, "task": None, "seen": None, "cancel": False,
               "t": None, "out": PENDING, "reads": []}
        recs.append(rec)

        class Probe:
            def __getitem__(self, k):
                rec["reads"].append((len(applied.get(k, ())), loop.time()))
                return ctx[k]
        body = reader_body(kind, Probe(), key, loop)

        async def run():
            rec["t"] = loop.time() - t0
            try:
                r = await body()
            except asyncio.CancelledError:
                rec["out"] = CANCELLED
                raise
            except asyncio.TimeoutError:
                rec["out"] = TIMEOUT
                rec["end"] = loop.time()
            else:
                rec["out"] = r
                rec["end"] = loop.time()
            ch.observe("reader", i, repr(rec["out"]), loop.time() - t0)

        def start():
            rec["task"] = loop.create_task(run())
        return rec, start

    async def main():
        if get_context() is not ctx or get_context(loop) is not ctx:
            raise Violation("get_context returns something else")
        pend = []
        for i, (kind, key, when) in enumerate(readers):
            rec, start = make_reader(i, kind, key)
            if when == "start":
                start()
            else:
                loop.act("read%d" % i, start, enabled=lambda: loop.time() - t0 < 4.5)
            if i in cancels:
                def cancel(rec=rec):
                    rec["cancel"] = True
                    rec["task"].cancel()
                loop.act("cancel%d" % i, cancel, may=True,
                         enabled=lambda rec=rec: rec["task"] is not None and not rec["task"].done())
        done_sets = []
        for i, (key, when) in enumerate(sets):
            def fire(key=key, i=i):
                done_sets.append(i)
                do_set(key, i)
            if when == "start":
                fire()
            elif isinstance(when, (int, float)):
                loop.call_later(when, fire)
            else:
                loop.act("set%d" % i, fire,
                         enabled=(lambda i=i: loop.time() - t0 < 4.5 and
                                  (not sequential or len(done_sets) == i)))
        # all actions have fired by 4.5, all timeouts by 8
        await asyncio.sleep(8)
        for r in recs:
            key = r["key"]
            mine = applied.get(key, [])
            out = r["out"]
            if r["task"] is None:
                continue
            if r["task"].done() and not r["task"].cancelled() and r["task"].exception():
                e = r["task"].exception()
                if isinstance(e, Violation):
                    raise e
                raise Violation("reader %r ended with %r" % (r["i"], e), "reader-error")
            if out is PENDING:
                if r["task"].cancelled():
                    continue         # cancelled before its first step
                if issued.get(key):
                    raise Violation("reader %d waits for ever although %s was set" % (
                        r["i"], key), "hang")
                r["task"].cancel()
                continue
            if out is CANCELLED:
                if not r["cancel"]:
                    raise Violation("reader %d was cancelled by someone else" % r["i"],
                                    "foreign-cancel")
                continue
            if out is TIMEOUT:
                if r["end"] - r["reads"][0][1] < 2 - 1e-6:
                    raise Violation("reader timed out early", "early-timeout")
                # nothing may have been readable before
                if r["reads"][0][0] > 0:
                    raise Violation("reader timed out although a value was there", "timeout-set")
                continue
            n = r["reads"][0][0]
            want = mine[n - 1] if n else mine[0]
            if out is not want:
                raise Violation("reader %d of %s read %r, expected %r (applied %r, %d before)" % (
                    r["i"], key, out, want, mine, n), "wrong-value")
        ctx.close()
        try:
            c = get_context(loop)
        except Exception:
            pass
        else:
            raise Violation("closed context is still returned: %r" % c, "closed")
        return tuple((r["i"], repr(r["out"])) for r in recs)

    try:
        return run_loop(loop, main())
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")
    finally:
        Context._EVENT_OBJECTS.pop(loop, None)


def sc_two_loops(ch, order):
    a, b = VLoop(ch), VLoop(ch)
    out = []
    ca, cb = Context(a), Context(b)
    try:
        if get_context(a) is not ca or get_context(b) is not cb:
            raise Violation("contexts of two loops are mixed up")

        async def rd(loop, key):
            if get_context() is not (ca if loop is a else cb):
                raise Violation("running loop gets another loop's context")
            return await get_context()[key]

        async def st(loop, key, v):
            get_context()[key] = v

        async def probe(loop, key):
            try:
                return await asyncio.wait_for(get_context()[key], 1)
            except asyncio.TimeoutError:
                return None
        va, vb = Val(1), Val(2)
        for o in order:
            if o == "sa":
                a.run_until_complete(st(a, "k", va))
                a.run_until_complete(asyncio.sleep(0))
            elif o == "sb":
                b.run_until_complete(st(b, "k", vb))
                b.run_until_complete(asyncio.sleep(0))
            elif o == "ra":
                r = a.run_until_complete(probe(a, "k"))
                if r is not (va if "sa" in out else None):
                    raise Violation("loop a read %r" % r)
            elif o == "rb":
                r = b.run_until_complete(probe(b, "k"))
                if r is not (vb if "sb" in out else None):
                    raise Violation("loop b read %r" % r)
            elif o == "ca":
                ca.close()
                if get_context(b) is not cb:
                    raise Violation("closing one context closed another")
                try:
                    get_context(a)
                except Exception:
                    break
                raise Violation("closed context is returned")
            out.append(o)
        return tuple(out)
    finally:
        for l in (a, b):
            l._ready.clear()
            l._scheduled.clear()
            l.close()
            Context._EVENT_OBJECTS.pop(l, None)
        try:
            get_context(a)
        except Exception:
            pass
        else:
            raise Violation("context of a closed loop is returned")


def sc_foreign(ch, nread, nset, late):
    """Only another thread's set can wake the loop."""
    loop = VLoop(ch)
    ctx = Context(loop)
    vals = [Val(i) for i in range(nset)]

    async def main():
        async def read():
            return await ctx["k"]
        for i, v in enumerate(vals):
            def fire(v=v):
                ctx["k"] = v
            loop.act("set%d" % i, fire, foreign=True, urgent=late,
                     enabled=lambda i=i: i == 0 or not any(
                         a.name == "set%d" % (i - 1) for a in loop.actions))
        tasks = [loop.create_task(read()) for i in range(nread)]
        out = [await t for t in tasks]
        if not all(o is vals[0] for o in out):
            raise Violation("readers got %r" % (out,), "foreign-value")
        if late:
            while any(a.name.startswith("set") for a in loop.actions):
                await asyncio.sleep(1)
            await asyncio.sleep(1)
            v = await ctx["k"]
            if v is not vals[-1]:
                raise Violation("a late reader got %r" % v, "foreign-late")
        return repr(out)

    try:
        return run_loop(loop, main())
    except Stuck as e:
        raise Violation("a set from another thread does not reach the reader: %s" % e, "foreign")
    finally:
        Context._EVENT_OBJECTS.pop(loop, None)


def units(tier):
    deep = tier == "thorough"
    kinds = ["await", "wait_for", "twice", "late", "gather", "wait"]
    out = []

    def add(readers, sets, cancels, sequential=True, bound=1, w=1):
        name = "r=%s s=%s c=%s%s" % (
            ",".join("%s:%s:%s" % r for r in readers), ",".join("%s:%s" % s for s in sets),
            "".join(map(str, cancels)), "" if sequential else " any-order")
        out.append(Unit(name, lambda ch: scenario(ch, readers, sets, cancels, sequential),
                        bound=bound, weight=w, cap=200000))

    bound = 2 if deep else 1
    for k1, k2 in itertools.product(kinds, kinds):
        for nset in (1, 2) if not deep else (0, 1, 2, 3):
            for sets in ([("a", "act")] * nset,) + (([("a", "start")] + [("a", 3)] * (nset - 1),) if nset else ()):
                add([(k1, "a", "start"), (k2, "a", "act")], sets, (0,), bound=bound)
    for k1, k2 in itertools.product(kinds, kinds):
        add([(k1, "a", "start"), (k2, "a", "start")], [("a", "act"), ("a", "act")], (0, 1), bound=bound)
        add([(k1, "a", "start"), (k2, "b", "start")], [("a", "act"), ("b", "act")], (0,),
            sequential=False, bound=bound)
    for k in kinds:
        add([(k, "a", "start"), ("await", "a", "start"), ("await", "a", "act")],
            [("a", "act"), ("a", "act")], (0, 1), bound=2 if deep else 1, w=5)
        add([(k, "a", "start"), ("wait_for", "a", "act"), ("late", "b", "start")],
            [("a", 3), ("b", "act"), ("a", "act")], (0, 2), bound=2 if deep else 1,
            sequential=False, w=5)
        # the timed-out reader comes first, the set only after its timeout
        add([(k, "a", "start"), ("wait_for", "a", "start"), ("await", "a", "act")],
            [("a", 3), ("a", 4)], (0,), bound=bound)
    for n, m, late in itertools.product((1, 2, 3), (1, 2, 3), (False, True)):
        out.append(Unit("foreign readers=%d sets=%d late=%s" % (n, m, late),
                        lambda ch, n=n, m=m, late=late: sc_foreign(ch, n, m, late), bound=2 + deep))
    ops = ["sa", "sb", "ra", "rb", "ca"]
    for n in range(1, 6 if deep else 5):
        for order in itertools.product(ops, repeat=n):
            if "ca" in order[:-1]:
                continue
            if n > 3 and not (order.count("sa") and order.count("rb") or order.count("ca")):
                continue
            out.append(Unit("loops " + "-".join(order), lambda ch, order=order: sc_two_loops(ch, order)))
    return out
