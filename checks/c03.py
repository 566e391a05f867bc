"""C03: retry/backoff against a reference machine under virtual time."""
import asyncio
import itertools

from aiomisc import asyncbackoff, asyncretry
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, VLoop, run_loop

PROPERTY = "C03"
ASSUMPTIONS = [
    "attempts do not swallow or convert a cancellation they receive",
    "no attempt outcome falls at exactly the same instant as a limit",
]
EPS = 1e-6


class Listed(Exception):
    pass


class Sub(Listed):
    pass


class Other(Exception):
    pass


class Unlisted(Exception):
    pass


class FalsyListed(Listed):
    def __bool__(self):
        return False


# name -> (duration, outcome)
ATT = {
    "ok0": (0.0, "ok"),
    "L0": (0.0, Listed),
    "U0": (0.0, Unlisted),
    "S": (0.41, Sub),
    "ok": (0.41, "ok"),
    "T0": (0.0, asyncio.TimeoutError),
    "H": (None, None),
    "O0": (0.0, Other),
    "F0": (0.0, FalsyListed),
    "U": (0.41, Unlisted),
}


def reference(seq, cfg):
    """-> (starts, end time, outcome) ; outcome: ('ok', n) | ('exc', n) | ('timeout',)"""
    listed = (Listed, Other) if cfg["two"] else (Listed,)
    listed += (asyncio.TimeoutError,)
    D, A, pause = cfg["deadline"], cfg["attempt"], cfg["pause"]
    t, n, last, starts = 0.0, 0, None, []

    def cut():
        return (starts, D, ("exc", last) if last is not None else ("timeout",))

    while True:
        if D is not None and t > D:
            return cut()
        starts.append(t)
        if n > 12:
            return (starts, None, ("hang",))
        dur, res = ATT[seq(n)]
        n += 1
        if A is not None and (dur is None or dur > A):
            dur, res = A, "cutoff"
        if D is not None and (dur is None or t + dur > D):
            return cut()
        if dur is None:
            return (starts, None, ("hang",))
        t += dur
        if res == "ok":
            return (starts, t, ("ok", n - 1))
        last = n - 1
        exc = asyncio.TimeoutError if res == "cutoff" else res
        if not issubclass(exc, listed):
            return (starts, t, ("exc", last))
        if cfg["tries"] is not None and n >= cfg["tries"]:
            return (starts, t, ("exc", last))
        if cfg["giveup"] == "always" or (cfg["giveup"] == "second" and n >= 2) or (
                cfg["giveup"] == "sub" and exc is Sub):
            return (starts, t, ("exc", last))
        t += pause
        # a deadline during the pause
        if D is not None and t > D:
            return cut()


def scenario(ch, cfg, alphabet, depth, cancel=False):
    loop = VLoop(ch)
    t0 = loop.time()
    chosen, starts, raised = [], [], {}
    state = {"running": None, "cut": [], "giveups": [], "cancel_at": None, "n_at_cancel": None,
             "running_at_cancel": None}
    args = (object(), 2)
    kwargs = {"kw": object()}

    def pick_att(n):
        if n < depth:
            names = alphabet if n < depth - 1 or len(alphabet) < 5 else alphabet[:5]
            return ch.pick(names, "attempt")
        return "ok0"

    async def func(*a, **kw):
        n = len(starts)
        starts.append(loop.time() - t0)
        if a != args or kw != kwargs or kw["kw"] is not kwargs["kw"]:
            raise Violation("attempt %d called with %r %r" % (n, a, kw), "args")
        if n > depth + 2:
            raise Violation("attempts continue after a success", "success")
        if state["running"] is not None:
            ch.fail("attempt %d started while attempt %d is running" % (n, state["running"]),
                    "overlap")
        name = pick_att(n)
        chosen.append(name)
        ch.observe("attempt", n, name, round(loop.time() - t0, 6))
        dur, res = ATT[name]
        state["running"] = n
        try:
            if dur is None:
                await loop.create_future()
            elif dur:
                await asyncio.sleep(dur)
        except asyncio.CancelledError:
            state["cut"].append((n, loop.time() - t0))
            raise
        finally:
            state["running"] = None
        if res == "ok":
            return ("value", n)
        e = res("attempt", n)
        raised[n] = e
        raise e

    def giveup(e):
        state["giveups"].append(e)
        if cfg["giveup"] == "always":
            return True
        if cfg["giveup"] == "sub":
            return type(e) is Sub
        return len(starts) >= 2

    exceptions = (Listed, Other) if cfg["two"] else (Listed,)
    g = giveup if cfg["giveup"] else None
    if cfg["retry"]:
        wrapped = asyncretry(cfg["tries"], exceptions=exceptions, pause=cfg["pause"], giveup=g)(func)
    elif cfg["kwexc"]:
        wrapped = asyncbackoff(cfg["attempt"], cfg["deadline"], cfg["pause"],
                               exceptions=exceptions, max_tries=cfg["tries"], giveup=g)(func)
    else:
        wrapped = asyncbackoff(cfg["attempt"], cfg["deadline"], cfg["pause"], *exceptions,
                               max_tries=cfg["tries"], giveup=g)(func)
    out = {}

    async def call():
        try:
            r = await wrapped(*args, **kwargs)
        except asyncio.CancelledError:
            out["r"] = ("cancelled",)
        except Violation:
            raise
        except BaseException as e:
            out["r"] = ("exc", e)
        else:
            out["r"] = ("ok", r)
        out["t"] = loop.time() - t0
        ch.observe("end", out["r"][0], round(out["t"], 6))

    async def main():
        task = loop.create_task(call())
        if cancel:
            def do_cancel():
                state["cancel_at"] = loop.time() - t0
                state["n_at_cancel"] = len(starts)
                state["running_at_cancel"] = state["running"]
                ch.observe("cancel")
                task.cancel()
            loop.act("cancel", do_cancel, lambda: not task.done(), may=True)
        await asyncio.wait([task])
        if task.cancelled():
            out.update(r=("cancelled",), t=loop.time() - t0)
        else:
            task.result()
        if state["running"] is not None:
            raise Violation("attempt %r is still running after the call ended" % state["running"],
                            "leak")

    hung = None
    try:
        run_loop(loop, main())
    except Stuck as e:
        hung = e

    ref_starts, ref_t, ref_out = reference(
        lambda n: chosen[n] if n < len(chosen) else "H", cfg)

    def bad(msg, key):
        raise Violation("%s: config %r, attempts %r at %r, outcome %r at %r; expected attempts "
                        "at %r, outcome %r at %r" % (
                            msg, cfg, chosen, starts, out.get("r"), out.get("t"),
                            ref_starts, ref_out, ref_t), key)

    if state["cancel_at"] is not None:
        if hung:
            bad("cancelled call hangs", "cancel-hang")
        if out["r"] != ("cancelled",):
            bad("cancellation at %r did not propagate" % state["cancel_at"], "cancel-lost")
        if len(starts) > state["n_at_cancel"]:
            bad("attempt started after cancellation", "cancel-retry")
        if state["running_at_cancel"] is not None and not any(
                n == state["running_at_cancel"] for n, _ in state["cut"]):
            bad("attempt in progress was not cancelled", "cancel-running")
        return ("cancelled", len(starts))
    if hung:
        if ref_out == ("hang",):
            return ("hang", tuple(chosen))
        bad("call hangs", "hang")
    if len(starts) != len(ref_starts):
        bad("wrong number of attempts", "attempts")
    if any(abs(a - b) > EPS for a, b in zip(starts, ref_starts)):
        bad("wrong attempt times", "times")
    if ref_t is None or abs(out["t"] - ref_t) > EPS:
        bad("ended at the wrong time", "end")
    r = out["r"]
    if ref_out[0] == "ok":
        if r != ("ok", ("value", ref_out[1])):
            bad("wrong result", "result")
    elif ref_out[0] == "timeout":
        if r[0] != "exc" or not isinstance(r[1], asyncio.TimeoutError):
            bad("wrong exception", "exc")
    else:
        n = ref_out[1]
        if r[0] != "exc":
            bad("failure not reported", "exc")
        if n in raised:
            if r[1] is not raised[n]:
                bad("not the last exception", "exc")
        elif not isinstance(r[1], asyncio.TimeoutError):
            bad("expected the attempt's timeout", "exc")
    return (tuple(chosen), r[0])


def sc_two(ch, cfg, alphabet, depth, offset):
    """Two calls of one decorated function in progress at the same time."""
    loop = VLoop(ch)
    t0 = loop.time()
    n_calls = 2
    begin = [0.0, offset]
    chosen = [[], []]
    starts = [[], []]
    raised = [{}, {}]
    out = {}

    async def func(i, *, key):
        if key is not chosen[i]:
            ch.fail("wrong arguments", "args")
        n = len(starts[i])
        starts[i].append(loop.time() - t0 - begin[i])
        if n > depth + 2:
            raise Violation("attempts continue after a success", "success")
        name = ch.pick(alphabet, "attempt") if n < depth else "ok0"
        chosen[i].append(name)
        dur, res = ATT[name]
        if dur is None:
            await loop.create_future()
        elif dur:
            await asyncio.sleep(dur)
        if res == "ok":
            return ("value", i, n)
        raised[i][n] = e = res("attempt", i, n)
        raise e

    wrapped = asyncbackoff(cfg["attempt"], cfg["deadline"], cfg["pause"], Listed,
                           max_tries=cfg["tries"])(func)

    async def call(i):
        await asyncio.sleep(begin[i])
        try:
            out[i] = ("ok", await wrapped(i, key=chosen[i]), loop.time() - t0 - begin[i])
        except Violation:
            raise
        except BaseException as e:
            out[i] = ("exc", e, loop.time() - t0 - begin[i])
        ch.observe("end", i, out[i][0])

    async def main():
        await asyncio.gather(*[call(i) for i in range(n_calls)])

    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation("concurrent calls hang: %s" % e, "hang")
    for i in range(n_calls):
        rs, rt, ro = reference(lambda n: chosen[i][n] if n < len(chosen[i]) else "H", cfg)
        kind, val, t = out[i]
        ok = len(rs) == len(starts[i]) and all(abs(a - b) < EPS for a, b in zip(rs, starts[i])) \
            and rt is not None and abs(t - rt) < EPS
        if ok and ro[0] == "ok":
            ok = (kind, val) == ("ok", ("value", i, ro[1]))
        elif ok and ro[0] == "timeout":
            ok = kind == "exc" and isinstance(val, asyncio.TimeoutError)
        elif ok:
            ok = kind == "exc" and (val is raised[i][ro[1]] if ro[1] in raised[i]
                                    else isinstance(val, asyncio.TimeoutError))
        if not ok:
            raise Violation("call %d of two concurrent ones: config %r, attempts %r at %r, outcome "
                            "%r; expected attempts at %r, outcome %r at %r" % (
                                i, cfg, chosen[i], starts[i], out[i], rs, ro, rt), "concurrent")
    return (tuple(chosen[0]), tuple(chosen[1]))


def configs():
    for tries, D, A, pause, g in itertools.product(
            (None, 1, 2, 3), (None, 0.77, 1.73), (None, 0.25), (0, 0.3),
            (None, "second", "always", "sub")):
        yield dict(tries=tries, deadline=D, attempt=A, pause=pause, giveup=g, retry=False,
                   kwexc=False, two=False)
    for A, D in ((0.55, None), (0.55, 0.77), (0.55, 1.73)):
        for tries in (None, 2, 3):
            yield dict(tries=tries, deadline=D, attempt=A, pause=0.13, giveup=None, retry=False,
                       kwexc=True, two=True)
    for tries, pause, g, two in itertools.product((None, 1, 2, 3), (0, 0.3),
                                                  (None, "second", "always"), (False, True)):
        yield dict(tries=tries, deadline=None, attempt=None, pause=pause, giveup=g, retry=True,
                   kwexc=False, two=two)


def units(tier):
    deep = tier == "thorough"
    out = []
    cancel_cfgs = 0
    for n, cfg in enumerate(configs()):
        bounded = cfg["deadline"] is not None or cfg["attempt"] is not None
        alpha = ["ok0", "L0", "S", "U0", "T0", "ok"]
        if cfg["two"]:
            alpha.insert(2, "O0")
        if deep:
            alpha += ["F0", "U"]
        if bounded:
            alpha.insert(1, "H")
        depth = 5 if deep else 4
        name = "%03d/tries=%s,D=%s,A=%s,p=%s,g=%s%s" % (
            n, cfg["tries"], cfg["deadline"], cfg["attempt"], cfg["pause"], cfg["giveup"],
            ",retry" if cfg["retry"] else "")

        def run(ch, cfg=cfg, alpha=alpha, depth=depth):
            return scenario(ch, cfg, alpha, depth)
        out.append(Unit(name, run, 0, weight=2))
        if cfg["giveup"] in (None, "second") and cfg["tries"] in (None, 3):
            calpha = ["ok0", "L0", "S", "H"]

            def crun(ch, cfg=cfg, calpha=calpha, depth=depth):
                return scenario(ch, cfg, calpha, depth, cancel=True)
            out.append(Unit("cancel/" + name, crun, 1, weight=3))

    for tries, D, A, g in itertools.product((None, 2, 3), (None, 1.73), (None, 0.25), (None,)):
        for offset in (0, 0.2):
            cfg = dict(tries=tries, deadline=D, attempt=A, pause=0.3, giveup=g, two=False)

            def two(ch, cfg=cfg, offset=offset, lim=bool(D or A)):
                return sc_two(ch, cfg, ["ok0", "L0", "S", "U"] + ["H"] * lim,
                              3 if deep else 2, offset)
            out.append(Unit("two/tries=%s,D=%s,A=%s,g=%s/%s" % (tries, D, A, g, offset), two, 0,
                            weight=2))

    def falsy(ch):
        cfg = dict(tries=ch.pick([None, 2, 3], "tries"), deadline=ch.pick([None, 0.77], "d"),
                   attempt=None, pause=ch.pick([0, 0.3], "p"), giveup=None, retry=False,
                   kwexc=False, two=False)
        return scenario(ch, cfg, ["ok0", "F0", "S"] + (["H"] if cfg["deadline"] else []), 3)
    out.append(Unit("falsy-exceptions", falsy, 0))
    return out
