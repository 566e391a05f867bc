"""Deviation bounded, stateless, exhaustive exploration of choice trees.

A harness is a function ``run(ch)`` which executes the real code once and asks
``ch.choose(...)`` at every point where the environment/scheduler could decide.
Option 0 is the default; every other option carries a cost (0: a free
environment choice, always enumerated; 1: a deviation/preemption).  The
explorer executes every choice sequence whose total cost is <= bound, in order
of increasing cost.
"""
import gc
import os
import signal
import sys
import threading
import time
import traceback


class Violation(Exception):
    """The property is broken in this execution."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key or message


class Divergence(Exception):
    """Replaying a prefix did not meet the recorded choice points."""


class Livelock(BaseException):
    pass


class Chooser:
    __slots__ = ("prefix", "expect", "choices", "costs", "labels", "h",
                 "log", "states", "trans", "want_labels", "failures")

    def __init__(self, prefix=(), expect=None, states=None, trans=None,
                 want_labels=False):
        self.prefix = prefix
        self.expect = expect          # numbers of options seen on the prefix
        self.choices = []
        self.costs = []               # tuple of option costs per point
        self.labels = [] if want_labels else None
        self.want_labels = want_labels
        self.h = 0
        self.log = []
        self.failures = []
        self.states = states
        self.trans = trans

    def choose(self, costs, label=None, names=None):
        """costs: tuple, costs[0] == 0.  Returns the index of the option."""
        n = len(costs)
        if n < 2:
            return 0
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n or (self.expect is not None and i < len(self.expect)
                          and len(self.expect[i]) != n):
                raise Divergence(
                    "point %d: %d options, choice %d (%r)" % (i, n, c, label))
        else:
            c = 0
        self.choices.append(c)
        self.costs.append(costs)
        if self.states is not None:
            self.states.add(self.h)
            self.trans.add((self.h, c if names is None else names[c]))
        if self.want_labels:
            self.labels.append((label, names[c] if names else c, n))
        return c

    def pick(self, seq, label=None, cost=0):
        """Free (or costed) choice of one element of a sequence."""
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.choose((0,) + (cost,) * (len(seq) - 1), label)]

    def fail(self, message, key=None):
        """Record a violation noticed where raising would be swallowed."""
        self.failures.append(Violation(message, key))

    def observe(self, *event):
        self.log.append(event)
        self.h = hash((self.h, event))


class Execution:
    __slots__ = ("choices", "costs", "outcome", "violation", "log", "labels")


def _freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(_freeze(i) for i in x)
    if isinstance(x, dict):
        return tuple(sorted((_freeze(k), _freeze(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(repr, x)))
    if isinstance(x, (int, float, str, bytes, bool, type(None))):
        return x
    return repr(x)


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))


def _unexpected(e):
    """A violation if the exception which ended the harness comes from the code under
    test (None: it comes from the harness itself)."""
    if type(e).__name__ == "Stuck":
        return Violation("stuck: %s" % e, "stuck")
    where = None
    for frame, line in traceback.walk_tb(e.__traceback__):
        name = os.path.abspath(frame.f_code.co_filename)
        if name.startswith(VERIF + os.sep):
            where = None
        elif name.startswith(REPO + os.sep):
            where = "%s:%d" % (name[len(REPO) + 1:], line)
    if where is None:
        return None
    return Violation("unexpected %s at %s: %s" % (type(e).__name__, where, e), "unexpected")


HANG = float(os.environ.get("VERIF_HANG", 100))     # CPU seconds of one execution
_running = [None]


class Hang(KeyboardInterrupt):
    pass


def _on_hang(signum, frame):
    ch = _running[0]
    if ch is not None:
        ch.fail("the execution does not end: %d s of computing" % HANG, "hang")
        raise Hang


def _watch(ch):
    """Code under test which loops for ever must not block the exploration."""
    _running[0] = ch
    if threading.current_thread() is threading.main_thread():
        if signal.getsignal(signal.SIGVTALRM) is not _on_hang:
            signal.signal(signal.SIGVTALRM, _on_hang)
        signal.setitimer(signal.ITIMER_VIRTUAL, HANG if ch is not None else 0, 2)


def execute(run, prefix=(), expect=None, states=None, trans=None,
            want_labels=False):
    ch = Chooser(prefix, expect, states, trans, want_labels)
    x = Execution()
    x.violation = None
    x.outcome = None
    _watch(ch)
    try:
        x.outcome = run(ch)
    except Violation as e:
        x.violation = e
    except (Divergence, MemoryError):
        raise
    except BaseException as e:
        x.violation = _unexpected(e)
        if x.violation is None and not ch.failures:
            raise
    finally:
        _watch(None)
    if ch.failures:
        x.violation = ch.failures[0]
    if len(ch.choices) < len(prefix):
        raise Divergence("execution ended after %d choices, prefix has %d" % (
            len(ch.choices), len(prefix)))
    x.choices = tuple(ch.choices)
    x.costs = ch.costs
    x.log = ch.log
    x.labels = ch.labels
    if states is not None:
        states.add(ch.h)
    return x


class Result:
    def __init__(self, name):
        self.name = name
        self.executions = 0
        self.points = 0
        self.states = 0
        self.transitions = 0
        self.outcomes = 0
        self.bound_completed = -1
        self.bound = 0
        self.capped = None
        self.replayed = 0
        self.violations = []     # (key, message, choices, labels, log)
        self.known = {}          # key -> message
        self.sample = None
        self.error = None
        self.wall = 0.0
        self.max_points = 0


def explore(name, run, bound=1, cap=None, deadline=None, known=(),
            stop_on_violation=True):
    """Enumerate all choice sequences of cost <= bound."""
    res = Result(name)
    res.bound = bound
    t0 = time.monotonic()
    states, trans, outcomes = set(), set(), set()
    buckets = [[] for _ in range(bound + 1)]
    buckets[0].append(((), 0, None, None))
    gc_counter = 0
    gc.collect()
    gc.freeze()
    gc.disable()
    try:
        for cost in range(bound + 1):
            stack = buckets[cost]
            while stack:
                if cap is not None and res.executions >= cap:
                    res.capped = "executions cap %d" % cap
                    break
                if deadline is not None and time.monotonic() > deadline:
                    res.capped = "time cap"
                    break
                parent, i, alt, expect = stack.pop()
                prefix = parent[:i] + (alt,) if alt is not None else ()
                x = execute(run, prefix, expect, states, trans)
                res.executions += 1
                res.points += len(x.choices)
                if len(x.choices) > res.max_points:
                    res.max_points = len(x.choices)
                gc_counter += len(x.choices) + 20
                if gc_counter > 60000:
                    gc_counter = 0
                    gc.collect()
                if res.executions == 1:
                    # replay the first schedule: same points, same observation
                    y = execute(run, x.choices, x.costs)
                    res.replayed += 1
                    if (y.choices, y.costs, _freeze(y.log), _freeze(y.outcome)) != (
                            x.choices, x.costs, _freeze(x.log), _freeze(x.outcome)):
                        raise Divergence(
                            "replay of the default schedule differs: %r / %r"
                            % (x.log, y.log))
                    res.sample = {
                        "harness": name, "choices": list(x.choices)[:60],
                        "log": [list(map(str, e)) for e in x.log][:40],
                        "outcome": repr(x.outcome)[:300],
                    }
                if x.violation is not None:
                    key = x.violation.key
                    # must reproduce before it is believed
                    ok = None
                    for _ in range(3):
                        y = execute(run, x.choices, None, want_labels=True)
                        res.replayed += 1
                        if y.violation is not None:
                            ok = y
                            break
                    if ok is None:
                        raise Divergence(
                            "violation %r did not reproduce" % key)
                    if key in known:
                        res.known.setdefault(key, x.violation.message)
                    else:
                        res.violations.append((
                            key, ok.violation.message, list(x.choices),
                            ok.labels, [list(map(str, e)) for e in ok.log]))
                        if stop_on_violation:
                            return res
                else:
                    outcomes.add(hash((_freeze(x.outcome), _freeze(x.log))))
                # expand
                for j in range(len(prefix), len(x.choices)):
                    cs = x.costs[j]
                    for a in range(1, len(cs)):
                        c = cost + cs[a]
                        if c <= bound:
                            buckets[c].append((x.choices, j, a, x.costs))
            if res.capped:
                break
            res.bound_completed = cost
    except Divergence as e:
        res.error = "Divergence in %s: %s" % (name, e)
    except Exception:
        res.error = "Error in %s: %s" % (name, traceback.format_exc())
    finally:
        gc.enable()
        res.states = len(states)
        res.transitions = len(trans)
        res.outcomes = len(outcomes)
        res.wall = time.monotonic() - t0
    return res
