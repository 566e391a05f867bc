"""C12: pool exclusivity, limit, health."""
from checks.pool_model import run_pool
from mc.run import Unit

PROPERTY = "C12"
ASSUMPTIONS = [
    "hooks raise Exception subclasses; users release what they acquired",
    "the pool is closed after its users are done",
    "recycle deadlines use the lower end of the random spread",
]


def table(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    rows = []
    for maxsize, users, rounds in ((1, 1, 2), (1, 2, 1), (1, 2, 2), (1, 3, 1), (2, 2, 2), (2, 3, 1),
                                   (2, 3, 2), (2, 4, 1)):
        heavy = users * rounds >= 4
        bb = b if not heavy else max(b - 1, 1) if not deep else 2
        for steps in (("create",), ("check",), ("create", "check", "destroy")):
            rows.append(dict(maxsize=maxsize, users=users, rounds=rounds,
                             faults=("create", "check", "checkraise", "destroy"), cancels=1,
                             steps=steps, bound=bb))
        rows.append(dict(maxsize=maxsize, users=users, rounds=rounds,
                         faults=(), cancels=2, steps=("create", "check"), bound=bb))
        rows.append(dict(maxsize=maxsize, users=users, rounds=rounds, faults=("check", "create"),
                         cancels=1, steps=("destroy",), recycle=1, hold=(0.4, 0.7, 1.3), bound=bb))
        rows.append(dict(maxsize=maxsize, users=users, rounds=rounds, faults=(),
                         cancels=1, steps=("create",), recycle=1, hold=(1.3, 0.7), bound=bb))
    for users, rounds in ((1, 2), (1, 3), (2, 2)):
        for steps in ((), ("create",), ("destroy",)):
            rows.append(dict(maxsize=1, users=users, rounds=rounds, faults=(), cancels=0,
                             steps=steps, recycle=1, hold=(1.3, 0.7), bound=2, equal=True))
    return rows


def make(rows):
    out = []
    for r in rows:
        r = dict(r)
        bound = r.pop("bound")

        def run(ch, r=r):
            return run_pool(ch, **r)
        name = "size=%d,users=%d,rounds=%d/faults=%s,cancels=%d/steps=%s/recycle=%s" % (
            r["maxsize"], r["users"], r["rounds"], "+".join(r["faults"]) or "-", r["cancels"],
            "+".join(r["steps"]), r.get("recycle"))
        if r.get("hold"):
            name += "/hold=%r" % (r["hold"],)
        if r.get("equal"):
            name += "/equal"
        if r.get("settle"):
            name += "/settle"
        if r.get("close"):
            name += "/close"
        out.append(Unit(name, run, bound, weight=(r["users"] * r["rounds"]) ** bound))
    return out


def units(tier):
    return make(table(tier))
