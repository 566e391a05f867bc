"""C13: pool capacity and close."""
from checks import c12
from mc.run import Unit

PROPERTY = "C13"
ASSUMPTIONS = c12.ASSUMPTIONS


def units(tier):
    deep = tier == "thorough"
    rows = []
    for maxsize, users, rounds in ((1, 1, 2), (1, 2, 2), (1, 3, 1), (2, 3, 1), (2, 3, 2)):
        b = 3 if users * rounds < 3 or deep else 2
        for faults in (("create",), ("check", "checkraise"), ("destroy", "check")):
            rows.append(dict(maxsize=maxsize, users=users, rounds=rounds, faults=faults,
                             cancels=1, steps=(faults[0],), bound=b))
        rows.append(dict(maxsize=maxsize, users=users, rounds=rounds, faults=("create", "destroy"),
                         cancels=1, steps=("create", "destroy"), recycle=1,
                         hold=(1.3, 0.7, 0.2), bound=b))
        rows.append(dict(maxsize=maxsize, users=users, rounds=rounds, faults=("check", "destroy"),
                         cancels=0, steps=("destroy",), bound=b, settle=True))
        rows.append(dict(maxsize=maxsize, users=users, rounds=rounds, faults=("destroy",),
                         cancels=0, steps=("create",), bound=min(b, 2), settle=True, recycle=1,
                         hold=(1.3, 0.7)))
        if users > 1:
            rows.append(dict(maxsize=maxsize, users=users, rounds=1, faults=(), cancels=0,
                             steps=("destroy",), close="any", bound=2, equal=True))
        for steps in (("destroy",), ("check",), ("check", "destroy"), ("create", "check")):
            for recycle in (None, 1):
                if steps != ("destroy",) and (recycle or not deep) and users * rounds > 4:
                    continue
                rows.append(dict(maxsize=maxsize, users=users, rounds=rounds,
                                 faults=("destroy", "check") if "check" in steps else ("destroy",),
                                 cancels=0, steps=steps, close="any", bound=b, recycle=recycle,
                                 **({"hold": (1.3, 0.7, 0.2)} if recycle else {})))
    return c12.make([r for i, r in enumerate(rows) if r not in rows[:i]])
