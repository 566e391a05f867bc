"""C24: a worker pool admits only authenticated workers; close settles everything."""
import os
import shutil
import socket
import stat
import tempfile

import aiomisc.worker_pool as wp
from mc.core import Violation
from mc.run import Unit
from . import wp_model
from .wp_model import scenario

PROPERTY = "C24"
ASSUMPTIONS = [
    "worker processes, their supervisor, sockets and signals are a model; C22, C25 and C36 bind "
    "the other side of it to the real code",
]
STRANGERS = ("digest", "nodigest", "prefix", "longer", "hex", "otherdigest", "cookie", "unknown", "othertype", "badinit", "badinit-unknown", "tuple",
             "junk", "eof", "reset", "halfeof", "partial", "silent")


def sc_secrets(ch, n):
    """Every pool has its own secret and identities."""
    seen = []
    for i in range(2):
        wp_model.BOOTED = None
        scenario(ch, (), nworkers=n)
        seen.append(wp_model.BOOTED)
    (a, x), (b, y) = seen
    if len(a) < 16 or len(b) < 16 or a == b or set(x) & set(y) or len(set(a)) < 4:
        raise Violation("two pools share their secret or identities", "secret")


def sc_socket(ch, workers):
    """The real socket of the pool can be opened by its owner only."""
    if not hasattr(socket, "AF_UNIX"):
        return
    tmp = tempfile.mkdtemp(prefix="c24-")
    saved, tempfile.tempdir = tempfile.tempdir, tmp
    mask = os.umask(0)
    try:
        p = wp.WorkerPool(workers)
        if not isinstance(p.address, str):
            raise Violation("the pool listens on %r" % (p.address,), "address")
        st = os.stat(p.address)
        p.socket.close()
        if not stat.S_ISSOCK(st.st_mode) or stat.S_IMODE(st.st_mode) & 0o077:
            raise Violation("the socket of the pool has the mode %o" % st.st_mode, "mode")
    finally:
        os.umask(mask)
        tempfile.tempdir = saved
        shutil.rmtree(tmp)


def units(tier):
    q = tier == "quick"

    def u(name, kinds, bound=1, weight=1, **kw):
        return Unit(name, lambda ch: scenario(ch, kinds, **kw), bound, weight=weight)

    for s in STRANGERS:
        yield u("stranger %s" % s, ("ok", "exc"), 1 if q else 2, intruders=(s,), weight=2)
        yield u("stranger %s alone" % s, (), 1 if q else 2, intruders=(s,))
        yield u("stranger %s close" % s, ("ok",), 1 if q else 2, intruders=(s,), closes=1,
                weight=2)
        for r in ("badinit", "digest", "silent"):
            yield u("strangers %s %s" % (s, r), ("ok",), 1, intruders=(s, r), closes=1,
                    idle_cost=1, weight=2)
    for n in (1, 2):
        yield Unit("own secrets %d" % n, lambda ch, n=n: sc_secrets(ch, n), 0)
        yield Unit("own socket %d" % n, lambda ch, n=n: sc_socket(ch, n), 0)
        for sup in (True, False):
            yield u("close %d %s" % (n, sup), ("ok", "ok"), 2, closes=n, sup_dies=sup, late=1,
                    idle_cost=1 if q else 0, weight=3 * n)
        yield u("close %d on 2" % n, ("ok", "exc", "ok"), 2, closes=n, nworkers=2, weight=3 * n)
        yield u("close %d, dead supervisor" % n, ("ok",), 2, closes=n, sup_dead=True)
        for ov in (1, 2):
            yield u("close %d queue %d" % (n, ov), ("ok", "ok", "ok", "ok"), 2, closes=n,
                    overflow=ov, idle_cost=1, weight=3 * n)
    yield u("close cancelled", ("ok", "ok"), 2, closes=1, close_cancel=True, idle_cost=1, weight=4)
    yield u("close cancelled twice", ("ok",), 3 if not q else 2, closes=2, close_cancel=True,
            idle_cost=1, weight=4)
    yield u("close idle", (), 2, closes=2)
    yield u("close and cancel", ("ok", "ok"), 2, closes=1, cancels=(0, 1), idle_cost=1, weight=4)
    yield u("close and cancel queue", ("ok", "ok", "ok"), 2, closes=1, cancels=(0, 2), overflow=1,
            idle_cost=1, weight=4)
    for how in ("eof", "reset"):
        yield u("close and die %s" % how, ("ok", "ok"), 2, closes=1, deaths=(how,), idle_cost=1,
                weight=4)
    for kind in ("baddump", "badload", "exit", "cself"):
        yield u("close %s" % kind, (kind, "ok"), 1 if q else 2, closes=2)
    for n in range(4):
        for mode in ("eof", "open"):
            for ov in (0, 1):
                yield u("init %d %s q%d" % (n, mode, ov), ("ok",) * n, 1 if q else 2, init=mode,
                        overflow=ov, late=1)
                yield u("init %d %s q%d close" % (n, mode, ov), ("ok",) * n, 1 if q else 2,
                        init=mode, overflow=ov, closes=1, cancels=(0,) if n else (), idle_cost=1)
