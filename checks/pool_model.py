"""Shared harness of C12/C13: users on a PoolBase with scripted hooks."""
import asyncio

import aiomisc.pool as pool_mod
from aiomisc import PoolBase
from mc.core import Violation
from mc.vloop import Stuck, VLoop, run_loop

if hasattr(pool_mod, "random"):
    pool_mod.random = lambda: 0.0      # recycle deadline = recycle * (1 + 0)


class HookError(Exception):
    pass


class Inst:
    def __init__(self, n):
        self.n = n
        self.holder = None
        self.checked_by = None        # task whose check passed last
        self.destroy_calls = 0
        self.destroyed = False
        self.discarded = False        # a check refused it
        self.born = None
        self.limbo = False            # its check was cancelled: kept or dropped

    def __repr__(self):
        return "I%d" % self.n

    def __hash__(self):               # deterministic order in sets
        return self.n


class EqInst(Inst):
    """All of them are equal, like a connection identified by its address."""

    def __eq__(self, other):
        return isinstance(other, EqInst)

    def __hash__(self):
        return 7


class State:
    pass


def run_pool(ch, maxsize, users, rounds, faults, cancels, recycle=None, hold="gate",
             close="end", steps=("create",), which="both", equal=False, settle=False):
    """users tasks each acquire/hold/release `rounds` times.

    faults: hooks that may fail ('create', 'check', 'checkraise', 'destroy'),
            each failure costs one deviation.
    steps:  hooks which suspend ('create', 'check', 'destroy').
    """
    loop = VLoop(ch, idle_cost=1)
    S = State()
    S.insts = []
    S.creating = 0
    S.destroying = 0
    S.failed_users = []
    S.served = 0
    S.cancelled = set()
    S.closing = False
    S.create_errors = []
    S.over = None
    S.draining = False

    def fail(msg, key):
        if S.closing and key in ("zombie", "unchecked", "exclusive"):
            return        # the use of a closed pool is not specified
        ch.fail("%s (maxsize=%d users=%d rounds=%d faults=%r recycle=%r)" % (
            msg, maxsize, users, rounds, faults, recycle), key)

    def alive():
        return sum(1 for i in S.insts if not i.discarded and not i.destroy_calls
                   and not i.limbo) + S.creating

    async def suspend(name):
        if name in steps:
            f = loop.create_future()
            loop.act("%s%d" % (name, loop.steps), lambda: f.done() or f.set_result(None),
                     lambda: not f.done())
            await f

    def fault(name):
        if S.draining or name not in faults:
            return False
        return ch.choose((0, 1), name, ["ok", "fault"]) == 1

    class Pool(PoolBase):
        async def _create_instance(self):
            S.creating += 1
            ch.observe("create")
            if alive() > maxsize:
                fail("%d instances alive" % alive(), "limit")
            try:
                await suspend("create")
                if fault("create"):
                    e = HookError("create")
                    S.create_errors.append((asyncio.current_task(), e))
                    ch.observe("create-fails")
                    raise e
                i = (EqInst if equal else Inst)(len(S.insts))
                i.born = loop.time()
                S.insts.append(i)
                return i
            finally:
                S.creating -= 1

        async def _check_instance(self, instance):
            ch.observe("check", instance.n)
            if instance.destroy_calls or instance.discarded:
                fail("check of discarded instance %r" % instance, "zombie")
            if instance.holder is not None:
                fail("check of an instance in use", "exclusive")
            instance.checked_by = None
            instance.limbo = False
            done = False
            try:
                await suspend("check")
                done = True
            finally:
                if not done:
                    instance.limbo = True
                    ch.observe("check-cancelled", instance.n)
            if fault("checkraise"):
                instance.discarded = True
                ch.observe("check-raises", instance.n)
                raise HookError("check")
            if fault("check"):
                instance.discarded = True
                ch.observe("check-bad", instance.n)
                return False
            instance.checked_by = asyncio.current_task()
            return True

        async def _destroy_instance(self, instance):
            instance.destroy_calls += 1
            ch.observe("destroy", instance.n)
            if instance.destroy_calls > 1:
                fail("%r destroyed twice" % instance, "destroy-twice")
            if instance.holder is not None and not S.closing:
                fail("%r destroyed while in use" % instance, "destroy-used")
            S.destroying += 1
            try:
                await suspend("destroy")
            finally:
                S.destroying -= 1
            instance.destroyed = True
            if fault("destroy"):
                raise HookError("destroy")

    async def user(u, pool, n, gate=True):
        for _ in range(n):
            me = asyncio.current_task()
            try:
                async with pool.acquire() as inst:
                    if inst.destroy_calls or inst.discarded:
                        fail("user got discarded instance %r" % inst, "zombie")
                    if inst.checked_by is not me:
                        fail("user got %r without a passed check" % inst, "unchecked")
                    if inst.holder is not None:
                        fail("%r held by two users" % inst, "exclusive")
                    inst.holder = u
                    inst.checked_by = None
                    ch.observe("held", u, inst.n)
                    S.served += 1
                    try:
                        if gate:
                            if hold == "gate":
                                f = loop.create_future()
                                loop.act("release%s" % u, lambda: f.done() or f.set_result(None),
                                         lambda: not f.done())
                                await f
                            else:
                                await asyncio.sleep(hold[u % len(hold)])
                        else:
                            await asyncio.sleep(0)
                    finally:
                        inst.holder = None
                        ch.observe("released", u, inst.n)
                        if recycle and loop.time() - inst.born > recycle:
                            inst.discarded = True
            except HookError as e:
                if (me, e) not in S.create_errors:
                    fail("user %s got a foreign error %r" % (u, e), "foreign")
                S.create_errors.remove((me, e))
                S.failed_users.append(u)
                ch.observe("failed", u)
            except asyncio.CancelledError:
                ch.observe("cancelled", u)
                if u not in S.cancelled:
                    fail("user %s was cancelled spuriously" % u, "spurious")
                raise

    async def main():
        pool = Pool(maxsize=maxsize, recycle=recycle)
        tasks = [loop.create_task(user(u, pool, rounds)) for u in range(users)]
        left = [cancels]
        for u, t in enumerate(tasks):
            def cancel(u=u, t=t):
                left[0] -= 1
                S.cancelled.add(u)
                ch.observe("cancel", u)
                t.cancel()
            loop.act("cancel%d" % u, cancel, lambda t=t: left[0] > 0 and not t.done(), may=True)
        if close == "end":
            await asyncio.wait(tasks)
            for t in tasks:
                if not t.cancelled() and t.exception():
                    raise t.exception()
            left[0] = 0
            S.phase = "drain"
            # the full capacity must be available again
            S.draining = True
            held = []
            every = loop.create_future()

            async def grab():
                async with pool.acquire() as inst:
                    if inst.holder is not None or inst in held:
                        fail("%r held by two users" % inst, "exclusive")
                    if inst.destroy_calls or inst.discarded:
                        fail("user got discarded instance %r" % inst, "zombie")
                    held.append(inst)
                    if len(held) == maxsize:
                        n = sum(1 for i in S.insts if not i.discarded and not i.destroy_calls)
                        if n != maxsize or len(pool) != n:
                            fail("len(pool) is %d, %d alive, maxsize %d" % (
                                len(pool), n, maxsize), "len")
                        every.set_result(None)
                    await every
                    if recycle and loop.time() - inst.born > recycle:
                        inst.discarded = True
            await asyncio.gather(*[grab() for _ in range(maxsize)])
            await asyncio.sleep(0)
            S.draining = False
            if settle:
                S.phase = "settle"
                for _ in range(4):
                    await asyncio.sleep(1)
                    while S.destroying:
                        await asyncio.sleep(1)
                kept = [i for i in S.insts if i.discarded and not i.destroy_calls]
                if kept:
                    fail("%r are out of use but never destroyed" % kept, "not-destroyed")
        else:
            # close while users hold or wait
            ev = loop.create_future()
            loop.act("close", lambda: ev.set_result(None), idle_only=False)
            await ev
        S.phase = "close"
        S.closing = True
        S.existing = [i for i in S.insts if not i.destroyed]
        left[0] = 0
        ch.observe("close")
        await pool.close()
        ch.observe("closed")
        S.at_close = [i for i in S.insts if not i.destroyed]
        if close != "end":
            for t in tasks:
                S.cancelled.update(range(users))
                t.cancel()
            await asyncio.wait(tasks)
            S.late = True
        for _ in range(3):
            await asyncio.sleep(0)
        if close == "end":
            left_over = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
            if left_over:
                fail("close left tasks behind: %r" % left_over, "tasks")

    S.phase = "use"
    try:
        run_loop(loop, main())
    except Stuck as e:
        raise Violation("%s phase never ends: %s; capacity %d, alive %d, served %d, instances %r"
                        % (S.phase, e, maxsize, alive(), S.served,
                           [(i, i.holder, i.discarded, i.destroy_calls) for i in S.insts]),
                        "hang-" + S.phase)
    for i in S.insts:
        if i.destroy_calls != 1 and (close == "end" or i in S.existing or i.destroy_calls > 1):
            fail("%r destroyed %d times after close" % (i, i.destroy_calls), "destroy-count")
    if close == "end" and S.at_close:
        fail("%r not destroyed by close" % S.at_close, "destroy-missing")
    if close == "end" and S.create_errors:
        fail("creation error reached nobody", "lost-error")
    return (S.served, len(S.insts), len(S.failed_users), len(S.cancelled))
