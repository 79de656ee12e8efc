"""The simulated world of one run: clock, randomness, event loop and history."""

from __future__ import annotations

import asyncio
import asyncio.base_events
import asyncio.events
import gc
import hashlib
import heapq
import json
import random
import re

from . import boot

WALL0 = 1_767_225_600.0 + 86400 * 41 + 36000  # 2026-02-11 10:00:00 UTC


class SimBug(Exception):
    """The simulator itself (not the code under test) is at fault."""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class StepLimit(Exception):
    """The run used more scheduler steps than any terminating run needs."""


class Deadlock(Exception):
    """Nothing is runnable and no timer is pending, but the run has not ended."""


class World:
    def __init__(self, seed, *, max_steps=400_000, wall0=None):
        self.seed = seed
        self.now = 1000.0
        self.wall_off = (WALL0 if wall0 is None else wall0) - self.now
        self.max_steps = max_steps
        self.steps = 0
        self.events = []
        self.faults = {}  # kind -> count actually injected
        self._rngs = {}
        self._ent = random.Random(f"{seed}/entropy")
        self._keyn = {}
        self.net = None
        self.probes = []  # (fn) called after each event is logged
        self.violations = []
        self.cancels = []  # heap of (step, fn)
        self.t0 = self.now

    # --- seams -------------------------------------------------------
    def wall(self):
        return self.now + self.wall_off

    def entropy(self, n):
        return self._ent.randbytes(n)

    def next_key(self, size):
        n = self._keyn.get(size, 0)
        self._keyn[size] = n + 1
        return (hash_int(f"{self.seed}/key{size}") + n) % 4

    def rng(self, name) -> random.Random:
        r = self._rngs.get(name)
        if r is None:
            r = self._rngs[name] = random.Random(f"{self.seed}/{name}")
        return r

    # --- history -----------------------------------------------------
    def log(self, kind, /, **kw):
        ev = (round(self.now, 6), self.steps, kind, kw)
        self.events.append(ev)
        return ev

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("FAULT", kind=kind)

    def fail(self, cls, msg):
        """Record a violation (the first one decides the run)."""
        self.violations.append((cls, msg))
        self.log("VIOLATION", cls=cls, msg=str(msg)[:400])

    def jump_wall(self, secs):
        self.wall_off += secs
        self.fault("clock_jump")

    def digest(self):
        h = hashlib.sha256()
        for t, step, kind, kw in self.events:
            h.update(f"{t:.6f}|{step}|{kind}|{_canon(kw)}\n".encode())
        return h.hexdigest()

    def shape(self):
        """Hash of the order of events, without times, random bytes and tokens."""
        h = hashlib.sha256()
        for _t, _s, kind, kw in self.events:
            h.update(
                f"{kind}|{kw.get('dev')}|{kw.get('m')}|{kw.get('op')}|{kw.get('kind')}|{kw.get('out')}\n".encode()
            )
        return h.hexdigest()[:16]


def _canon(kw):
    return json.dumps(kw, sort_keys=True, default=repr)


def hash_int(s):
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:6], "big")


class SimLoop(asyncio.base_events.BaseEventLoop):
    """asyncio loop on virtual time, executing one ready handle per step."""

    def __init__(self, world: World):
        super().__init__()
        self.w = world
        self._tie = world.rng("tie")
        self.unhandled = []
        self.set_exception_handler(self._on_exc)
        self._clock_resolution = 1e-9
        self.executor_delay = (0.0, 0.002)
        self.exec_pending = 0
        self._seqno = 0

    def _on_exc(self, loop, ctx):
        self.unhandled.append(ctx)
        exc = ctx.get("exception")
        self.w.log("LOOPEXC", msg=re.sub(r"(0x|\.\.\.x?)[0-9a-f]+", "", str(ctx.get("message"))), exc=type(exc).__name__)

    def time(self):
        return self.w.now

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def _run_once(self):
        w = self.w
        sched = self._scheduled
        while sched and sched[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(sched)
            h._scheduled = False
        if not self._ready:
            if not sched:
                raise Deadlock("no runnable task and no timer")
            when = sched[0]._when
            if when > w.now:
                w.now = when
            due = []
            while sched and sched[0]._when <= w.now:
                h = heapq.heappop(sched)
                h._scheduled = False
                if h._cancelled:
                    self._timer_cancelled_count -= 1
                    continue
                due.append(h)
            if len(due) > 1:
                # simultaneous timers: the seeded scheduler decides the order
                self._tie.shuffle(due)
            self._ready.extend(due)
            if not due:
                return
        h = self._ready.popleft()
        if h._cancelled:
            return
        w.steps += 1
        if w.steps > w.max_steps:
            raise StepLimit(f"more than {w.max_steps} steps")
        if w.cancels and w.cancels[0][0] <= w.steps:
            _, _, fn = heapq.heappop(w.cancels)
            fn()
        h._run()
        h = None

    # --- executor: runs inline, completes after a simulated delay ------
    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        lo, hi = self.executor_delay

        self.exec_pending += 1

        def done():
            self.exec_pending -= 1
            if fut.cancelled():
                return
            try:
                r = func(*args)
            except BaseException as ex:  # noqa: BLE001
                fut.set_exception(ex)
            else:
                fut.set_result(r)

        self.call_later(lo + (hi - lo) * self.w.rng("exec").random(), done)
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        return await self.w.net.getaddrinfo(host, port, family, type, proto)

    async def create_connection(self, protocol_factory, host=None, port=None, *,
                                ssl=None, sock=None, server_hostname=None, **kw):
        return await self.w.net.create_connection(
            self, protocol_factory, host, port, ssl=ssl, sock=sock)

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None,
                                       remote_addr=None, **kw):
        return await self.w.net.create_datagram_endpoint(
            self, protocol_factory, local_addr, remote_addr)

    def at_step(self, step, fn):
        self._seqno += 1
        heapq.heappush(self.w.cancels, (step, self._seqno, fn))


def run_world(world, coro_fn):
    """Run coro_fn(world) to completion on a fresh simulated loop."""
    from .net import Net

    gc.disable()
    loop = SimLoop(world)
    world.loop = loop
    if world.net is None:
        world.net = Net(world)
    boot.CUR.world = world
    random.seed(f"{world.seed}/global")
    asyncio.set_event_loop(loop)
    try:
        main = loop.create_task(coro_fn(world), name="main")
        try:
            loop.run_until_complete(main)
        except Violation as v:
            world.fail(v.cls, v.msg)
        except StepLimit as ex:
            world.fail("no-progress", f"run does not end: {ex}; pending: {describe_tasks(loop)}")
        except Deadlock as ex:
            world.fail("deadlock", f"{ex}; pending: {describe_tasks(loop)}")
    finally:
        boot.CUR.world = None
        asyncio.set_event_loop(None)
    return world


def describe_tasks(loop):
    out = []
    for t in sorted(asyncio.all_tasks(loop), key=lambda t: t.get_name()):
        fr = t.get_stack(limit=1)
        where = ""
        if fr:
            where = f"{fr[0].f_code.co_filename.rsplit('/', 1)[-1]}:{fr[0].f_lineno}"
        out.append(f"{t.get_name()}@{where}")
    return out[:12]
