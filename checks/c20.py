"""C20: the switch-on time is right, stable while the device stays on, and fresh after it was switched."""

from __future__ import annotations

import asyncio
import datetime as dt
import random

from sim import scenario as sc
from sim.client import outcome
from sim.mirror import pairs

ID = "C20"
QUICK = 5000
THOROUGH = 150000
RULE = ("Seeded plan: any recorded device that counts its on-time (IOT plugs, switches, dimmers, strips with their outlets; SMART plugs, "
        "switches, strips with their children), any time zone, device clock anywhere in the year (often just before a change of "
        "daylight saving time); histories of updates, updates of single children, commands, external switching, switching during "
        "updates, reboots, jumps of the device's and of the host's clock, changed time zones, lost replies that delay one part of "
        "an update; the switch-on time is read at seeded moments or after every update.")
MAX_STEPS = 1000000
ASSUMPTIONS = ["on-time counters and clocks of devices count whole seconds",
               "wall clock times which occur twice when daylight saving time ends are not judged for IOT devices (they do not say which one they mean)"]
ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Australia/Sydney", "America/Los_Angeles", "Asia/Kolkata", "Europe/London", "America/Sao_Paulo"]
# moments (UTC) around which clocks are changed somewhere
DST = [1774746000, 1792890000, 1772953200, 1793512800, 1775318400, 1791043200, 1772964000, 1793523600]
POOL = None


def prepare():
    global POOL
    sc.prepare()
    if POOL is None:
        POOL = [p for p in sc.MODELS if '"on_time"' in open(p).read()]


def gen(rng, i):
    prepare()
    p = POOL[i % len(POOL)]
    plan = {"path": p, "latency": rng.choice([[0.0005, 0.003], [0.002, 0.02]]), "steps": [],
            "tz": rng.randint(0, 109) if "/iot/" in p else rng.choice(ZONES),
            "start": rng.choice(DST) - rng.choice([600, 3000, 20000, 86400]) if rng.random() < 0.6 else 1770000000 + rng.randint(0, 31536000)}
    every = rng.random() < 0.7
    for _ in range(rng.randint(3, 14)):
        s = {"op": rng.choices(["upd", "kid", "ext", "cmd", "race", "reboot", "clock", "zone", "host", "read"], (9, 2, 4, 3, 1, 1, 1.5, 0.5, 1, 1))[0],
             "r": rng.randint(0, 1 << 30)}
        s["gap"] = rng.choice([0, 0.3, 1, 4, 6, 30, 60, 1000, 3600, 7200, 20000, 90000, rng.randint(1, 9000)])
        if s["op"] == "upd":
            s["read"] = every or rng.random() < 0.4
            s["n"] = rng.choice([1, 1, 2, 4])
            if rng.random() < 0.25:
                s["fault"] = {"at": rng.randint(0, 3), "kind": rng.choice(["drop_reply", "drop_req", "rst_after", "rst_before"])}
        elif s["op"] in ("clock", "host"):
            s["secs"] = rng.choice([-86400, -3600, -61, -7, 7, 61, 3600, 86400, 1e7])
        elif s["op"] == "zone":
            s["tz"] = rng.randint(0, 109) if "/iot/" in p else rng.choice(ZONES)
        elif s["op"] == "ext":
            s["off"] = rng.choice([0, 0.5, 3, 6, 100, 4000])
            s["back"] = rng.random() < 0.75
        plan["steps"].append(s)
    return plan


class Watch:
    def __init__(self, w, s):
        self.w, self.m, self.kd, self.s = w, s.model, s.kd, s
        self.seen = {}      # name -> (time of switching on, clock generation, reading)
        self.gen = 0        # generation of the device's clock
        self.dur = {}       # name -> longest update since the readings began
        self.info = None    # (begin, end, clock generation) of the last whole update
        self.tick = None    # clock generation at the last update of any kind
        self.messy = set()  # switched during the last update
        self.state = {}

    def power(self, p):
        return p.node.kids[p.child].power if p.child else p.node.power if p.node.style != "iot" else p.node.main.power

    def counts(self, p):
        if p.node.style == "iot":
            return bool(p.child) or "on_time" in p.node.sys
        return "on_time" in p.node.dev and p.node.power is not None

    def clock(self):
        return self.m.clock

    def updated(self, t0, whole):
        self.tick = self.gen
        if not whole:
            return
        self.info = (t0, self.w.now, self.gen)
        for p in pairs(self.m, self.kd):
            if self.counts(p):
                pw = self.power(p)
                # what it was during the update; (clock - host) is constant within a generation
                self.state[p.name] = (pw.on, pw.since, p.name in self.messy)
        self.messy.clear()

    def read(self, judge=True):
        w = self.w
        if self.info is None:
            return
        t0, t1, gen = self.info
        dur = t1 - t0
        for p in pairs(self.m, self.kd):
            st = self.state.get(p.name)
            if st is None:
                continue
            on, since, messy = st
            try:
                got = p.kd.on_since
            except Exception as ex:  # noqa: BLE001
                w.fail("raises", f"{p.name} on_since: {type(ex).__name__}: {ex}")
                continue
            f = p.kd.features.get("on_since")
            if f is not None and f.value != got:
                w.fail("feature", f"{p.name}: on_since is {got} but the feature shows {f.value}")
            w.stats["readings"] += 1
            if messy or gen != self.tick or gen != self.gen:
                continue
            if not on:
                if got is not None:
                    w.fail("off", f"{p.name} is off but on_since is {got}")
                self.seen.pop(p.name, None)
                continue
            if got is None:
                w.fail("none", f"{p.name} is on since {w.now - since:.0f} s but on_since is None")
                continue
            if self.ambiguous(t0) or self.ambiguous(t1):
                w.stats["ambiguous"] += 1
                self.seen.pop(p.name, None)
                continue
            # the moment it was switched on, by the device's clock as of the update
            true = since + self.off
            err = got.timestamp() - true
            if abs(err) > 7 + dur:
                w.fail("wrong", f"{p.name} was switched on at {dt.datetime.fromtimestamp(int(true), dt.UTC)} but on_since is "
                       f"{got.astimezone(dt.UTC)} ({err:+.0f} s; the update took {dur:.1f} s)")
            old = self.seen.get(p.name)
            if old and old[0] == since and old[1] == gen:
                # (a value kept from before a short off/on cycle may still be corrected)
                if dur <= 1.5 and old[3] <= 1.5 and got != old[2] and abs(old[2].timestamp() - true) < 2.5:
                    w.fail("unstable", f"{p.name} stayed on but on_since changed from {old[2]} to {got}")
                w.stats["compared"] += 1
                self.seen[p.name] = (since, gen, got, max(dur, old[3]))
            else:
                self.seen[p.name] = (since, gen, got, dur)
                w.stats["new_since"] += 1

    def ambiguous(self, t):
        if self.m.style != "iot":
            return False
        loc = dt.datetime.fromtimestamp(int(t + self.off), self.zone())
        return any((loc + dt.timedelta(seconds=d)).replace(fold=0).utcoffset() != (loc + dt.timedelta(seconds=d)).replace(fold=1).utcoffset()
                   for d in (-3, 0, 3))

    def zone(self):
        from sim.models import _tz
        return _tz(self.clock().tz)

    @property
    def off(self):
        """Device clock minus simulated time."""
        return self.clock().utc() - self.w.now


async def update(w, s, wt, kd=None, race=None):
    t0 = w.now
    kind, val = await outcome(w, (kd or s.kd).update(), "update")
    if kind != "ok":
        w.fail("update", f"update of {s.model.model_name} failed: {kind} {val}")
        return False
    wt.updated(t0, kd is None)
    return True


def switch(wt, p, on):
    if p.node.style == "iot":
        p.node.set_on(on, p.child)
    else:
        p.node.set_on(on)


async def run(w, plan):
    s = sc.Scenario(w, plan)
    m = s.model
    if m.style == "iot":
        from sim.models import iot_tz
        m.tz_index = plan["tz"]
        m.clock.tz = iot_tz(plan["tz"])
    else:
        t = m.info.get("get_device_time")
        if t and t.get("region"):
            m.clock.tz = plan["tz"]
    m.clock.set_utc(plan["start"])
    if not await s.connect():
        return
    wt = Watch(w, s)
    w.nontrivial = True
    if not await update(w, s, wt):
        return
    wt.read()
    for st in plan["steps"]:
        if w.violations:
            return
        rng = random.Random(st["r"])
        await asyncio.sleep(st["gap"])
        ps = [p for p in pairs(m, s.kd) if wt.counts(p)]
        if st["op"] == "read":
            wt.read()
        elif st["op"] == "upd":
            for k in range(st["n"]):
                if k:
                    await asyncio.sleep(rng.choice([0.5, 10, 61, st["gap"]]))
                if st.get("fault") and not k:
                    s.dev.arm([st["fault"]], [])
                if not await update(w, s, wt):
                    return
                s.dev.disarm()
                if st["read"]:
                    wt.read()
        elif st["op"] == "kid":
            if s.kd.children:
                c = rng.choice(list(s.kd.children))
                if not await update(w, s, wt, c):
                    return
                wt.read()
        elif st["op"] == "ext" and ps:
            w.fault("external_change")
            p = rng.choice(ps)
            if wt.power(p).on:
                switch(wt, p, False)
                await asyncio.sleep(st["off"])
                if rng.random() < 0.3 and not await update(w, s, wt):
                    return
            if st["back"]:
                switch(wt, p, True)
        elif st["op"] == "cmd" and ps:
            p = rng.choice(ps)
            on = rng.random() < 0.6
            kind, val = await outcome(w, p.kd.turn_on() if on else p.kd.turn_off(), "turn")
            if kind != "ok":
                w.fail("refused", f"{p.name} turn {on}: {kind} {val}")
                return
        elif st["op"] == "race" and ps:
            p = rng.choice(ps)

            async def later():
                await asyncio.sleep(rng.random() * 0.03)
                switch(wt, p, not wt.power(p).on)
                wt.messy.update(q.name for q in ps)
            t = asyncio.ensure_future(later())
            ok = await update(w, s, wt)
            await t
            if not ok:
                return
            if wt.messy:
                wt.messy.clear()
            wt.state = {k: (*v[:2], True) for k, v in wt.state.items()}
            wt.read()
        elif st["op"] == "reboot":
            w.fault("device_reboot")
            for p in ps:
                wt.power(p).reboot()
        elif st["op"] == "clock":
            w.fault("device_clock_jump")
            m.clock.skew += st["secs"]
            wt.gen += 1
        elif st["op"] == "host":
            w.jump_wall(st["secs"])
            m.clock.skew -= st["secs"]
        elif st["op"] == "zone":
            if m.style == "iot":
                m.tz_index = st["tz"]
                m.clock.tz = iot_tz(st["tz"])
                wt.gen += 1
            elif m.info.get("get_device_time", {}).get("region"):
                m.clock.tz = st["tz"]
    await update(w, s, wt)
    wt.read()
    await s.kd.disconnect()
