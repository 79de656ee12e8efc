"""C17: slow-changing functions are polled at their interval, and at once after a change."""

from __future__ import annotations

import asyncio
import random

from sim import scenario as sc
from sim.client import outcome
from sim.mirror import Shot, overlaps

ID = "C17"
QUICK = 3500
THOROUGH = 90000
RULE = ("Seeded plan: any recorded device (all families) or a hub with random children; long histories of updates at constant cadences "
        "(0.3 s to a day, often just below or above an interval) and irregular gaps, with or without the children, updates of single children, "
        "commands between and during updates, external changes, wall clock jumps, transient faults cured by a retry; every function "
        "asked by the device object is followed in the log of the simulated device.")
MAX_STEPS = 2000000
ASSUMPTIONS = ["the intervals are the library's documented ones (cloud state, presets, transitions 60 s; led, trigger logs 1 h; firmware, "
               "effect rules, child categories and everything of a hub's child 24 h)"]
prepare = sc.prepare
ONCE = {"component_nego", "getAppComponentList", "get_child_device_component_list", "getChildDeviceComponentList", "getConnectStatus",
        "control_child", "controlChild", "multipleRequest", "multiple_request"}


def _kasa():
    global Module
    from kasa import Module


def gen(rng, i):
    prepare()
    plan = {"latency": rng.choice([[0.0005, 0.003], [0.001, 0.02], [0.02, 0.2]])}
    if rng.random() < 0.3:
        plan["path"] = p = sc.HUBS[i % len(sc.HUBS)]
        refs = sc.kid_refs("smartcam" in p)
        plan["kids"] = [rng.choice(refs) for _ in range(rng.choice([1, 2, 3]))]
    else:
        plan["idx"] = i if i < 2000 else rng.randint(0, 9999)
    steps = []
    for _ in range(rng.randint(3, 8)):
        s = {"op": rng.choices(["run", "cmd", "race", "kid", "mut", "jump"], (5, 4, 3, 1, 1, 1))[0], "r": rng.randint(0, 1 << 30)}
        if s["op"] == "run":
            s["every"] = rng.choice([0.3, 1, 5, 7, 19, 20, 29, 31, 50, 59.9, 60.1, 61, 119, 300, 1799, 3599.9, 3601, 7000, 43199, 86399, 86401, 90000])
            s["n"] = rng.choice([1, 2, 3, 5, 8, 12, 25] if s["every"] > 5 else [2, 5, 20, 70])
            s["jit"] = rng.choice([0, 0, 0.05, 0.5])
            s["kids"] = rng.random() < 0.8
            if rng.random() < 0.2:
                s["fault"] = rng.choice(["drop_reply", "rst_before", "rst_after", "drop_req"])
        elif s["op"] == "cmd":
            s["n"] = rng.choice([1, 1, 2])
            s["wait"] = rng.choice([0, 0.2, 30, 70])
        elif s["op"] == "race":
            s["at"] = rng.choice([0, 0, 0.001, 0.01, 0.03, 0.1, 0.3])
            s["gap"] = rng.choice([0, 0, 20, 61, 3601, 86401])
            s["fail"] = rng.random() < 0.4
        elif s["op"] == "jump":
            s["secs"] = rng.choice([-86400, -3600, -60, 60, 3600, 86400])
        steps.append(s)
    plan["steps"] = steps
    return plan


class Watch:
    def __init__(self, w, s):
        self.w, self.s, self.eng, self.m = w, s, s.eng, s.model
        self.marks = {}
        self.last = {}      # (node id, getter) -> (begin of the update, moment) of the last time asked
        self.cmd = {}       # node id -> time of the last command on it
        self.must = []      # (node, getter, time of the change)

    def nodes(self):
        return self.eng.nodes()

    def mark(self):
        self.marks = {id(n): len(n.queries) for n in self.nodes()}

    def asked(self, n):
        out = {}
        for q in n.queries[self.marks.get(id(n), 0):]:
            g = q[1:4] if n.style == "iot" else q[1]
            out[g] = q[0]
        return out

    def interval(self, n, g):
        p = next((p for p in self.eng.pairs() if p.node is n), None)
        return None if p is None else self.eng.interval(p, g)

    def judge(self, t0, *, kids=True, only=None, race=False):
        """The update begun at t0 has just ended."""
        w = self.w
        hub = self.s.kd.device_type.name == "Hub"
        now_on = []
        for n in self.nodes():
            kid = n is not self.m
            if only is not None and n is not only or kid and hub and not kids and only is None:
                continue
            asked = self.asked(n)
            now_on += [(n, g) for g in asked if g not in ONCE and str(g[1] if isinstance(g, tuple) else g).startswith("get")
                       and (not race or (id(n), g) in self.last)]
            known = {g for (i, g) in self.last if i == id(n)}
            for g in sorted(known, key=str):
                if isinstance(g, tuple) and g[2] and not kids:
                    continue     # the outlets are not asked by such an update
                iv = self.interval(n, g)
                if iv is None or g == "get_connect_cloud_state" and not self.has_cloud(n):
                    continue
                lt0, ltq = self.last[id(n), g]
                must = [m for m in self.must if m[0] is n and m[1] == g and m[2] <= t0]
                w.stats["judged"] += 1
                if g not in asked:
                    if must:
                        w.fail("not-after-change", f"{self.name(n)} {g}: changed by a command {t0 - must[-1][2]:.1f} s ago, not asked by the next update")
                    elif t0 - ltq >= iv + 1e-3:
                        w.fail("not-asked", f"{self.name(n)} {g}: not asked by an update {t0 - ltq:.1f} s after it was last asked (interval {iv} s)")
                elif iv and asked[g] - lt0 < iv - 1e-3 and self.cmd.get(id(n), -1) < lt0 and not must:
                    w.fail("asked-early", f"{self.name(n)} {g}: asked again {asked[g] - lt0:.1f} s after the last time (interval {iv} s)")
        for n, g in now_on:
            self.last[id(n), g] = (t0, self.asked(n)[g])
        # a change during the update is done with when the function was asked after it
        self.must = [m for m in self.must if m[2] > t0 and not self.asked(m[0]).get(m[1], -1) > m[2]]

    def has_cloud(self, n):
        p = next((p for p in self.eng.pairs() if p.node is n), None)
        return p is not None and Module.Cloud in p.kd.modules

    def name(self, n):
        return getattr(n, "name", None) if n is not self.m else self.m.model_name


async def update(w, s, wt, kids=True, race=False):
    wt.mark()
    t0 = w.now
    kind, val = await outcome(w, s.kd.update() if kids else s.kd.update(update_children=False), "update")
    if kind != "ok":
        w.fail("update", f"update of {s.model.model_name} failed: {kind} {val}")
        return None
    wt.judge(t0, kids=kids, race=race)
    s.eng.shot = Shot(s.model)
    return t0


async def command(w, s, wt, rng, n):
    eng = s.eng
    cmds = []
    for _ in range(n):
        c = eng.choose(rng, nodep=True)
        if c is None or c.name in ("reboot", "time") or any(overlaps(a, b) for o in cmds for a in o.paths + o.record for b in c.paths + c.record):
            continue
        cmds.append(c)
    if not cmds:
        return
    eng.touched = []
    await eng.command(cmds, faults=True, judge=False)
    for c in cmds:
        wt.cmd[id(c.p.node)] = w.now
        wt.cmd[id(s.model)] = w.now
    for n_, g, t in eng.touched:
        wt.must.append((n_, g, t))
        w.stats["changed"] += 1


async def run(w, plan):
    _kasa()
    s = sc.Scenario(w, plan)
    if not await s.connect():
        return
    wt = Watch(w, s)
    w.nontrivial = True
    s.eng.shot = Shot(s.model)
    # the connection has made the first update
    wt.judge(0.0)
    if await update(w, s, wt) is None:
        return
    for st in plan["steps"]:
        if w.violations:
            return
        rng = random.Random(st["r"])
        if st["op"] == "run":
            for k in range(st["n"]):
                gap = st["every"] * (1 + st["jit"] * rng.random())
                await asyncio.sleep(gap)
                if st.get("fault") and k == st["n"] // 2:
                    s.dev.arm([{"at": rng.randint(0, 2), "kind": st["fault"]}], [])
                if await update(w, s, wt, kids=st["kids"]) is None or w.violations:
                    return
                s.dev.disarm()
        elif st["op"] == "cmd":
            await command(w, s, wt, rng, st["n"])
            await asyncio.sleep(st["wait"])
            if not w.violations:
                await update(w, s, wt)
        elif st["op"] == "race":
            # a command while an update is under way; the next update must see what it changed
            async def later():
                await asyncio.sleep(st["at"])
                await command(w, s, wt, rng, 1)
            await asyncio.sleep(st["gap"])
            if st["fail"] and s.model.style != "iot":
                # the query of the update fails altogether, so its functions are asked one by one
                s.dev.arm([{"at": 0, "kind": "rst_before"}] * 4, [])
            t = asyncio.ensure_future(later())
            ok = await update(w, s, wt, race=True)
            await t
            if ok is None or w.violations:
                return
            w.stats["races"] += 1
            await asyncio.sleep(rng.choice([0, 0.1, 5]))
            await update(w, s, wt)
        elif st["op"] == "kid" and s.kd.children and s.model.style != "iot":
            c = rng.choice(list(s.kd.children))
            node = s.model.kid(c.device_id)
            if node is None:
                continue
            await asyncio.sleep(rng.choice([0, 1, 70, 4000, 86401]))
            wt.mark()
            t0 = w.now
            kind, val = await outcome(w, c.update(), "child update")
            if kind != "ok":
                w.fail("update", f"update of child {node.name} failed: {kind} {val}")
                return
            wt.judge(t0, only=node)
            s.eng.shot = Shot(s.model)
        elif st["op"] == "mut":
            s.eng.mutate(rng, 2)
        elif st["op"] == "jump":
            w.fault("clock_jump")
            w.jump_wall(st["secs"])
    await s.kd.disconnect()
