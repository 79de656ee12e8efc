"""Seeded sequences of updates, external changes and commands on one device."""

from __future__ import annotations

import asyncio
import copy
import random

from .client import gen_fault, outcome
from .mirror import Engine, pairs
from .models import all_models, child_templates, default_kids, fixtures, load, make_model, put, smart_conn, template

CURED = ["drop_reply", "rst_after", "fin_after", "drop_req", "rst_before", "fin_before"]
MODELS = None
HUBS = None
STRIPS = None


def prepare():
    global MODELS, HUBS, STRIPS
    if MODELS is None:
        MODELS = all_models()
        child_templates()
        HUBS = [p for p in fixtures("smart") + fixtures("smartcam") if is_hub(p)]
        STRIPS = [p for p in MODELS if p not in HUBS and has_kids(p)]


def has_kids(p):
    raw = load(p)
    if "system" in raw:
        return bool(raw["system"]["get_sysinfo"].get("children"))
    return bool(raw.get("get_child_device_list", {}).get("child_device_list") or raw.get("getChildDeviceList"))


def is_hub(p):
    raw = load(p)
    if "getDeviceInfo" in raw:
        return any(c["name"] == "childControl" for c in raw["getAppComponentList"]["app_component"]["app_component_list"])
    t = raw.get("get_device_info", {}).get("type", "")
    return "HUB" in t


def pool():
    """Fixtures of hub children: [(category, path)]."""
    out = [(c, p) for c, ps in sorted(child_templates().items()) for p in ps]
    return out


def kid_raw(ref):
    if ref.startswith("cam"):
        return load(fixtures("smartcam/child")[int(ref[3:] or 0) % len(fixtures("smartcam/child"))])
    c, i = ref.rsplit(":", 1)
    return template(child_templates()[c][int(i)])


def kid_refs(cam):
    out = [f"{c}:{i}" for c, ps in sorted(child_templates().items()) for i in range(len(ps))]
    return out + [f"cam{i}" for i in range(len(fixtures("smartcam/child")))] if cam else out


def gen_steps(rng, n, conc=0.25, faults=0.2, weights=(4, 3, 6, 1)):
    steps = []
    for _ in range(n):
        op = rng.choices(["upd", "mut", "cmd", "sleep"], weights)[0]
        s = {"op": op, "r": rng.randint(0, 1 << 30)}
        if op == "upd":
            s["mut"] = rng.choice([0, 0, 0, 1, 3])
            s["at"] = round(rng.random() * rng.choice([0.02, 0.3]), 4)
        elif op == "mut":
            s["n"] = rng.choice([1, 1, 2, 5])
        elif op == "cmd":
            s["n"] = rng.choice([2, 3, 4]) if rng.random() < conc else 1
            s["first"] = rng.choice([0, 0, 1, 61, 90000, 90000])
        else:
            s["secs"] = rng.choice([0.5, 5, 61, 3601, 90000, rng.randint(1, 5000)])
        if op in ("upd", "cmd") and rng.random() < faults:
            s["faults"] = [{k: v for k, v in gen_fault(rng, CURED).items() if k != "skip"} | ({"skip": rng.randint(0, 3)})
                           for _ in range(rng.choice([1, 1, 2]))]
        steps.append(s)
    return steps


class Scenario:
    def __init__(self, w, plan, skip=(), engine=Engine):
        self.w, self.plan = w, plan
        path = MODELS[plan["idx"] % len(MODELS)] if "path" not in plan else plan["path"]
        model = make_model(w, path, 3) if "kids" not in plan else None
        if model is None:
            kids = [kid_raw(r) for r in plan["kids"]]
            model = make_model(w, path, 3, kids=kids, page=plan.get("page", 10))
        self.model, self.dev, self.cfg = put(w, path, 3, "10.0.0.5", model=model, latency=tuple(plan.get("latency", (0.0005, 0.003))))
        self.skip, self.engine = skip, engine
        self.kd = self.eng = None

    async def connect(self):
        from kasa import Device as KD

        kind, d = await outcome(self.w, KD.connect(config=self.cfg(timeout=5)), "connect")
        if kind != "ok":
            self.w.fail("connect", f"connecting to a working {self.model.model_name} failed: {kind} {d}")
            return False
        self.kd = d
        self.eng = self.engine(self.w, self.model, d, self.skip)
        return True

    async def update(self, step=None):
        """One update; verified."""
        w, step = self.w, step or {}
        t0 = w.now
        task = None
        if step.get("mut"):
            rng = random.Random(step["r"])

            async def later():
                await asyncio.sleep(step["at"])
                self.eng.mutate(rng, step["mut"])
            task = asyncio.ensure_future(later())
        kind, val = await outcome(w, self.kd.update(), "update")
        if task is not None and not task.done():
            task.cancel()
        if kind != "ok":
            w.fail("update", f"update of {self.model.model_name} failed: {kind} {val}")
            return False
        self.eng.verify(t0, settled=not step.get("mut"))
        if step.get("mut"):
            self.eng.moved = True
        return True

    async def step(self, s, only=None):
        w, eng = self.w, self.eng
        rng = random.Random(s["r"])
        fl = s.get("faults") or []
        if s["op"] == "sleep":
            await asyncio.sleep(s["secs"])
        elif s["op"] == "mut":
            w.fault("external_change")
            eng.mutate(rng, s["n"])
            eng.hold()
        elif s["op"] == "upd":
            self.dev.arm([dict(f) for f in fl], [])
            r = await self.update(s)
            self.dev.disarm()
            return r
        elif s["op"] == "cmd":
            if s.get("first"):
                await asyncio.sleep(s["first"])
                if not await self.update():
                    return False
            cmds = []
            for _ in range(s["n"]):
                from .mirror import overlaps
                c = eng.choose(rng, only=only, nodep=s["n"] > 1 or bool(fl))
                if c is None:
                    continue
                if any(overlaps(a, b) for o in cmds for a in o.paths + o.record for b in c.paths + c.record):
                    continue
                if any(o.name in ("reboot", "time") for o in cmds) or (cmds and c.name in ("reboot", "time")):
                    continue
                cmds.append(c)
            if not cmds:
                return True
            self.dev.arm([dict(f) for f in fl], [])
            await eng.command(cmds, faults=bool(fl))
            self.dev.disarm()
            if not w.violations:
                eng.hold(commanded=True)
        return not w.violations

    async def fresh(self):
        """A newly connected object must agree with the long-lived one."""
        from kasa import Device as KD

        from . import features as ft

        w = self.w
        await asyncio.sleep(90001)
        t0 = w.now
        if not await self.update():
            return
        kind, d2 = await outcome(w, KD.connect(config=self.cfg(timeout=5)), "connect")
        if kind != "ok":
            w.fail("connect", f"connecting again failed: {kind} {d2}")
            return
        a, b = whole(self.kd), whole(d2)
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k, "<absent>"), b.get(k, "<absent>")
            if not close(x, y, 5 + w.now - t0):
                w.fail("differs-from-fresh", f"{self.model.model_name} {k}: {x!r} but a newly connected object shows {y!r}")
                break
        w.stats["fresh_compared"] += len(b)
        await d2.disconnect()


SKIPF = ("on_since", "update_available", "available_firmware_version", "pan_step", "tilt_step")


def whole(kd):
    import datetime as dt

    out = {}
    for d in [kd, *kd.children]:
        nm = getattr(d, "child_id", None) or d.device_id
        for fid, f in d.features.items():
            if f.type.name == "Action" or fid in SKIPF:
                continue
            try:
                out[nm, fid] = f.value
            except Exception as ex:  # noqa: BLE001
                out[nm, fid] = f"raises {type(ex).__name__}"
        for attr in ("alias", "model", "mac", "is_on", "rssi", "device_type", "has_emeter"):
            try:
                out[nm, attr] = getattr(d, attr)
            except Exception as ex:  # noqa: BLE001
                out[nm, attr] = f"raises {type(ex).__name__}"
        out[nm, "modules"] = sorted(map(str, d.modules))
        out[nm, "features"] = sorted(d.features)
    return out


def close(x, y, secs=5):
    import datetime as dt

    if isinstance(x, dt.datetime) and isinstance(y, dt.datetime):
        return abs((x - y).total_seconds()) < secs
    return x == y


def shape_events(w):
    return w
