"""C21: energy and usage figures belong to the day and month they claim."""

from __future__ import annotations

import asyncio
import datetime as dt
import os
import random
import time

from sim import scenario as sc
from sim.client import outcome
from sim.mirror import pairs
from sim.models import _tz, iot_tz

ID = "C21"
QUICK = 5000
THOROUGH = 150000
RULE = ("Seeded plan: any recorded device with energy or usage records (IOT plugs, bulbs, strips with their outlets; SMART plugs and strips), "
        "a history of up to 14 months of records, any time zone of the device and of the host, the device's clock mostly shortly before "
        "a midnight, month's or year's end, the host's clock the same instant or off by minutes to years; histories of updates (also "
        "slow ones which straddle midnight), updates of single children, accruing records, erased statistics, jumps of either clock, "
        "lost replies, figures read at any moment, daily and monthly statistics of random months of devices and children.")
MAX_STEPS = 1000000
ASSUMPTIONS = ["a device without a record for a day or month has used nothing (energy 0, usage 0 or unknown)",
               "the update of a single outlet does not tell when the strip's clock was set since the strip's last update",
               "SMART devices compute today's and this month's figures themselves"]
ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Australia/Sydney", "America/Los_Angeles", "Asia/Kolkata", "Pacific/Auckland", "Pacific/Honolulu"]
EDGES = [(2026, 1, 1), (2026, 2, 1), (2026, 3, 1), (2026, 3, 29), (2026, 4, 1), (2026, 7, 15), (2026, 10, 25), (2026, 12, 31), (2027, 1, 1),
         (2028, 2, 29), (2028, 3, 1), (2026, 6, 10)]
POOL = None


def prepare():
    global POOL
    sc.prepare()
    if POOL is None:
        POOL = [p for p in sc.MODELS if "/iot/" in p] + [p for p in sc.MODELS if '"get_energy_usage"' in open(p).read()] * 2


def gen(rng, i):
    prepare()
    p = POOL[i % len(POOL)]
    slow = rng.random() < 0.3
    plan = {"path": p, "latency": [0.2, 1.2] if slow else [0.001, 0.02], "hist": rng.randint(0, 1 << 30), "tz": rng.choice(ZONES),
            "host_tz": rng.choice(ZONES), "edge": rng.choice(EDGES), "before": rng.choice([1, 3, 10, 60, 600, 3000, 7200, 40000, 90000]),
            "host_off": rng.choice([0, 0, 0, 0, 90, -600, 86400, -86400 * 31, 86400 * 400]), "loose": rng.random() < 0.15, "steps": []}
    for _ in range(rng.randint(3, 12)):
        s = {"op": rng.choices(["upd", "kid", "use", "stat", "read", "clock", "host", "erase", "edge"], (9, 2, 4, 4, 2, 0.7, 0.7, 0.5, 2))[0],
             "r": rng.randint(0, 1 << 30)}
        s["gap"] = rng.choice([0, 1, 5, 30, 600, 3600, 7200, 40000, 86400, 86400 * 3, 86400 * 29])
        if s["op"] == "upd" and rng.random() < 0.2:
            s["fault"] = {"at": rng.randint(0, 3), "kind": rng.choice(["drop_reply", "drop_req", "rst_after", "rst_before"])}
        if s["op"] in ("clock", "host"):
            s["secs"] = rng.choice([-86400 * 31, -86400, -3600, 3600, 86400, 86400 * 40])
        if s["op"] == "edge":
            s["before"] = rng.choice([0.02, 0.1, 0.5, 1, 2, 5])
        plan["steps"].append(s)
    return plan


def _kasa():
    global Module
    from kasa import Module


def recs(p):
    """{kind: records} of what a pair stands for."""
    n = p.node
    if n.style == "iot":
        if p.child:
            return {"energy": n.kids[p.child].energy, "usage": n.kids[p.child].usage}
        if n.kids:
            return {"usage": n.main.usage}
        return {"energy": n.main.energy, "usage": n.main.usage}
    # without records the model serves the recorded answer of the device
    return {"energy": n.energy} if "get_energy_usage" in n.info and n.energy.days else {}


class Watch:
    def __init__(self, w, s, plan):
        self.w, self.s, self.m, self.kd, self.plan = w, s, s.model, s.kd, plan
        self.known = {}     # name -> {kind: set of acceptable (today, month)}
        self.skew = None    # of the device's clock, at the last update of the whole device

    def local(self):
        return self.m.clock.local()

    def dates(self, t0):
        off = self.m.clock.utc() - self.w.now
        z = _tz(self.m.clock.tz)
        return {dt.datetime.fromtimestamp(int(t + off), z).date() for t in (t0, self.w.now)}

    def updated(self, t0, only=None):
        """The update has just ended."""
        # the date of an outlet follows from the last time of the strip
        ds = self.dates(t0 if only is None else t0 - 5)
        off = self.m.clock.utc() - self.w.now
        if only is None:
            self.skew = off
        for p in pairs(self.m, self.kd):
            if only is not None and p.kd is not only:
                continue
            if abs(off - self.skew) > 0.01:
                # the client cannot know of a clock set since then
                self.known.pop(p.name, None)
                continue
            self.known[p.name] = {k: {(r.day(d), r.month(d), d) for d in ds} for k, r in recs(p).items()}
        if len(ds) > 1:
            self.w.stats["straddling"] += 1

    def read(self):
        w = self.w
        for p in pairs(self.m, self.kd):
            for kind, want in self.known.get(p.name, {}).items():
                mod = p.kd.modules.get(Module.Energy if kind == "energy" else Module.IotUsage)
                if mod is None:
                    continue
                attrs = ("consumption_today", "consumption_this_month") if kind == "energy" else ("usage_today", "usage_this_month")
                for i, a in enumerate(attrs):
                    try:
                        got = getattr(mod, a)
                    except Exception as ex:  # noqa: BLE001
                        w.fail("raises", f"{p.name} {a}: {type(ex).__name__}: {ex}")
                        continue
                    w.stats["figures"] += 1
                    if not any(self.same(kind, got, x[i]) for x in want):
                        d = sorted(x[2] for x in want)
                        w.fail("wrong-figure", f"{p.name} {a} is {got}; the device's date at the update was {'/'.join(map(str, d))} and it "
                               f"recorded {[x[i] for x in want]}")
        if self.m.style == "iot" and self.m.kids and (mod := self.kd.modules.get(Module.Energy)) is not None:
            for a in ("consumption_today", "consumption_this_month"):
                parts = [getattr(c.modules[Module.Energy], a) or 0 for c in self.kd.children]
                if abs(getattr(mod, a) - sum(parts)) > 1e-6:
                    w.fail("wrong-sum", f"strip {a} is {getattr(mod, a)}, its outlets show {parts}")

    def same(self, kind, got, want):
        if kind == "usage":
            return got == want or want is None and not got
        return abs((got or 0) - (want or 0) / 1000) < 1e-6

    async def stats(self, rng):
        """Daily and monthly statistics of a device or child."""
        w = self.w
        ps = [p for p in pairs(self.m, self.kd) if self.m.style == "iot"]
        if not ps:
            return
        p = rng.choice(ps)
        kind = rng.choice(["energy", "usage"])
        mod = p.kd.modules.get(Module.Energy if kind == "energy" else Module.IotUsage)
        if mod is None:
            return
        own = [recs(p)[kind]] if kind in recs(p) else [o.energy for o in self.m.kids.values()]
        days = sorted({k for r in own for k in r.days}) or [(2026, 1, 1)]
        y, mth, _ = rng.choice(days)
        if rng.random() < 0.15:
            y, mth = y - 1, rng.randint(1, 12)
        kwh = rng.random() < 0.6
        f = 1000 if kind == "energy" and kwh else 1
        if rng.random() < 0.6:
            what = f"daily statistics {y}-{mth}"
            want = {}
            for r in own:
                for d, v in r.days_of(y, mth):
                    want[d] = want.get(d, 0) + v / f
            co = mod.get_daily_stats(year=y, month=mth, kwh=kwh) if kind == "energy" else mod.get_daystat(year=y, month=mth)
        else:
            what = f"monthly statistics {y}"
            want = {}
            for r in own:
                for mm, v in r.months_of(y):
                    want[mm] = want.get(mm, 0) + v / f
            co = mod.get_monthly_stats(year=y, kwh=kwh) if kind == "energy" else mod.get_monthstat(year=y)
        k, got = await outcome(w, co, "statistics")
        if k != "ok":
            w.fail("refused", f"{p.name} {what}: {k} {got}")
            return
        w.stats["statistics"] += 1
        if set(got) != set(want) or any(abs(got[x] - want[x]) > 1e-6 for x in want):
            w.fail("wrong-statistics", f"{p.name} {kind} {what}: {got} but the device recorded {want}")


def history(m, rng, today):
    """Random records of the last months (and a few days ahead, from before a clock change)."""
    from sim.models import SmartNode

    if m.style == "iot":
        outs = list(m.kids.values()) if m.kids else []
        rs = [r for o in [m.main, *outs] for r in (o.energy, o.usage)]
    else:
        rs = [n.energy for n in [m, *(m.kids or [])] if "get_energy_usage" in n.info]
    for r in rs:
        for _ in range(rng.choice([0, 3, 40])):
            r.add(today - dt.timedelta(days=rng.choice([0, 1, 2, 27, 28, 30, 31, 365, 366, rng.randint(0, 420)])), rng.randint(1, 3000))
        if rng.random() < 0.5:
            r.add(today, rng.randint(1, 3000))
    return rs


async def run(w, plan):
    _kasa()
    os.environ["TZ"] = plan["host_tz"]
    time.tzset()
    s = sc.Scenario(w, plan)
    m = s.model
    if m.style == "iot":
        names = [i for i in range(110) if iot_tz(i) == plan["tz"]]
        m.tz_index = names[0] if names else 39
        m.clock.tz = iot_tz(m.tz_index)
    elif m.info.get("get_device_time", {}).get("region"):
        m.clock.tz = plan["tz"]
    start = dt.datetime(*plan["edge"], tzinfo=_tz(m.clock.tz)).timestamp() - plan["before"]
    w.wall_off = start - w.now + plan["host_off"]
    m.clock.set_utc(start)
    rng = random.Random(plan["hist"])
    rs = history(m, rng, m.clock.local().date())
    if plan["loose"] and m.style == "iot":
        real = m.meter

        def meter(cmd, a, rec, rt, key, outlet):
            if cmd == "get_daystat" and loose[0]:
                conv = 1000 if key == "energy" else 1
                return {"day_list": [{"year": y, "month": mm, "day": d, key: v / conv if conv > 1 else v} for (y, mm, d), v in sorted(rec.days.items())][-45:]}
            return real(cmd, a, rec, rt, key, outlet)
        m.meter = meter
    loose = [True]
    t0 = w.now
    if not await s.connect():
        return
    wt = Watch(w, s, plan)
    w.nontrivial = True

    async def update(kd=None):
        t0 = w.now
        kind, val = await outcome(w, (kd or s.kd).update(), "update")
        if kind != "ok":
            w.fail("update", f"update of {m.model_name} failed: {kind} {val}")
            return False
        wt.updated(t0, kd)
        wt.read()
        return not w.violations

    wt.updated(t0)
    wt.read()
    for st in plan["steps"]:
        if w.violations:
            return
        r = random.Random(st["r"])
        if st["op"] == "edge":
            # an update around the next midnight of the device
            loc = m.clock.local()
            nxt = dt.datetime.combine(loc.date() + dt.timedelta(days=1), dt.time(), tzinfo=loc.tzinfo)
            await asyncio.sleep(max(0, nxt.timestamp() - m.clock.utc() - st["before"]))
            if not await update():
                return
            await asyncio.sleep(2 * st["before"])
            wt.read()
            if r.random() < 0.5 and not await update():
                return
            continue
        await asyncio.sleep(st["gap"])
        if st["op"] == "upd":
            if st.get("fault"):
                s.dev.arm([st["fault"]], [])
            if not await update():
                return
            s.dev.disarm()
        elif st["op"] == "read":
            wt.read()
        elif st["op"] == "kid" and s.kd.children:
            if not await update(r.choice(list(s.kd.children))):
                return
        elif st["op"] == "use" and rs:
            w.fault("external_change")
            for x in r.sample(rs, r.randint(1, len(rs))):
                x.add(m.clock.local().date(), r.randint(1, 500))
        elif st["op"] == "stat":
            loose[0] = False
            await wt.stats(r)
            loose[0] = True
        elif st["op"] == "erase":
            for x in rs:
                x.days.clear()
        elif st["op"] == "clock":
            w.fault("device_clock_jump")
            m.clock.skew += st["secs"]
        elif st["op"] == "host":
            w.jump_wall(st["secs"])
            m.clock.skew -= st["secs"]
    if not w.violations:
        await update()
    await s.kd.disconnect()
