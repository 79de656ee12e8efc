"""C14: children are addressed individually and never mixed up."""

import asyncio
import random

from sim import scenario as sc
from sim.client import outcome
from sim.mirror import Shot

ID = "C14"
QUICK = 3500
THOROUGH = 90000
RULE = ("Seeded plan: every recorded strip / multi-gang device, or a SMART / camera hub with 2-8 children drawn (also repeatedly the same "
        "model) from all recorded child models, child lists in random order, re-ordered between updates and delivered in pages of 1-10; "
        "commands mostly on children, often several concurrently on different children, external changes, transient faults; reads of the "
        "children's own energy, usage and schedule data, concurrently; at the end comparison with a newly connected object.")
MAX_STEPS = 900000
ASSUMPTIONS = ["the device does not re-order its child list while the pages of one listing are being fetched"]
prepare = sc.prepare


def gen(rng, i):
    prepare()
    plan = {"latency": rng.choice([[0.0005, 0.003], [0.001, 0.02], [0.02, 0.2]]), "fresh": rng.random() < 0.3, "order": rng.randint(0, 1 << 30)}
    if rng.random() < 0.6:
        plan["path"] = sc.STRIPS[i % len(sc.STRIPS)]
    else:
        plan["path"] = p = sc.HUBS[i % len(sc.HUBS)]
        refs = sc.kid_refs("smartcam" in p)
        plan["kids"] = [rng.choice(refs) for _ in range(rng.randint(1, 4))]
        plan["kids"] += [rng.choice(plan["kids"]) if rng.random() < 0.6 else rng.choice(refs) for _ in range(rng.randint(1, 4))]
        plan["page"] = rng.choice([1, 2, 3, 10, 10])
    steps = sc.gen_steps(rng, rng.randint(5, 14), conc=0.5, faults=0.15, weights=(4, 2, 8, 1))
    for s in steps:
        s["kids"] = rng.random() < 0.8
        if rng.random() < 0.25:
            s["order"] = rng.randint(0, 1 << 30)
        if rng.random() < 0.25:
            s["read"] = rng.randint(1, 1 << 30)
        if rng.random() < 0.2:
            s["own"] = rng.randint(1, 1 << 30)
    plan["steps"] = steps
    return plan


def reorder(model, seed):
    r = random.Random(seed)
    if model.style == "iot":
        r.shuffle(model.sys["children"])
    elif model.kids:
        r.shuffle(model.kids)


def is_kid(p):
    return p.parent is not None


async def reads(s, seed):
    """Concurrent reads of the outlets' own records."""
    w, m, r = s.w, s.model, random.Random(seed)
    jobs, want = [], []
    from kasa import Module
    for c in s.kd.children:
        o = m.kids[c.child_id]
        e, u = c.modules.get(Module.Energy), c.modules.get(Module.IotUsage)
        y, mo = r.choice([2024, 2025, 2026]), r.randint(1, 12)
        if e is not None and r.random() < 0.7:
            if r.random() < 0.5:
                jobs.append(e.get_daily_stats(year=y, month=mo, kwh=False))
                want.append((c, "get_daily_stats", dict(o.energy.days_of(y, mo))))
            else:
                jobs.append(e.get_monthly_stats(year=y, kwh=False))
                want.append((c, "get_monthly_stats", dict(o.energy.months_of(y))))
        if u is not None and r.random() < 0.7:
            jobs.append(u.get_daystat(year=y, month=mo))
            want.append((c, "get_daystat", dict(o.usage.days_of(y, mo))))
    got = await asyncio.gather(*(outcome(w, j, "read") for j in jobs))
    for (kind, val), (c, what, exp) in zip(got, want):
        w.stats["reads"] += 1
        if kind != "ok":
            w.fail("read-failed", f"{m.model_name}[{c.child_id[-2:]}].{what}: {kind} {val}")
        elif set(val) != set(exp) or any(abs(val[k] - exp[k]) > 1e-6 * max(1, abs(exp[k])) for k in exp):
            w.fail("foreign-data", f"{m.model_name}[{c.child_id[-2:]}].{what} returned {val!r} but the outlet recorded {exp!r}")


async def own_updates(s, seed):
    """Concurrent updates of single children: nothing of the others changes."""
    r = random.Random(seed)
    kids = list(s.kd.children)
    if not kids:
        return
    if r.random() < 0.5:
        s.eng.mutate(r, 2)
        s.eng.hold()
    some = r.sample(kids, min(len(kids), r.choice([1, 1, 2, 3])))
    for kind, val in await asyncio.gather(*(outcome(s.w, c.update(), "child update") for c in some)):
        s.w.stats["child_updates"] += 1
        if kind != "ok":
            s.w.fail("child-update", f"update of a child of {s.model.model_name} failed: {kind} {val}")
    if not s.w.violations:
        s.eng.hold(commanded=True, only=is_kid)     # a strip shows sums of its outlets
        s.eng.moved = True
        s.eng.shot = Shot(s.model)
        for k in [k for k in s.eng.shown if k[0] == s.model.model_name]:
            del s.eng.shown[k]


async def run(w, plan):
    s = sc.Scenario(w, plan)
    m = s.model
    if m.style == "iot":
        r = random.Random(plan["order"])
        for o in m.kids.values():
            for rec in (o.energy, o.usage):
                for _ in range(r.randint(0, 12)):
                    rec.days[r.choice([2024, 2025, 2026]), r.randint(1, 12), r.randint(1, 28)] = r.randint(1, 5000)
    reorder(m, plan["order"])
    if not await s.connect():
        return
    w.nontrivial = True
    if not await s.update():
        return
    ids = {c.device_id for c in s.kd.children}
    for st in plan["steps"]:
        if st.get("order"):
            w.fault("reordered_children")
            reorder(m, st["order"])
        if not await s.step(st, only=is_kid if st["kids"] and s.kd.children else None):
            return
        if st.get("read") and m.style == "iot":
            await reads(s, st["read"])
        if st.get("own"):
            await own_updates(s, st["own"])
        if {c.device_id for c in s.kd.children} != ids or len(s.kd.children) != len(ids):
            w.fail("children-changed", f"the children of {m.model_name} changed although none was paired or removed")
        if w.violations:
            return
    if not await s.update():
        return
    if plan["fresh"]:
        await s.fresh()
    await s.kd.disconnect()
