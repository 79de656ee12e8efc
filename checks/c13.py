"""C13: after an update the object mirrors the device, and commands take effect."""

from sim import scenario as sc

ID = "C13"
QUICK = 3500
THOROUGH = 90000
RULE = ("Seeded plan: any recorded device model (about 190 fixtures, all families) behind its real protocol, connected by Device.connect; "
        "6-16 steps of updates (optionally with changes at the device while they run), external changes, single or concurrent commands "
        "(feature setters and API commands with random arguments), transient faults, pauses up to 25 h; at the end comparison with a newly connected object.")
MAX_STEPS = 600000
prepare = sc.prepare


def gen(rng, i):
    plan = {"idx": i if i < 2000 else rng.randint(0, 9999), "steps": sc.gen_steps(rng, rng.randint(6, 16)), "fresh": rng.random() < 0.4,
            "latency": rng.choice([[0.0005, 0.003], [0.001, 0.02], [0.02, 0.2]])}
    return plan


async def run(w, plan):
    s = sc.Scenario(w, plan)
    if not await s.connect():
        return
    w.nontrivial = True
    if not await s.update():
        return
    for st in plan["steps"]:
        if not await s.step(st):
            return
    if not await s.update():
        return
    if plan["fresh"]:
        await s.fresh()
    await s.kd.disconnect()
