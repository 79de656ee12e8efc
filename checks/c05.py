"""C05: devices recover by themselves once faults stop."""

import asyncio

from checks.c03 import CONNF, FK, child_of, mkfault
from sim.client import KINDS, cancel_at, default_creds, gen_latency, gen_seg, make_protocol, outcome
from sim.device import Device
from sim.echo import STYLE, expected, make_app, make_query

ID = "C05"
QUICK = 6000
THOROUGH = 200000
RULE = ("Seeded plan: a storm of faults of every kind on every step (including malformed replies, reboots, lost sessions and "
        "connection failures), cancelled and timed-out calls and idle periods, then quiet: the same object must work again.")


def gen(rng, i):
    kind = KINDS[i % len(KINDS)]
    plan = {"kind": kind, "latency": rng.choice([[0.0005, 0.002], [0.001, 0.02], [0.02, 0.1]]), "timeout": rng.choice([2, 5]),
            "storms": []}
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = {"form": rng.choice([0, 0, 1, 2, 3]), "retry": rng.choice([0, 0, 1, 3]), "size": rng.choice([0, 300]),
                  "gap": round(rng.choice([0, 0, 0.5, 5, 90000]) * rng.random(), 3), "child": rng.random() < 0.2}
            if rng.random() < 0.35:
                op["cancel"] = rng.choice([rng.randint(1, 30), rng.randint(1, 120)])
            ops.append(op)
        plan["storms"].append({
            "ops": ops, "faults": [mkfault(rng, FK, kind) for _ in range(rng.randint(0, 6))],
            "conn": [{"kind": rng.choice(CONNF)} for _ in range(rng.choice([0, 0, 1, 2]))],
            "par": rng.random() < 0.3, "reset": rng.random() < 0.1, "settle": rng.choice([0, 0, 0.3, 20])})
    return plan


async def run(w, plan):
    kind = plan["kind"]
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"])
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=plan["timeout"])
    n = 0

    async def one(op, tok):
        p, q = proto, make_query(kind, tok, op["size"], op["form"])
        if op["child"] and STYLE[kind] != "iot":
            p, q = child_of(kind, proto), {"echoX": {"token": tok}}
        k, r = await outcome(w, p.query(q, retry_count=op["retry"]), "query", token=tok)
        w.stats["storm_" + k.split(":")[0]] += 1

    for st in plan["storms"]:
        dev.arm(st["faults"], st["conn"])
        tasks = []
        for op in st["ops"]:
            await asyncio.sleep(op["gap"])
            n += 1
            t = asyncio.create_task(one(op, f"t{n}"))
            if "cancel" in op:
                cancel_at(w, t, op["cancel"])
            if st["par"]:
                tasks.append(t)
            else:
                await asyncio.wait([t])
        if tasks:
            await asyncio.wait(tasks)
        dev.disarm()
        while not dev.host.up:
            await asyncio.sleep(1)
        await asyncio.sleep(st["settle"])
        for j in range(2):
            q = make_query(kind, f"calm{n}{j}", 50, j)
            k, r = await outcome(w, proto.query(q), "query", token="calm")
            if k != "ok":
                w.fail("not-recovered", f"{kind}: faults stopped and device up, yet query {j + 1} failed with {k}: {str(r)[:300]}")
                break
            if r != expected(kind, q):
                w.fail("wrong-answer", f"{kind}: {str(r)[:300]}")
    await proto.close()
