"""C01: a query's result is the device's answer to that very query."""

import asyncio

from sim.client import (KINDS, cancel_at, default_creds, gen_fault, gen_latency, gen_seg, make_protocol, outcome)
from sim.device import Device
from sim.echo import expected, make_app, make_query

ID = "C01"
QUICK = 2400
THOROUGH = 60000
RULE = ("Seeded plan: transport, latency, reply segmentation, 1-3 concurrent client tasks issuing token-carrying queries of "
        "several shapes and sizes, faults on exchanges (loss, late replies, cuts, stalls, resets, session loss, reboot), "
        "cancellations at arbitrary scheduler steps.")
FAULTS = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_before", "fin_after", "stall_mid", "rst_mid", "fin_mid",
          "delay", "delay", "session_lost", "reboot", "trickle", "none"]


def gen(rng, i):
    kind = KINDS[i % len(KINDS)]
    tasks = []
    n = 0
    for t in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 6)):
            n += 1
            op = {"token": f"t{n}", "size": rng.choice([0, 0, 10, 300, 3000, 20000]), "form": rng.choice([0, 0, 1, 2, 3]),
                  "retry": rng.choice([0, 0, 1, 3]), "gap": round(rng.choice([0, 0, 0.01, 1, 6]) * rng.random(), 4)}
            if rng.random() < 0.35:
                op["cancel"] = rng.choice([rng.randint(1, 30), rng.randint(1, 120), rng.randint(20, 400)])
            elif rng.random() < 0.15:
                op["wait_for"] = round(rng.random() * rng.choice([0.05, 0.5, 6]), 4)
            if rng.random() < 0.3:
                op["faults"] = [gen_fault(rng, FAULTS) for _ in range(rng.randint(1, 3))]
            ops.append(op)
        tasks.append({"ops": ops, "start": round(rng.random() * 0.1, 4)})
    return {"kind": kind, "latency": gen_latency(rng), "tasks": tasks, "seg": gen_seg(rng) if rng.random() < 0.5 else None,
            "timeout": rng.choice([1, 2, 5]), "close_each": rng.random() < 0.1 and kind != "xor"}


async def run(w, plan):
    kind = plan["kind"]
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"],
                 close_each=plan["close_each"])
    dev.default_seg = plan["seg"]
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=plan["timeout"])

    async def query(op):
        q = make_query(kind, op["token"], op["size"], op["form"])
        k, r = await outcome(w, proto.query(q, retry_count=op["retry"]), "query", token=op["token"])
        w.stats["out_" + k.split(":")[0]] += 1
        if k == "ok":
            exp = expected(kind, q)
            if r != exp:
                w.fail("wrong-answer", f"{kind}: query {op['token']} returned {short(r)} but the device's answer is {short(exp)}")
        return k

    async def task(t):
        await asyncio.sleep(t["start"])
        for op in t["ops"]:
            await asyncio.sleep(op["gap"])
            dev.arm([f for f in op.get("faults", []) if f["kind"] != "none"])
            ct = asyncio.create_task(query(op))
            if "cancel" in op:
                cancel_at(w, ct, op["cancel"])
            if "wait_for" in op:
                w.nontrivial = True
                try:
                    async with asyncio.timeout(op["wait_for"]):
                        await ct
                except TimeoutError:
                    w.fault("caller_timeout")
            else:
                await asyncio.wait([ct])
                if not ct.cancelled():
                    ct.result()
    if len(plan["tasks"]) > 1:
        w.nontrivial = True
    await asyncio.gather(*[asyncio.create_task(task(t)) for t in plan["tasks"]])
    dev.disarm()
    # fault-free closing query: late replies of the past must not be taken for it
    for j in range(2):
        await query({"token": f"end{j}", "size": 100, "form": 0, "retry": 3})
    await proto.close()


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:150] + "..." + s[-100:]
