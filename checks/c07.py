"""C07: session keys, sequence numbers, tokens and nonces are never misused."""

import asyncio

from checks.c03 import child_of
from sim.client import cancel_at, default_creds, gen_fault, gen_latency, make_protocol, outcome
from sim.device import Device
from sim.echo import STYLE, expected, make_app, make_query

ID = "C07"
QUICK = 6000
THOROUGH = 200000
KINDS7 = ["klap1", "klap2", "klap2s", "aes", "aes2", "sslaes", "sslaes_md5", "sslaes_plain", "ssl"]
RULE = ("Seeded plan: encrypted transport, two devices of the same owner driven concurrently by several tasks with cancellations, "
        "lost, late and cut exchanges, forgotten sessions, reboots and idle periods; the devices verify every request.")
FAULTS = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_before", "fin_after", "stall_mid", "rst_mid", "fin_mid",
          "delay", "session_lost", "session_lost", "reboot", "none", "none"]


def gen(rng, i):
    kind = KINDS7[i % len(KINDS7)]
    tasks = []
    n = 0
    for t in range(rng.randint(1, 4)):
        ops = []
        for _ in range(rng.randint(1, 7)):
            n += 1
            op = {"token": f"t{n}", "size": rng.choice([0, 10, 300]), "form": rng.choice([0, 0, 1, 2]), "dev": rng.choice([0, 0, 1]),
                  "retry": rng.choice([0, 1, 3]), "gap": round(rng.choice([0, 0, 0.01, 1, 10, 3000, 90000]) * rng.random(), 4),
                  "child": rng.random() < 0.15}
            if rng.random() < 0.35:
                op["cancel"] = rng.choice([rng.randint(1, 40), rng.randint(1, 150)])
            if rng.random() < 0.35:
                op["faults"] = [gen_fault(rng, FAULTS) for _ in range(rng.randint(1, 3))]
            ops.append(op)
        tasks.append({"ops": ops, "start": round(rng.random() * 0.1, 4)})
    return {"kind": kind, "latency": rng.choice([[0.0005, 0.002], [0.001, 0.02], [0.02, 0.2]]), "tasks": tasks,
            "timeout": rng.choice([1, 2, 5]), "life": rng.choice([86400, 86400, 1500, 3600, 600]), "close": rng.random() < 0.1}


async def run(w, plan):
    kind = plan["kind"]
    devs = [Device(w, f"10.0.0.{5 + j}", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"],
                   session_timeout=plan["life"]) for j in range(2)]
    protos = [make_protocol(kind, d.ip, d.creds, timeout=plan["timeout"]) for d in devs]

    async def query(op):
        p, q = protos[op["dev"]], make_query(kind, op["token"], op["size"], op["form"])
        if op["child"] and STYLE[kind] != "iot":
            p = child_of(kind, p)
            q = {"echoX": {"token": op["token"]}}
        k, r = await outcome(w, p.query(q, retry_count=op["retry"]), "query", token=op["token"])
        w.stats["out_" + k.split(":")[0]] += 1

    async def task(t):
        await asyncio.sleep(t["start"])
        for op in t["ops"]:
            await asyncio.sleep(op["gap"])
            devs[op["dev"]].arm([f for f in op.get("faults", []) if f["kind"] != "none"])
            ct = asyncio.create_task(query(op))
            if "cancel" in op:
                cancel_at(w, ct, op["cancel"])
            await asyncio.wait([ct])
            if plan["close"] and op["token"].endswith("3"):
                await protos[op["dev"]].close()
    w.nontrivial = True
    await asyncio.gather(*[asyncio.create_task(task(t)) for t in plan["tasks"]])
    for d in devs:
        d.disarm()
    for j in range(2):
        await query({"token": f"end{j}", "size": 10, "form": 0, "retry": 3, "dev": j, "child": False})
        await protos[j].close()
    for d in devs:
        if d.bad:
            w.fail("misuse", f"{d.bad[0][1]} (at {d.bad[0][0] - 1000:.3f}; {len(d.bad)} in all)")
    shared = set(devs[0].seen_seeds) & set(devs[1].seen_seeds)
    if shared:
        w.fail("misuse", f"{kind}: the same client nonce was used towards two devices")
    w.stats["handshakes"] += sum(d.handshakes for d in devs)
