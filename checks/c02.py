"""C02: requests of one device connection never overlap; nobody starves."""

import asyncio

from sim.client import KINDS, cancel_at, default_creds, gen_fault, gen_latency, gen_seg, make_protocol, outcome
from sim.device import Device
from sim.echo import expected, make_app, make_query, STYLE

ID = "C02"
QUICK = 6000
THOROUGH = 150000
RULE = ("Seeded plan: transport, latency, 2-6 concurrent tasks on one connection object (parent and child channels), random "
        "start offsets, faults and cancellations.")
FAULTS = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_after", "stall_mid", "delay", "session_lost"]


def gen(rng, i):
    kind = KINDS[i % len(KINDS)]
    tasks = []
    n = 0
    for t in range(rng.randint(2, 6)):
        ops = []
        for _ in range(rng.randint(1, 4)):
            n += 1
            op = {"token": f"t{n}", "size": rng.choice([0, 10, 2000]), "form": rng.choice([0, 0, 0, 1]),
                  "retry": rng.choice([0, 1, 3]), "gap": round(rng.choice([0, 0, 0.01, 0.1]) * rng.random(), 4),
                  "child": rng.choice([0, 0, 1, 2])}
            if rng.random() < 0.2:
                op["cancel"] = rng.choice([rng.randint(1, 30), rng.randint(10, 200)])
            ops.append(op)
        tasks.append({"ops": ops, "start": round(rng.choice([0, 0, 0.01, 0.1]) * rng.random(), 4)})
    return {"kind": kind, "latency": gen_latency(rng), "tasks": tasks, "seg": gen_seg(rng) if rng.random() < 0.3 else None,
            "timeout": 2, "faults": [gen_fault(rng, FAULTS) for _ in range(rng.choice([0, 0, 1, 3]))]}


def watch_overlap(w, dev):
    def on_send(conn):
        if conn.host is not dev.host:
            return
        for c in w.net.open_conns:
            if c is not conn and c.host is dev.host and c.client_open and c.inflight:
                w.fail("overlap", f"{dev.kind}: request sent on connection {conn.no} while the one on connection {c.no} "
                                  "is neither answered nor abandoned")
    w.net.on_client_send = on_send


def check_overlaps(w, dev):
    for t, what in dev.overlaps:
        w.fail("overlap", f"{dev.kind}: {what}")


async def run(w, plan):
    kind = plan["kind"]
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"])
    dev.default_seg = plan["seg"]
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=plan["timeout"])
    watch_overlap(w, dev)
    dev.arm(plan["faults"])
    children = {}
    if STYLE[kind] == "smart":
        from kasa.protocols.smartprotocol import _ChildProtocolWrapper
        children = {c: _ChildProtocolWrapper(f"child{c}", proto) for c in (1, 2)}
    elif STYLE[kind] == "cam":
        from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper
        children = {c: _ChildCameraProtocolWrapper(f"child{c}", proto) for c in (1, 2)}
    w.nontrivial = len(plan["tasks"]) > 1

    async def query(op):
        p = children.get(op["child"])
        form = op["form"]
        if p is not None:
            q = {"echoX": {"token": op["token"], "size": op["size"]}}
            exp = None
        else:
            p = proto
            q = make_query(kind, op["token"], op["size"], form)
            exp = expected(kind, q)
        k, r = await outcome(w, p.query(q, retry_count=op["retry"]), "query", token=op["token"])
        w.stats["out_" + k.split(":")[0]] += 1
        if k == "ok" and exp is not None and r != exp:
            w.fail("wrong-answer", f"{kind}: {op['token']} got {str(r)[:200]}")

    async def task(t):
        await asyncio.sleep(t["start"])
        for op in t["ops"]:
            await asyncio.sleep(op["gap"])
            ct = asyncio.create_task(query(op))
            if "cancel" in op:
                cancel_at(w, ct, op["cancel"])
            await asyncio.wait([ct])
            if not ct.cancelled():
                ct.result()

    tasks = [asyncio.create_task(task(t)) for t in plan["tasks"]]
    nops = sum(len(t["ops"]) for t in plan["tasks"])
    # every query is bounded; so the whole batch is
    done, pend = await asyncio.wait(tasks, timeout=nops * 4 * 30 + 60)
    if pend:
        w.fail("starved", f"{kind}: {len(pend)} tasks still waiting after {nops * 120 + 60} s")
        for p in pend:
            p.cancel()
    for t in done:
        t.result()
    check_overlaps(w, dev)
    await proto.close()
