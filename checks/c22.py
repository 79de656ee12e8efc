"""C22: devices that need pacing are not hammered."""

import asyncio

from checks.c03 import child_of
from sim.client import HTTP, cancel_at, default_creds, gen_fault, make_protocol, outcome
from sim.device import Device
from sim.echo import STYLE, make_app, make_query

ID = "C22"
QUICK = 6000
THOROUGH = 150000
GAP = 0.25
RULE = ("Seeded plan: HTTP transport; several tasks query one device that cuts connections unexpectedly, stays silent, answers "
        "retryable codes or closes every connection, with cancellations and late answers; or discovery with seeded packets and time.")
FAULTS = ["rst_before", "fin_before", "rst_after", "fin_after", "drop_req", "stall_mid", "rst_mid", "fin_mid", "session_lost",
          "delay", "http_status", "corrupt", "none", "none", "none"]


def gen(rng, i):
    if i % 12 == 11:
        return {"kind": "discover", "packets": rng.choice([1, 2, 3, 4, 5, 10]), "dt": rng.choice([1, 2, 5, 7, 10]),
                "single": rng.random() < 0.4, "answer": rng.choice([None, None, round(rng.random(), 3)])}
    kind = HTTP[i % len(HTTP)]
    if i % 4 == 3:
        kind = rng.choice([k for k in HTTP if STYLE[k] != "iot"])
        return {"kind": kind, "mode": "backoff", "latency": [0.001, 0.02], "timeout": rng.choice([1, 2]), "retry": rng.choice([1, 2, 3]),
                "faults": [bfault(rng, kind) for _ in range(rng.randint(1, 3))], "child": rng.random() < 0.2,
                "multi": rng.random() < 0.3, "warm": rng.random() < 0.5}
    tasks = []
    n = 0
    for t in range(rng.choice([1, 1, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(2, 7)):
            n += 1
            op = {"token": f"t{n}", "form": rng.choice([0, 0, 1]), "retry": rng.choice([0, 0, 1, 3]),
                  "gap": round(rng.choice([0, 0, 0, 0.05, 0.2, 0.3, 3, 100]) * rng.random(), 4)}
            if rng.random() < 0.25:
                op["cancel"] = rng.choice([rng.randint(1, 40), rng.randint(1, 120)])
            if rng.random() < 0.4:
                op["faults"] = [gen_fault(rng, FAULTS) for _ in range(rng.randint(1, 2))]
                for f in op["faults"]:
                    if f["kind"] == "http_status":
                        f["status"] = rng.choice([400, 403, 500, 503])
            ops.append(op)
        tasks.append({"ops": ops, "start": round(rng.random() * 0.1, 4)})
    return {"kind": kind, "mode": "gap", "latency": rng.choice([[0.0005, 0.002], [0.001, 0.02], [0.02, 0.1]]), "tasks": tasks,
            "timeout": rng.choice([1, 3, 5]), "close_each": rng.random() < 0.15, "close": rng.random() < 0.15,
            "think": rng.choice([0.0, 0.03, 0.4])}


def bfault(rng, kind):
    if rng.random() < 0.5:
        f = {"kind": "outer_code" if kind.startswith("klap") else "inner_code", "code": rng.choice([1002, 1112, -1001, 9999, -40401, -40413])}
    else:
        f = {"kind": rng.choice(["drop_req", "drop_reply", "stall_mid"]), "frac": 0.4}
    return {**f, "only": "request"}


async def run(w, plan):
    if plan["kind"] == "discover":
        return await discover(w, plan)
    kind = plan["kind"]
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"],
                 close_each=plan.get("close_each", False), think=(0.0, plan.get("think", 0.03)))
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=plan["timeout"])
    if plan["mode"] == "backoff":
        await backoff(w, plan, dev, proto)
        return await proto.close()
    cancels = set()

    async def query(op):
        k, r = await outcome(w, proto.query(make_query(kind, op["token"], 20, op["form"]), retry_count=op["retry"]), "query", token=op["token"])
        w.stats["out_" + k.split(":")[0]] += 1

    async def task(t):
        await asyncio.sleep(t["start"])
        for op in t["ops"]:
            await asyncio.sleep(op["gap"])
            dev.arm([f for f in op.get("faults", []) if f["kind"] != "none"])
            ct = asyncio.create_task(query(op))
            if "cancel" in op:
                orig = ct.cancel

                def fire(ct=ct, orig=orig):
                    if not ct.done():
                        w.fault("cancel")
                        cancels.add(w.now)
                        orig()
                w.at_step(w.steps + op["cancel"], fire)
            await asyncio.wait([ct])
            if plan["close"] and op["token"].endswith("3"):
                await proto.close()
    await asyncio.gather(*[asyncio.create_task(task(t)) for t in plan["tasks"]])
    await proto.close()
    # the device's closing of a connection in place of an answer makes the pacing start
    paced = None
    last = None
    for t, what, _ip, no in w.net.wire:
        if what in ("eof", "rst"):
            if paced is None and t not in cancels:
                paced = t
        if what == "send":
            if paced is not None:
                w.nontrivial = True
                w.stats["paced_requests"] += 1
                if last is not None and last >= paced and t - last < GAP - 1e-6:
                    w.fail("hammered", f"{kind}: request sent {t - last:.4f} s after the end of the previous one at {last - 1000:.4f}; the device "
                                       f"closed its connection unexpectedly at {paced - 1000:.4f}")
                    break
        else:
            last = t
    if paced:
        w.stats["runs_paced"] += 1


async def backoff(w, plan, dev, proto):
    kind = plan["kind"]
    if plan["warm"]:
        await outcome(w, proto.query(make_query(kind, "w", 0, 0)), "query", token="w")
    p = proto
    q = make_query(kind, "x", 10, 1 if plan["multi"] else 0)
    if plan["child"]:
        p, q = child_of(kind, proto), {"echoX": {"token": "x"}}
    t0 = w.now
    dev.arm(plan["faults"])
    n0 = sum(w.faults.values())
    k, r = await outcome(w, p.query(q, retry_count=plan["retry"]), "query", token="x")
    w.stats["backoff_" + k] += 1
    hits = sum(w.faults.values()) - n0
    # every faulty attempt ends with its last wire event; the next attempt starts with the next send
    ev = [e for e in w.net.wire if e[0] >= t0]
    reqs = [x for x in dev.xlog if x[0] >= t0]
    sends = [x[3] for x in reqs if x[1] == "request"][:hits]
    for s in sends:
        end = next((e[0] for e in ev if e[0] > s and e[1] != "send"), None)
        nxt = next((e[0] for e in ev if end is not None and e[0] >= end and e[1] == "send"), None)
        if nxt is not None and nxt - end < 1.0 - 1e-6:
            w.fail("no-backoff", f"{kind}: next attempt {nxt - end:.4f} s after an attempt ended with a timeout or retryable error ({plan['faults']})")


async def discover(w, plan):
    from kasa import Discover
    from sim.net import Host

    w.nontrivial = True
    h = Host(w.net, "10.0.0.9", "bin", (0.001, 0.02))
    if plan["answer"] is not None:
        at = w.now + plan["answer"] * plan["dt"]
        h.udp[9999] = lambda d, tr: w.now >= at and w.net.udp_reply(h, 9999, b"\x01garbage", tr)
    kw = {"discovery_timeout": plan["dt"]}
    n = 3
    if plan["single"]:
        target = h.ip
        k, r = await outcome(w, Discover.discover_single(target, **kw), "discover_single")
    else:
        n = plan["packets"]
        target = "255.255.255.255"
        k, r = await outcome(w, Discover.discover(discovery_packets=n, **kw), "discover")
    t0 = 1000.0
    gap = plan["dt"] / n
    for port in (9999, 20002):
        ts = [t - t0 for t, _no, addr, _d in w.net.udp_sent if addr == (target, port)]
        want = [j * gap for j in range(n)]
        if plan["single"] and plan["answer"] is not None:
            want = want[:len(ts)]
            if not ts:
                w.fail("probes", f"no probe was sent to port {port}")
        if len(ts) != len(want) or any(abs(a - b) > 0.05 for a, b in zip(ts, want)):
            w.fail("probes", f"probes to port {port} at {ts}, expected {want}")
