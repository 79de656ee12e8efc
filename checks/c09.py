"""C09: sessions are renewed before they expire, transparently to the user."""

import asyncio

from checks.c03 import child_of
from sim.client import cancel_at, default_creds, gen_fault, make_protocol, outcome
from sim.device import Device
from sim.echo import STYLE, expected, make_app, make_query

ID = "C09"
QUICK = 6000
THOROUGH = 150000
BUFFER = 1200
DAY = 86400
KINDS9 = ["klap1", "klap2", "klap2s", "aes", "aes2", "ssl", "sslaes", "sslaes_md5", "sslaes_plain"]
RULE = ("Seeded plan: session transport, announced (or missing) session lifetime, queries separated by idle periods around the "
        "renewal and expiry instants, devices that forget or expire sessions early or reboot, wall clock jumps, faults and cancellations.")


def gen(rng, i):
    kind = KINDS9[i % len(KINDS9)]
    announce = kind == "ssl" or rng.random() < 0.75
    if kind == "ssl" or not announce or kind.startswith("sslaes"):
        life = DAY
    else:
        life = rng.choice([DAY, DAY, DAY, 3600, 7200, 1500, 1210, 1190, 600, 60, 200000])
    mode = rng.choice(["calm", "calm", "calm", "forget", "forget", "faults", "faults", "jump"])
    ops = []
    for n in range(rng.randint(2, 10)):
        base = rng.choice([0, 0, 1, 60, life / 2, life - BUFFER, life - BUFFER, life, life, DAY, 3 * DAY])
        op = {"token": f"t{n}", "gap": round(max(0, base + rng.uniform(-30, 30) * (base > 0)), 3), "child": rng.random() < 0.1,
              "form": rng.choice([0, 0, 0, 1]), "par": rng.choice([1, 1, 1, 3]), "retry": 1}
        if mode == "forget":
            op["pre"] = rng.choice(["none", "none", "lose", "reboot", "early"])
            op["retry"] = rng.choice([1, 3])
        elif mode == "faults":
            op["faults"] = [gen_fault(rng, ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_after", "stall_mid", "session_lost", "delay"])
                            for _ in range(rng.choice([0, 1, 1, 2, 4]))]
            op["retry"] = rng.choice([0, 1, 3])
            if rng.random() < 0.4:
                op["cancel"] = rng.randint(1, 90)
        elif mode == "jump":
            op["jump"] = rng.choice([0, 0, -DAY, -3600, 3600, DAY, 400 * DAY, -400 * DAY])
            op["retry"] = rng.choice([1, 3])
        ops.append(op)
    return {"kind": kind, "mode": mode, "announce": announce, "life": life, "latency": rng.choice([[0.0005, 0.002], [0.001, 0.02], [0.02, 0.1]]),
            "timeout": rng.choice([2, 5]), "ops": ops}


async def run(w, plan):
    kind, mode, life = plan["kind"], plan["mode"], plan["life"]
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"],
                 session_timeout=life, announce_timeout=plan["announce"])
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=plan["timeout"])
    knows = not kind.startswith("sslaes")
    w.nontrivial = True

    def setups():
        return dev.logins if kind in ("ssl", "sslaes_plain") else dev.handshakes

    async def query(op, j):
        p, q = proto, make_query(kind, f"{op['token']}.{j}", 20, op["form"])
        want = expected(kind, q)
        if op["child"] and STYLE[kind] != "iot":
            p, q, want = child_of(kind, proto), {"echoX": {"token": op["token"]}}, None
        k, r = await outcome(w, p.query(q, retry_count=op["retry"]), "query", token=op["token"], j=j)
        w.stats[f"{mode}_{k.split(':')[0]}"] += 1
        if k == "ok" and want is not None and r != want:
            w.fail("wrong-answer", f"{kind}: {str(r)[:200]}")
        return k, r

    born = None
    for op in plan["ops"]:
        await asyncio.sleep(op["gap"])
        if op.get("jump"):
            w.jump_wall(op["jump"])
        pre = op.get("pre", "none")
        if pre == "lose":
            dev.lose_sessions()
            w.fault("session_lost")
        elif pre == "early":
            for s in dev.sessions.values():
                s["exp"] = w.now
            w.fault("early_expiry")
        elif pre == "reboot":
            dev.reboot(0, "rst")
            w.fault("reboot")
            await asyncio.sleep(1)
        n0, x0, t0 = setups(), len(dev.xlog), w.now
        dev.disarm()
        dev.arm(op.get("faults", []))
        tasks = [asyncio.create_task(query(op, j)) for j in range(op["par"])]
        if "cancel" in op:
            cancel_at(w, tasks[0], op["cancel"])
        await asyncio.wait(tasks)
        new = setups() - n0
        if mode == "faults":
            born = None
            continue
        res = [t.result() for t in tasks]
        bad = [r for r in res if r[0] != "ok"]
        if bad:
            w.fail("not-transparent", f"{kind}: query with retry_count={op['retry']} failed with {bad[0][0]} ({str(bad[0][1])[:150]}) after "
                                      f"{op['gap']:.1f} s idle, lifetime {life}, session trouble: {pre}, clock jump: {op.get('jump', 0)}")
            continue
        if mode == "calm" and knows:
            age = None if born is None else t0 - born
            tol = 2 + plan["timeout"]
            if age is None or age >= life:
                if new < 1:
                    w.fail("not-renewed", f"{kind}: session aged {age} s was used though its lifetime is {life} s")
            elif age < life - BUFFER - tol and new:
                w.fail("not-reused", f"{kind}: session aged {age:.1f} s (lifetime {life} s) was renewed needlessly")
            if life > BUFFER + 10 and new > 1:
                w.fail("not-reused", f"{kind}: {new} session setups for {op['par']} queries, lifetime {life} s")
        if mode == "calm" and not knows:
            exps = 1 if op["gap"] > 0 else 0
            if new > 1 + exps or (born is not None and w.now - born < life - 5 and new):
                w.fail("not-reused", f"{kind}: {new} session setups although the session is still valid")
        if mode == "forget" and life > BUFFER + 10:
            if pre in ("lose", "early", "reboot") and new < 1:
                w.fail("not-renewed", f"{kind}: query answered without a new session after {pre}")
            if new > 1:
                w.fail("not-reused", f"{kind}: {new} session setups after {pre}")
        if new:
            born = t0
    dev.disarm()
    op = {"token": "end", "form": 0, "retry": 3, "child": False}
    k, r = await query(op, 0)
    if k != "ok":
        w.fail("not-transparent", f"{kind}: final fault-free query failed with {k}: {str(r)[:200]}")
    await proto.close()
    if mode != "jump":
        used = [e for e in w.events if e[2] == "expired_use"]
        if used and not any(op.get("pre") == "early" for op in plan["ops"]):
            w.fail("expired-use", f"{kind}: a request was sent in a session whose lifetime of {life} s had passed (at {used[0][0] - 1000:.1f} s)")
