"""C04: retries stay within budget and cure transient failures."""

import asyncio

from checks.c03 import STEPS
from sim.client import HTTP, KINDS, default_creds, make_protocol, outcome
from sim.device import Device
from sim.echo import STYLE, expected, make_app, make_query

ID = "C04"
QUICK = 8000
THOROUGH = 250000
RULE = ("Seeded plan: transport, retry count and one of five modes: transient faults on at most `retry` attempts (any step), a "
        "fault that never ends, rejected credentials, an authentication code mid-session, a random mix of codes and faults.")
RETRYABLE = [1002, 1112, -1001, 9999, -40401, -40413]
AUTH = [-1501, 1111, -1005, 1100, 1003, -40412]
TRANS = ["drop_req", "drop_reply", "stall_mid", "delay", "rst_before", "rst_after", "fin_before", "fin_after"]
CONN = ["refuse", "accept_rst", "accept_fin", "accept_mute", "blackhole", "unreachable"]


def tfault(rng, kind, timeout):
    r = rng.random()
    if r < 0.12 and kind in HTTP and kind != "linkie":
        return {"kind": "session_lost", "only": "request"}
    if r < 0.3 and STYLE[kind] != "iot":
        f = {"kind": "inner_code", "only": "request", "code": rng.choice(RETRYABLE)}
        if kind.startswith("klap"):
            f["kind"] = "outer_code"
        return f
    f = {"kind": rng.choice(TRANS)}
    if f["kind"] == "stall_mid":
        f["frac"] = round(rng.random() * 0.95, 3)
    if f["kind"] == "delay":
        f["delay"] = timeout + 1.5
    if rng.random() < 0.7:
        f["only"] = rng.choice(STEPS[kind])
    return f


def gen(rng, i):
    kind = KINDS[i % len(KINDS)]
    timeout = rng.choice([1, 3])
    plan = {"kind": kind, "latency": rng.choice([[0.0005, 0.002], [0.001, 0.02]]), "timeout": timeout,
            "retry": rng.choice([0, 1, 2, 3, 3, 5]), "warm": rng.random() < 0.4, "form": rng.choice([0, 0, 1, 2, 3]),
            "mode": rng.choice(["cure", "cure", "cure", "forever", "forever", "authcode", "wrong", "mix", "conn"])}
    if plan["mode"] == "cure":
        plan["rounds"] = [[tfault(rng, kind, timeout) for _ in range(rng.randint(0, plan["retry"]))] for _ in range(rng.randint(1, 3))]
        if kind in HTTP and rng.random() < 0.3 and plan["retry"] > plan["warm"]:
            # cutting the warm connection and refusing the next one are faults too
            plan["rounds"][0] = plan["rounds"][0][:plan["retry"] - 1 - plan["warm"]]
            plan["conn"] = [{"kind": rng.choice(CONN)}]
    elif plan["mode"] == "forever":
        plan["fault"] = tfault(rng, kind, timeout)
        plan["fault"].setdefault("only", "request")
        plan["form"] = 0
    elif plan["mode"] == "authcode":
        plan["fault"] = {"kind": "outer_code" if kind.startswith("klap") else "inner_code", "only": "request", "code": rng.choice(AUTH)}
        plan["form"] = 0
    elif plan["mode"] == "conn":
        plan["fault"] = {"kind": rng.choice(CONN)}
    elif plan["mode"] == "mix":
        plan["form"] = 0
        plan["rounds"] = [[tfault(rng, kind, timeout) for _ in range(rng.randint(0, 8))] for _ in range(rng.randint(1, 3))]
    return plan


async def run(w, plan):
    kind, retry, mode = plan["kind"], plan["retry"], plan["mode"]
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"])
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=plan["timeout"])

    def count(step):
        return sum(1 for x in dev.xlog if x[1] == step)

    async def query(tok, retry=retry, p=proto):
        q = make_query(kind, tok, 30, plan["form"])
        k, r = await outcome(w, p.query(q, retry_count=retry), "query", token=tok)
        w.stats[f"{mode}_{k}"] += 1
        if k == "ok" and r != expected(kind, q):
            w.fail("wrong-answer", f"{kind}: {tok}: {str(r)[:200]}")
        return k, r

    if plan["warm"]:
        k, r = await query("warm")
        if k != "ok":
            w.fail("not-cured", f"{kind}: fault-free query failed: {r}")
    if mode in ("cure", "mix"):
        for n, faults in enumerate(plan["rounds"]):
            dev.disarm()
            dev.arm(faults, plan.get("conn", []) if n == 0 else [])
            if n == 0 and plan.get("conn"):
                dev.host.cut_all("rst")
            n0 = count("request")
            b0 = sum(w.faults.values())
            k, r = await query(f"t{n}")
            hit = sum(w.faults.values()) - b0
            if mode == "cure" and k != "ok":
                w.fail("not-cured", f"{kind}: {hit} transient faults within {retry} retries, yet the query failed with {k}: {str(r)[:200]}")
            if plan["form"] == 0 and count("request") - n0 > retry + 1:
                w.fail("over-budget", f"{kind}: {count('request') - n0} requests sent for one query with retry_count={retry}")
    elif mode == "forever":
        f = plan["fault"]
        if f["only"] != "request" and plan["warm"]:
            dev.lose_sessions()
            w.net  # the client finds out by itself
        if plan["warm"] and f["only"] not in ("request",):
            return await proto.close()
        dev.arm([f] * 200)
        n0 = count(f["only"])
        k, r = await query("t")
        n = count(f["only"]) - n0
        if f["only"] == "login" and kind.startswith("sslaes") and kind != "sslaes_plain":
            pass
        elif n != retry + 1 and not (n == 0 and k == "ok"):
            w.fail("attempts", f"{kind}: {f['kind']} on every {f['only']}: {n} attempts made with retry_count={retry} ({k})")
        if n and k == "ok":
            w.fail("no-error", f"{kind}: {f['kind']} on every {f['only']} and yet the query returned")
    elif mode == "authcode":
        if STYLE[kind] == "iot":
            return await proto.close()
        dev.arm([plan["fault"]] * 50)
        n0 = count("request")
        k, r = await query("t")
        n = count("request") - n0
        if k != "auth" or n != 1:
            w.fail("auth-retried", f"{kind}: authentication error code {plan['fault']['code']}: {n} attempts, outcome {k}")
    elif mode == "conn":
        if plan["warm"]:
            dev.host.cut_all("rst")
        dev.arm([], [plan["fault"]] * 200)
        n0 = len(dev.host.connect_times)
        k, r = await query("t")
        n = len(dev.host.connect_times) - n0
        for _ in range(1):
            w.faults[plan["fault"]["kind"]] = w.faults.get(plan["fault"]["kind"], 0)
        want = retry + 1
        lost = 1 if plan["warm"] else 0
        if kind == "xor" and plan["fault"]["kind"] in ("refuse", "unreachable"):
            ok = 1 - lost <= n <= 1
        else:
            ok = want - lost <= n <= want
        if not ok:
            w.fail("attempts", f"{kind}: {plan['fault']['kind']} on every connection: {n} connections attempted with retry_count={retry} ({k})")
        if k in ("ok", "auth"):
            w.fail("no-error", f"{kind}: no connection possible, outcome {k}")
    elif mode == "wrong":
        if kind in ("xor", "linkie"):
            return await proto.close()
        w.nontrivial = True
        counts = []
        for n, rt in ((0, 0), (1, retry)):
            d = Device(w, f"10.0.1.{n + 1}", make_app(kind), kind=kind, creds=(default_creds(kind)[0], "Different9"), latency=plan["latency"])
            p = make_protocol(kind, d.ip, default_creds(kind), timeout=plan["timeout"])
            k, r = await query(f"w{n}", rt, p)
            counts.append((len(d.xlog), d.handshakes, d.logins))
            await p.close()
            if k != "auth":
                w.fail("auth-class", f"{kind}: rejected credentials surfaced as {k}: {r}")
        if counts[0] != counts[1]:
            w.fail("auth-retried", f"{kind}: rejected credentials: {counts[0]} exchanges without retries, {counts[1]} with {retry}")
    # whatever happened, the connection is usable again
    dev.disarm()
    k, r = await query("end", 3)
    if k != "ok":
        w.fail("not-cured", f"{kind}: fault-free query after the faults failed with {k}: {str(r)[:200]}")
    await proto.close()
