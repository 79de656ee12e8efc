"""C25: commands are not executed more often than asked, nor after their call ended."""

from __future__ import annotations

import asyncio
import json
import random
import re

from sim import scenario as sc
from sim.client import KINDS, cancel_at, default_creds, gen_fault, gen_latency, make_protocol, outcome
from sim.device import Device
from sim.echo import STYLE, make_app, make_query, tokens_of

ID = "C25"
QUICK = 6000
THOROUGH = 200000
RULE = ("Seeded plan: either every transport with up to 6 commands (single or multi-part, up to 3 at once, any retry count), or any "
        "recorded device with commands through its library object (features, setters, restart, reset, joining a network; also of "
        "children); replies and requests lost, delayed, cut, connections refused, devices rebooting or losing the session, calls "
        "cancelled at any scheduler step or by an outer deadline; afterwards further use, idle time and disconnecting.")
MAX_STEPS = 400000
ASSUMPTIONS = ["a request the library had handed to the network before the call ended may still be executed afterwards"]
FAULTS = ["drop_req", "drop_reply", "drop_reply", "rst_before", "rst_after", "fin_before", "fin_after", "stall_mid", "rst_mid", "delay", "delay",
          "reboot", "session_lost", "garbage", "http_status"]
CONN = ["refuse", "accept_rst", "accept_fin", "accept_mute", "blackhole", "unreachable"]


def prepare():
    sc.prepare()


def gen_faults(rng, kind):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6])):
        f = gen_fault(rng, FAULTS)
        if f["kind"] == "garbage":
            f["how"] = rng.choice(["random", "trunc", "flip", "empty", "text"])
        if f["kind"] == "http_status":
            f["status"] = rng.choice([400, 403, 500, 503])
        if f["kind"] in ("garbage", "http_status", "session_lost") and kind in ("xor",):
            f["kind"] = "drop_reply"
        out.append(f)
    return out


def gen(rng, i):
    prepare()
    plan = {"mode": "echo" if i % 2 else "dev", "latency": gen_latency(rng), "steps": []}
    if plan["mode"] == "echo":
        kind = plan["kind"] = KINDS[(i // 2) % len(KINDS)]
        plan["timeout"] = rng.choice([1, 3])
    else:
        kind = None
        if rng.random() < 0.2:
            plan["path"] = rng.choice(sc.HUBS)
            cam = "smartcam" in plan["path"]
            refs = sc.kid_refs(cam)
            plan["kids"] = [rng.choice(refs) for _ in range(rng.randint(1, 3))]
        else:
            plan["path"] = rng.choice(sc.STRIPS if rng.random() < 0.25 else sc.MODELS)
        plan["latency"] = rng.choice([[0.0005, 0.003], [0.01, 0.1]])
    for _ in range(rng.randint(1, 6)):
        s = {"r": rng.randint(0, 1 << 30), "n": rng.choice([1, 1, 1, 2, 3]), "retry": rng.choice([0, 1, 2, 3, 3, None]),
             "form": rng.choice([0, 0, 1, 2, 3]), "faults": gen_faults(rng, kind or "klap2") if rng.random() < 0.6 else [],
             "conn": [{"kind": rng.choice(CONN), "skip": rng.randint(0, 2)}] if rng.random() < 0.1 else [],
             "gap": rng.choice([0, 0, 0.5, 5, 60, 90000]), "what": rng.choice(["any"] * 5 + ["join", "reset", "alias"])}
        r = rng.random()
        if r < 0.3:
            s["cancel"] = rng.choice([rng.randint(0, 10), rng.randint(0, 60), rng.randint(0, 300)])
        elif r < 0.4:
            s["deadline"] = round(rng.choice([0.01, 0.1, 1, 5]) * (0.2 + rng.random()), 4)
        plan["steps"].append(s)
    return plan


def changes(req):
    """What a request asks to change: [(who, what, with)]."""
    out = []

    def smart(r, who):
        m, p = r.get("method"), r.get("params")
        if m == "multipleRequest":
            for x in p["requests"]:
                smart(x, who)
        elif m == "control_child":
            smart(p["requestData"], p["device_id"])
        elif m == "controlChild":
            c = p["childControl"]
            smart(c["request_data"], c["device_id"])
        elif m and not m.startswith("get") and "component_nego" not in m:
            out.append((who, m, json.dumps(p if m not in ("set", "do") else r, sort_keys=True)))

    if "method" in req:
        smart(req, None)
        return out
    who = ",".join((req.get("context") or {}).get("child_ids", []))
    for t, cmds in req.items():
        if t != "context":
            for c, a in (cmds or {}).items():
                if not c.startswith("get_") and not c.startswith("scan_"):
                    out.append((who, f"{t}.{c}", json.dumps(a, sort_keys=True)))
    return out


async def limited(w, st, coro, what):
    """The call as its user makes it: plain, cancelled, or with a deadline."""
    if st.get("deadline"):
        t = asyncio.ensure_future(asyncio.wait_for(coro, st["deadline"]))
    else:
        t = asyncio.ensure_future(coro)
        if st.get("cancel") is not None:
            cancel_at(w, t, st["cancel"])
    k, v = await outcome(w, t, what)
    if st.get("deadline") and k == "raw:TimeoutError":
        w.fault("deadline")
        k = "cancelled"
    return k, v, w.now


async def echo(w, plan):
    kind = plan["kind"]
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"])
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=plan["timeout"])
    ended = {}      # token -> end of its call
    n = 0

    def judge():
        cnt = {}
        for e in dev.execs:
            for tok in re.findall(r'"token": "(\w[^"]*)"', json.dumps(e["req"])):
                cnt[tok] = cnt.get(tok, 0) + 1
                end = ended.get(tok)
                if end is not None and e["sent"] > end + 1e-9:
                    w.fail("late", f"{kind}: {tok} was sent at {e['sent']:.4f}, its call had ended at {end:.4f}")
        return cnt

    for st in plan["steps"]:
        if w.violations:
            break
        dev.disarm()
        dev.arm(st["faults"], st["conn"])
        # a reboot still under way is a fault too
        whole = dev.host.up and not st["conn"] and plan["latency"][1] < 0.05
        f0 = sum(w.faults.values())
        calls = []
        for _ in range(st["n"]):
            n += 1
            q = make_query(kind, f"t{n}", 20, st["form"])
            kw = {} if st["retry"] is None else {"retry_count": st["retry"]}
            calls.append((q, limited(w, st, proto.query(q, **kw), f"t{n}")))
        res = await asyncio.gather(*(c for _, c in calls))
        w.nontrivial = True
        hits = sum(w.faults.values()) - f0
        clean = whole and not hits
        for (q, _), (k, v, end) in zip(calls, res):
            for tok in tokens_of(q):
                ended[tok] = end
        cnt = judge()
        tries = (3 if st["retry"] is None else st["retry"]) + 1
        for (q, _), (k, v, end) in zip(calls, res):
            w.stats["calls_" + k] += 1
            for tok in tokens_of(q):
                c = cnt.get(tok, 0)
                if k == "ok" and c < 1:
                    w.fail("not-executed", f"{kind}: {tok} returned successfully but was never executed")
                if c > tries:
                    w.fail("too-often", f"{kind}: {tok} was executed {c} times with {tries} attempts")
                if whole and c > 1 + hits:
                    w.fail("too-often", f"{kind}: {tok} was executed {c} times although only {hits} things went wrong")
                # renewing a session which the device ended earlier needs a retry
                if clean and c != 1 and not (tries == 1 and not c and k != "ok"):
                    w.fail("not-once", f"{kind}: {tok} was executed {c} times ({k}) without any fault")
        await asyncio.sleep(st["gap"])
        judge()
    dev.disarm()
    await outcome(w, proto.close(), "close")
    await asyncio.sleep(300)
    cnt = judge()


def extra(w, s, rng, what):
    """A command which is not a feature: (description, coroutine function, may be sent only once)."""
    kd = s.kd
    style = s.model.style
    if what == "join" and style in ("iot", "smart"):
        return f"join{rng.randint(0, 999999)}", lambda name: kd.wifi_join(name, "password"), style == "smart"
    if what == "reset" and style == "iot":
        return "reset", lambda name: kd.factory_reset(), False
    if what == "alias" and style in ("iot", "smart"):
        kids = [k for k in kd.children if k.modules] if kd.children and rng.random() < 0.6 else []
        who = rng.choice(kids) if kids else kd
        return f"alias{rng.randint(0, 999999)}", lambda name: who.set_alias(name), False
    return None


async def device(w, plan):
    s = sc.Scenario(w, plan)
    if not await s.connect():
        return
    s.eng.verify(0)
    if w.violations:
        w.violations.clear()       # judged by C13
    dev = s.dev
    w.nontrivial = True

    def fresh(mark):
        return [(c, e) for e in dev.execs[mark:] for c in changes(e["req"])]

    for st in plan["steps"]:
        if w.violations:
            break
        rng = random.Random(st["r"])
        calls, once = [], False
        x = extra(w, s, rng, st["what"])
        if x is not None:
            calls.append((x[0], x[1](x[0])))
            once = x[2]
        else:
            seen = set()
            for _ in range(st["n"]):
                try:
                    c = s.eng.choose(rng)
                except KeyError:
                    c = None
                if c is not None and repr(c) not in seen:
                    seen.add(repr(c))
                    calls.append((repr(c), c.coro()))
        if not calls:
            continue
        dev.disarm()
        dev.arm(st["faults"], st["conn"])
        f0, mark = sum(w.faults.values()), len(dev.execs)
        res = await asyncio.gather(*(limited(w, st, co, name) for name, co in calls))
        hits = sum(w.faults.values()) - f0
        clean = not hits and not st["conn"]
        end = max(r[2] for r in res)
        cnt = {}
        for c, e in fresh(mark):
            cnt[c] = cnt.get(c, 0) + 1
        names = [name for name, _ in calls]
        for k, _, _ in res:
            w.stats["calls_" + k] += 1
        for c, k in cnt.items():
            if k > 4 * len(calls):
                w.fail("too-often", f"{names}: {c} was executed {k} times")
            if k > len(calls) + hits and not st["conn"]:
                w.fail("too-often", f"{names}: {c} was executed {k} times although only {hits} things went wrong")
            if clean and k > len(calls):
                w.fail("twice", f"{names}: {c} was executed {k} times without any fault")
            if once and k > 1:
                w.fail("repeated", f"{names}: {c} was executed {k} times, but must not be repeated")
        if all(r[0] == "ok" for r in res) and len(calls) == 1 and not cnt and not (once and not clean):
            w.fail("not-executed", f"{names[0]} returned successfully but nothing was executed")
        await asyncio.sleep(min(1, st["gap"]))

        def late(after=len(dev.execs)):
            for c, e in fresh(mark):
                if e["sent"] > end + 1e-9:
                    w.fail("late", f"{names}: {c} was sent at {e['sent']:.4f}, all calls had ended at {end:.4f}")
        late()
        await asyncio.sleep(max(0, st["gap"] - 1))
        late()
        dev.disarm()
        dev.host.up = True
        if w.violations:
            break
        await asyncio.sleep(10)
        await outcome(w, s.kd.update(), "update")
        late()
    if w.violations:
        return
    mark, end, names = len(dev.execs), w.now, ["disconnect"]
    await outcome(w, s.kd.disconnect(), "disconnect")
    await asyncio.sleep(300)
    for c, e in fresh(mark):
        if e["sent"] > end:
            w.fail("late", f"{c} was sent after all calls had ended")


async def run(w, plan):
    await (echo if plan["mode"] == "echo" else device)(w, plan)
