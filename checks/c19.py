"""C19: a firmware update is reported faithfully and always comes to an end."""

from __future__ import annotations

import asyncio
import json

from sim import scenario as sc
from sim.client import cancel_at, gen_fault, outcome

ID = "C19"
QUICK = 4000
THOROUGH = 120000
RULE = ("Seeded plan: any recorded SMART device with updatable firmware; a simulated update (waiting, downloading at any speed, flashing "
        "with any announced time, restarting for any time, new version) which succeeds, fails with any code, is aborted, hangs, or whose "
        "device never comes back; answers with error codes and lost, delayed or cut messages at any point; slow or failing progress "
        "callbacks; other updates and commands of the same object meanwhile; the call cancelled at any moment.")
MAX_STEPS = 600000
ASSUMPTIONS = ["the device leaves the idle state before it answers the request which starts the update",
               "the request which starts the update may be repeated when its answer was lost",
               "the bound is the 5 minutes of the implementation, plus the start request, plus half a minute"]
LIMIT = 300
FAULTS = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_after", "stall_mid", "rst_mid", "delay", "session_lost"]
POOL = None


def prepare():
    global POOL
    sc.prepare()
    if POOL is None:
        POOL = []
        for p in sc.MODELS:
            raw = json.load(open(p))
            comps = {c["id"] for c in (raw.get("component_nego") or {}).get("component_list", [])}
            if {"firmware", "cloud_connect"} <= comps:
                POOL.append(p)


def gen(rng, i):
    prepare()
    plan = {"path": POOL[i % len(POOL)], "latency": rng.choice([[0.0005, 0.003], [0.001, 0.02], [0.02, 0.2]]),
            "type": rng.choice([0, 1, 1, 1, 1, 2, 3]), "ver": f"9.{rng.randint(0, 9)}.{rng.randint(0, 99)} Build 260101",
            "date": rng.choice(["2026-01-01", "", "2025-12-24"]),
            "wait": rng.choice([0, 0.3, 2, 10]), "load": rng.choice([0, 1, 5, 30, 120, 200, 290, 400]), "flash": rng.choice([0, 2, 5, 20, 60]),
            "announce": rng.choice([0, 1, 5, 5, 5, 20, 60, 120]), "down": rng.choice([0, 0, 1, 5, 15, 40, 100]), "how": rng.choice(["rst", "fin", "mute"]),
            "end": rng.choices(["ok", "fail", "abort", "hang", "gone", "odd", "refuse"], (8, 3, 1, 1.5, 1, 1, 0.6))[0],
            "when": round(rng.random(), 3), "code": rng.choice([-1, -2, -1002, -1901, -9]),
            "odd": rng.choice([1, 4, 5, 7, 100]), "cb": rng.choice(["plain", "plain", "none", "slow", "raise"]), "faults": [], "errors": [], "others": []}
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        f = gen_fault(rng, FAULTS)
        f.pop("skip", None)
        plan["faults"].append({"at": round(rng.random() * rng.choice([5, 60, 300]), 2), "f": f})
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        plan["errors"].append([round(rng.random() * rng.choice([5, 60, 300]), 2), rng.choice([1, 5, 30]), rng.choice([-1008, -1, -1001, 1112, -40401])])
    if rng.random() < 0.3:
        plan["others"] = [round(rng.random() * 200, 2) for _ in range(rng.randint(1, 8))]
    if rng.random() < 0.15:
        plan["cancel"] = rng.choice([rng.randint(0, 60), rng.randint(0, 3000)])
    return plan


class Upgrade:
    """The device's side of one firmware update."""

    def __init__(self, w, s, plan):
        self.w, self.node, self.dev, self.plan = w, s.model, s.dev, plan
        self.start = None
        self.triggers = 0
        self.answers = []       # (time, state) of every answered poll
        self.restarted = False
        self.final_at = None    # when the final state can first be reported
        n = self.node
        n.hook["fw_download"] = self.trigger
        n.hook["get_fw_download_state"] = self.state
        n.info["get_connect_cloud_state"] = {"status": 0}
        n.info["get_latest_fw"] = {"type": plan["type"], "need_to_upgrade": plan["type"] != 0, "fw_ver": plan["ver"], "release_date": plan["date"],
                                   "release_note": "notes", "fw_size": 100, "oem_id": "", "hw_id": ""}

    def trigger(self, params):
        self.triggers += 1
        if self.plan["end"] == "refuse":
            return {"error_code": self.plan["code"]}
        if self.start is None:
            p, loop = self.plan, self.w.loop
            self.start = self.w.now
            e, total = p["end"], p["wait"] + p["load"] + p["flash"]
            if e in ("fail", "abort"):
                self.final_at = self.start + total * p["when"]
            elif e in ("ok", "gone"):
                loop.call_later(total, self.restart)
                if e == "ok":
                    self.final_at = self.start + total + p["down"]
        return {"error_code": 0}

    def restart(self):
        self.restarted = True
        down = self.plan["down"] if self.plan["end"] == "ok" else 1e7
        self.dev.reboot(down, self.plan["how"])
        self.w.fault("device_restart" if self.plan["end"] == "ok" else "device_gone")
        self.node.dev["fw_ver"] = self.plan["ver"]

    def state(self, params):
        w, p = self.w, self.plan
        t = w.now - (self.start if self.start is not None else w.now)
        for at, secs, code in p["errors"]:
            if self.start is not None and at <= t < at + secs:
                w.fault("error_answer")
                return {"error_code": code}
        st = {"status": 0, "download_progress": 0, "reboot_time": 5, "upgrade_time": p["announce"], "auto_upgrade": False}
        if self.start is not None:
            e = p["end"]
            over = self.final_at is not None and w.now >= self.final_at - 1e-9
            if over and e == "fail":
                st["status"] = p["code"]
            elif over and e == "abort":
                st["status"] = 0
            elif self.restarted:
                st.update(status=0, download_progress=100)
            else:
                if e == "hang":
                    t = min(t, (p["wait"] + p["load"] + p["flash"]) * p["when"])
                if t < p["wait"]:
                    st["status"] = p["odd"] if e == "odd" else 1
                elif t < p["wait"] + p["load"] or e == "hang" and not p["flash"]:
                    st.update(status=2, download_progress=int(100 * (t - p["wait"]) / max(p["load"], 1e-3)))
                else:
                    st.update(status=3, download_progress=100)
                    if e == "odd":
                        st["status"] = p["odd"]
                if e == "odd" and t >= p["wait"] + p["load"] + p["flash"]:
                    st["status"] = 0
                    if self.final_at is None:
                        self.final_at = w.now
        self.answers.append((w.now, st))
        return {"error_code": 0, "result": st}


def key(st):
    g = st.get if isinstance(st, dict) else lambda k: getattr(st, "progress" if k == "download_progress" else k)
    return tuple(g(k) for k in ("status", "download_progress", "reboot_time", "upgrade_time", "auto_upgrade"))


async def run(w, plan):
    from kasa import Module

    s = sc.Scenario(w, plan)
    up = Upgrade(w, s, plan)
    if not await s.connect():
        return
    kd, dev, name = s.kd, s.dev, s.model.model_name
    fw = kd.modules.get(Module.Firmware)
    if fw is None:
        return
    w.nontrivial = True
    k, v = await outcome(w, fw.update(), "update without check")
    if k != "kasa" or up.triggers:
        w.fail("unchecked", f"{name}: update without knowing of a new version: {k}, triggered {up.triggers} times")
        return
    k, v = await outcome(w, fw.check_latest_firmware(), "check")
    if k != "ok" or v is None or (v.version, v.status) != (plan["ver"], plan["type"]) or fw.update_available is not (plan["type"] != 0) \
            or fw.latest_firmware != plan["ver"] or str(v.release_date or "") != plan["date"]:
        w.fail("info", f"{name}: the device offers {s.model.info['get_latest_fw']} but the library shows {k} {v} {fw.update_available} {fw.latest_firmware}")
        return
    if not plan["type"]:
        k, v = await outcome(w, fw.update(), "update without offer")
        if k != "kasa" or up.triggers:
            w.fail("unoffered", f"{name}: update although none is available: {k}, triggered {up.triggers} times")
        await kd.disconnect()
        return
    seen = []

    async def cb(st):
        seen.append(key(st))
        w.log("progress", state=key(st))
        if plan["cb"] == "slow":
            await asyncio.sleep(3)
        if plan["cb"] == "raise":
            raise ValueError("callback")

    t0 = w.now
    hs = [w.loop.call_later(f["at"], lambda f=f: dev.arm([f["f"]], [])) for f in plan["faults"]]

    async def other(at):
        await asyncio.sleep(at)
        await outcome(w, kd.update(), "other")

    bg = [asyncio.ensure_future(other(t)) for t in plan["others"]]
    task = asyncio.ensure_future(fw.update(None if plan["cb"] == "none" else cb))
    if plan.get("cancel") is not None:
        cancel_at(w, task, plan["cancel"])
    k, v = await outcome(w, task, "firmware update")
    took = w.now - t0
    t1 = w.now
    polls = len(up.answers)
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    for h in hs:
        h.cancel()
    dev.disarm()
    w.stats["update_" + k] += 1
    w.stats["end_" + plan["end"]] += 1
    lost = sum(w.faults.get(f, 0) for f in FAULTS) + dev.reboots
    # ends in bounded time
    began = (up.start if up.start is not None else t1) - t0
    slack = 30 + 26 * bool(plan["others"])
    if took > began + LIMIT + slack:
        w.fail("too-long", f"{name}: the update call took {took:.1f} s")
    if k.startswith("raw:"):
        w.fail("raw-error", f"{name}: the update call ended with {k} {v!r}, which is not an error of the library")
    # triggered once
    if up.triggers > 1 + lost or (k != "cancelled" and not up.triggers and not lost):
        w.fail("triggers", f"{name}: the update was started {up.triggers} times ({k}; {lost} messages lost)")
    if plan["end"] == "refuse":
        if k == "ok":
            w.fail("refused", f"{name}: the device refused the update with {plan['code']}, the call returned {v}")
        w.stats["refused"] += 1
        return await end(w, s, bg)
    # reports what the device says, in order, once
    if plan["cb"] != "none":
        told = [key(st) for _, st in up.answers[:polls]]
        it = iter(told)
        if not all(x in it for x in seen):
            w.fail("progress", f"{name}: progress reported {seen}, but the device said {told}")
        elif len(seen) < len(told) - lost - (k != "ok"):
            w.fail("progress-lost", f"{name}: only {len(seen)} of {len(told)} states of the device were reported ({lost} messages lost)")
        if k == "ok" and (not seen or seen[-1][0] != v["status"] or seen[-1][1] != v["progress"]):
            w.fail("result", f"{name}: the call returned {v}, the last reported state is {seen[-1:]}")
    # the right result
    if k == "ok":
        last = up.answers[polls - 1][1] if polls else None
        if last is None or (v["status"], v["progress"]) != (last["status"], last["download_progress"]) and not lost:
            w.fail("result", f"{name}: the call returned {v} but the device's last answer is {last}")
        if v["status"] > 0 or up.final_at is None or t1 < up.final_at:
            w.fail("not-over", f"{name}: the call returned {v} although the update was not over")
    # returns when the device reports completion
    if up.final_at is not None and k not in ("cancelled", "ok") and (polls or not lost):
        due = up.final_at + plan["announce"] + 30 + 30 * len(plan["faults"]) + sum(e[1] for e in plan["errors"])
        if due < up.start + LIMIT and k != "cancelled":
            w.fail("not-returned", f"{name}: the update was over {up.final_at - t0:.1f} s after its start, the call ended with {k} {v} after {took:.1f} s")
    elif k == "ok" and up.final_at is not None:
        due = up.final_at + plan["announce"] + 30 + 30 * len(plan["faults"]) + 26 * bool(plan["others"]) + sum(e[1] for e in plan["errors"])
        if t1 > due:
            w.fail("late", f"{name}: the update was over {up.final_at - t0:.1f} s after its start, the call returned only after {took:.1f} s")
    await end(w, s, bg)
    if w.violations or plan["end"] == "gone" or k == "cancelled":
        return
    # afterwards the device shows its new version, and nothing is polled any more
    await asyncio.sleep(2)     # what was under way
    n = len(up.answers)
    await asyncio.sleep(400)
    if len(up.answers) > n:
        w.fail("polls-on", f"{name}: the state of the update is polled after the call has ended")
    k, v = await outcome(w, kd.update(), "update")
    if k != "ok":
        w.fail("update", f"{name}: update after the firmware update: {k} {v}")
    elif fw.current_firmware != s.model.dev["fw_ver"]:
        w.fail("version", f"{name}: shows firmware {fw.current_firmware}, the device runs {s.model.dev['fw_ver']}")
    await outcome(w, kd.disconnect(), "disconnect")


async def end(w, s, bg):
    for t in bg:
        t.cancel()
    if bg:
        await asyncio.wait(bg)
