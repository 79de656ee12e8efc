"""C24: the command line tool acts on the addressed device and reports what happened."""

from __future__ import annotations

import base64
import json
import random
import re

from checks import c12
from checks.c08 import TRANS, WRONG, hash_of
from sim import features as ft
from sim import models
from sim import scenario as sc
from sim.cli import run_cli
from sim.client import CTYPE, default_creds, gen_fault, outcome
from sim.disco import announce
from sim.models import diff

ID = "C24"
QUICK = 6000
THOROUGH = 150000
RULE = ("Seeded plan: one addressed recorded device (or a child of it) and 0-2 bystanders on the same network; the whole tool is run as a process "
        "would run it, 1-3 times, with the device addressed by address, name, alias or connection options, with and without JSON; commands with "
        "arguments drawn from what the device offers, getters, discovery, invalid uses; network faults, device errors, wrong credentials or "
        "Ctrl-C at a seeded step. Exit status, standard output, effects on every device and everything left open are judged.")
MAX_STEPS = 900000
ONOFF = {"turn_on": "on", "turn_off": "off"}
KINDCLS = {"IotPlug": "plug", "IotWallSwitch": "switch", "IotBulb": "bulb", "IotDimmer": "dimmer", "IotStrip": "strip", "IotLightStrip": "lightstrip"}
CODES = [-1, -1003, -1008, -777777]
NOHASH = ("xor", "linkie")


def prepare():
    sc.prepare()


def gen(rng, i):
    prepare()
    path = rng.choice(sc.MODELS + sc.HUBS * 3 + sc.STRIPS * 2)
    plan = {"path": path, "mode": rng.choices(["effect", "get", "bad", "disco", "other"], [9, 6, 4, 4, 4])[0],
            "by": [rng.choice(sc.MODELS) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))],
            "addr": rng.choice(["host", "host", "name", "alias", "direct", "direct", "direct"]), "json": rng.random() < 0.65,
            "latency": rng.choice([[0.0005, 0.003], [0.0005, 0.003], [0.01, 0.08]]), "r": rng.randint(0, 1 << 30),
            "runs": rng.choice([1, 1, 2, 3]), "flags": rng.choice(["", "", "", "", "-d", "-v"]), "trouble": "", "faults": []}
    t = rng.choices(["", "net", "cancel", "error", "creds"], [9, 5, 3, 2, 1 if plan["mode"] != "disco" else 0])[0]
    if plan["mode"] in ("bad",):
        t = ""
    plan["trouble"] = t
    if t == "net":
        plan["faults"] = [gen_fault(rng, TRANS) for _ in range(rng.choice([1, 1, 2, 4, 12]))]
        for f in plan["faults"]:
            if f["kind"] == "session_lost":
                f["only"] = "request"
        plan["udp"] = rng.choice([0, 0, 0, 1, 3, 99])
    elif t == "cancel":
        plan["step"] = rng.choice([rng.randint(0, 60), rng.randint(0, 400), rng.randint(0, 2000)])
    elif t == "creds":
        plan["wrong"] = rng.choice(WRONG)
    if plan["mode"] == "disco":
        plan["how"] = rng.choice(["discover", "plain", "list", "raw", "detail", "config", "hostonly"])
        plan["state"] = [rng.choice(["ok", "ok", "ok", "badauth", "dead", "silent", "sick"]) for _ in range(3)]
        plan["step"] = plan.get("step", 0)
        if rng.random() < 0.5:
            plan["by"] = [rng.choice(sc.MODELS) for _ in range(2)]
    return plan


SIMPLIFY = [("by", [[]]), ("faults", [[]]), ("flags", [""]), ("runs", [1]), ("trouble", [""]), ("json", [False]), ("addr", ["host", "direct"])]


class Refused(Exception):
    """The tool ended with a non-zero status."""


def norm(v):
    return json.loads(json.dumps(v, default=str))


def lit(v):
    return repr(v)


class Box:
    """A simulated device on the network."""

    def __init__(self, w, path, n, latency):
        self.path, self.n = path, n
        self.kind, self.fam = models.smart_conn(path)
        self.creds = default_creds(self.kind)
        self.ip = f"10.0.0.{n + 2}"
        self.model, self.dev, self.cfg = models.put(w, path, n, self.ip, creds=self.creds, kind=self.kind, latency=latency)
        self.drop = 0
        announce(w, self.dev, self.model, self.kind, path, self.fam, n)
        for port, fn in list(self.dev.host.udp.items()):
            self.dev.host.udp[port] = self.lossy(w, fn)
        self.mark()

    def lossy(self, w, fn):
        def answer(d, tr):
            if self.drop:
                self.drop -= 1
                w.fault("udp_loss")
                return None
            return fn(d, tr)
        return answer

    def nodes(self):
        k = self.model.kids
        return [self.model] if self.model.style == "iot" or not k else [self.model, *k]

    def mark(self):
        self.was, self.n0 = self.model.snap(), {id(x): len(x.execs) for x in self.nodes()}

    def execs(self):
        return [e for x in self.nodes() for e in x.execs[self.n0.get(id(x), 0):]]

    def changed(self):
        return [q for q in diff(self.was, self.model.snap()) if q not in ft.DYN]

    def alias(self):
        m = self.model
        if m.style == "iot":
            return m.sys["alias"]
        if m.style == "cam":
            return m.info["getDeviceInfo"]["device_info"]["basic_info"]["device_alias"]
        return base64.b64decode(m.dev["nickname"]).decode() if "nickname" in m.dev else None

    def device_id(self):
        m = self.model
        if m.style == "iot":
            return m.sys.get("deviceId") or m.sys.get("system", {}).get("deviceId")
        if m.style == "cam":
            return m.info["getDeviceInfo"]["device_info"]["basic_info"]["dev_id"]
        return m.dev["device_id"]


class Bench:
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        lat = tuple(plan["latency"])
        self.boxes = [Box(w, p, 3 + i, lat) for i, p in enumerate([plan["path"], *plan["by"]])]
        self.box = self.boxes[0]
        self.rng = random.Random(plan["r"])
        w.net.names["thing.lan"] = self.box.ip
        self.cls = None
        self.stop = None

    # ---- addressing
    def address(self, alias_ok=True):
        rng, box, plan = self.rng, self.box, self.plan
        how = plan["addr"]
        kind = box.kind
        creds = box.creds
        if plan["trouble"] == "creds" and kind not in NOHASH:
            creds = plan["wrong"]
            if creds[0] == "" or creds[1] == "" or (kind == "sslaes" and creds[1] == box.creds[1]):
                creds = ("admin@example.com", "nope")
        cr = [] if kind in NOHASH and rng.random() < 0.7 else ["--username", creds[0], "--password", creds[1]]
        if how == "alias":
            a = box.alias()
            if not alias_ok or not a or sum((b.alias() or "").lower() == a.lower() for b in self.boxes) > 1:
                how = "host"
        self.how = how
        if how == "alias":
            a = rng.choice([a, a.lower(), a.upper()])
            return ["--alias", a, *cr]
        host = "thing.lan" if how == "name" or (how == "direct" and rng.random() < 0.2) else box.ip
        if how != "direct":
            return ["--host", host, *cr]
        out = ["--host", host]
        fam, enc, lv, https = CTYPE[kind]
        fam = box.fam or fam
        if cr and kind not in NOHASH and rng.random() < 0.3:
            cr = ["--credentials-hash", hash_of(kind, creds)]
        if kind == "xor" and self.cls in KINDCLS and rng.random() < 0.7:
            return [*out, "--type", KINDCLS[self.cls], *cr]
        if kind == "xor" and self.cls in KINDCLS:
            fam = "IOT.SMARTBULB" if self.box.model.bulb else "IOT.SMARTPLUGSWITCH"
        elif kind == "xor":
            fam = "IOT.IPCAMERA"
        elif kind == "klap1":
            fam = "IOT.SMARTBULB" if self.box.model.bulb else "IOT.SMARTPLUGSWITCH"
        if kind == "klap2" and rng.random() < 0.5:
            return [*out, "--type", "smart", *cr] + (["-df", fam] if rng.random() < 0.5 or fam == "SMART.TAPOROBOVAC" else [])
        if kind == "sslaes" and rng.random() < 0.6:
            return [*out, "--type", "camera", *cr]
        out += ["--device-family", fam, "--encrypt-type", enc]
        if lv is None and kind == "aes":
            out += ["-lv", "1"]
        elif lv:
            out += ["--login-version", str(lv)] if rng.random() < 0.5 or lv != 2 else []
        if https:
            out += ["--https"]
        return [*out, *cr]

    # ---- running the tool
    async def kasa(self, args, *, stdin="", addr=None, expect=None, quiet=False, prompts=False):
        """Run the tool and judge what holds for every invocation."""
        w, plan = self.w, self.plan
        js = plan["json"]
        argv = [*(addr if addr is not None else self.address()), *(["--json"] if js else []), *([plan["flags"]] if plan["flags"] else []), *args]
        for b in self.boxes:
            b.mark()
        tr = plan["trouble"]
        if tr == "net":
            self.box.dev.arm([dict(f) for f in plan["faults"]], [])
            self.box.drop = plan.get("udp", 0)
        r = await run_cli(w, argv, stdin=stdin, cancel=plan.get("step") if tr == "cancel" else None)
        self.box.dev.disarm()
        self.box.drop = 0
        self.last, self.argv = r, argv
        cmd = " ".join(argv)
        w.stats[f"exit_{r.code if isinstance(r.code, int) or r.code == 'cancelled' else 'raise'}"] += 1
        if self.stop:
            self.stop(r)
        if r.left:
            w.fail("left-open", f"kasa {cmd}: ended ({r.code}) leaving {r.left}")
        if r.secs > 2000:
            w.fail("slow", f"kasa {cmd}: took {r.secs:.0f} s")
        if isinstance(r.code, str) and r.code != "cancelled" and not ({"-d", "-v"} & {plan["flags"]}):
            w.fail("traceback", f"kasa {cmd}: ended with a traceback: {r.code}\n{r.tb[-900:]}")
        if r.code == "cancelled" and tr != "cancel":
            w.fail("cancelled", f"kasa {cmd}: cancelled by itself")
        if "never retrieved" in r.out + r.err or "Unclosed" in r.out + r.err:
            w.fail("noise", f"kasa {cmd}: {(r.out + r.err)[-500:]}")
        self.doc = None
        if js:
            docs = ([None] if r.ok else []) if prompts else r.documents()
            if docs is None or (r.ok and len(docs) != 1) or (not r.ok and docs and r.code != "cancelled"):
                w.fail("json", f"kasa {cmd}: exit {r.code}, but standard output is {r.out[:400]!r} ... {r.out[-200:]!r}")
            elif r.ok:
                self.doc = docs[0]
        for b in self.boxes[1:]:
            self.untouched(b, cmd)
        return r

    def untouched(self, b, cmd):
        ch = [q for q in b.changed() if q != ("clock",)]
        ex = [e for e in b.execs()]
        if ex or ch:
            self.w.fail("wrong-device", f"kasa {cmd}: also acted on {b.model.model_name} at {b.ip}: {[e[1:4] for e in ex]} {ch[:5]}")

    # ---- a reference client
    async def look(self):
        """A library client's view of the device, then disconnected."""
        from sim.mirror import Engine

        from kasa import Device as KD

        w = self.w
        k, kd = await outcome(w, KD.connect(config=self.box.cfg(timeout=5)), "connect")
        if k == "ok":
            self.cls = type(kd).__name__
            eng = Engine(w, self.box.model, kd)
            t0 = w.now
            k, v = await outcome(w, kd.update(), "update")
            eng.verify(t0 - 90000)
            await kd.disconnect()
        if k != "ok":
            w.fail("reference", f"{self.box.model.model_name}: reference client failed: {k} {kd!r}")
            return None
        self.kd = kd
        return eng

    def child_opts(self, p):
        """Options naming this pair."""
        if not p.parent:
            return []
        kids = self.kd.children
        i = kids.index(p.kd)
        names = [(c.alias or "").lower() for c in kids]
        al = p.kd.alias
        cands = [["--child", p.kd.device_id], ["--name", p.kd.device_id]]
        if self.plan["trouble"] != "net" or self.box.model.style != "cam":
            # a child that cannot be asked now is left out, and the others are counted without it
            cands += [["--child-index", str(i)], ["--index", str(i)]]
        if al and names.count(al.lower()) == 1 and al not in [c.device_id for c in kids]:
            cands.append(["--child", self.rng.choice([al, al.upper()])])
        return self.rng.choice(cands)


# ------------------------------------------------------------------ effects ----
def sub(rng, group, args):
    """Commands also available at top level."""
    return [group, *args] if rng.random() < 0.3 else args


def argv_for(rng, c, eng):
    """(arguments, own outcome check or None) of a command, or None."""
    n, a = c.name, c.arg
    if n in ONOFF:
        return sub(rng, "device", [ONOFF[n]]), None
    if n == "bulb_fade":
        return sub(rng, "device", ["on" if a[0] else "off", "--transition", str(a[1])]), None
    if n in ("dim_on", "dim_off"):
        return sub(rng, "device", [n[4:], "--transition", str(a)]), None
    if n == "dim_set":
        return sub(rng, "light", ["brightness", str(a[0]), "--transition", str(a[1])]), None
    if n == "hsv":
        if a[2] is None:
            return None
        return sub(rng, "light", ["hsv", *map(str, a)]), None
    if n == "color_temp":
        if a[1] is not None or not 2500 <= a[0] <= 9000:
            return None
        return sub(rng, "light", ["temperature", str(a[0])]), None
    if n == "brightness" and c.feature and rng.random() < 0.6:
        return sub(rng, "light", ["brightness", str(a)]), None
    if n == "effect":
        if a[1] is not None:
            return None
        return sub(rng, "light", ["effect", a[0]]), None
    if n == "light_effect" and rng.random() < 0.5:
        return ["effect", a], None
    if n == "led" and c.feature and rng.random() < 0.6:
        return sub(rng, "device", ["led", rng.choice(["true", "1", "on"] if a else ["false", "0", "off"])]), None
    if n == "alias":
        return sub(rng, "device", ["alias", a]), None
    if n == "save_preset":
        return preset_argv(rng, c)
    if n == "time":
        import datetime as dt
        t = dt.datetime.fromisoformat(a[0])
        return ["time", "set", *map(str, (t.year, t.month, t.day, t.hour, t.minute, t.second))] + (
            ["--timezone", a[1], "--skip-confirm"] if a[1] else []), None
    if n == "rule":
        return (["schedule", "delete", "--id", a[2]], None) if a[:2] == ["schedule", "delete"] else None
    if n == "energy_erase":
        return ["energy", "--erase"], None
    if n == "usage_erase":
        return ["usage", "--erase"], None
    if n == "reset_consumable":
        return ["vacuum", "consumables", "reset", a], None
    if n == "reboot" and not c.feature:
        return sub(rng, "device", ["reboot", *(["--delay", "3"] if rng.random() < 0.3 else [])]), None
    if c.feature:
        f = c.p.kd.features[n]
        if f.type.name == "Action":
            return ["feature", n], None
        return ["feature", n, lit(a)], None
    return None


def place(rng, args, opts):
    """The child can be named after the command or after its group."""
    if opts and args[0] == "device" and rng.random() < 0.4:
        return ["device", *opts, *args[1:]]
    if args[-1:] and re.fullmatch(r"-[0-9.]+", args[-1]):     # a negative number
        return [args[0], *opts, "--", *args[1:]]
    return [*args, *opts]


def preset_argv(rng, c):
    from sim.ops import preset_values

    name, st = c.arg
    lp = c.p.kd.modules["LightPreset"]
    try:
        i = lp.preset_list.index(name) - 1
    except ValueError:
        return None
    opts, want = ["presets", "modify", str(i)], {}
    for k, o in (("brightness", "--brightness"), ("hue", "--hue"), ("saturation", "--saturation"), ("color_temp", "--temperature")):
        if k in st and (rng.random() < 0.7 or k == "brightness"):
            opts += [o, str(st[k])]
            want[k] = st[k]

    def check(v, before):
        old, new = before[name], preset_values(v)
        return {k: x for k, x in new.items() if k != name} == {k: x for k, x in before.items() if k != name} and all(
            new[name].get(k) == want.get(k, old.get(k)) for k in {*old, *want})
    return sub(rng, "light", opts), check


async def effects(b):
    from sim.mirror import live
    from sim.ops import preset_values

    w, plan, rng = b.w, b.plan, b.rng
    for _ in range(plan["runs"]):
        eng = await b.look()
        if eng is None or w.violations:
            return
        for _ in range(25):
            c = eng.choose(rng)
            m = argv_for(rng, c, eng) if c is not None else None
            if m:
                break
        else:
            return
        w.nontrivial = True
        args, check = m
        opts = b.child_opts(c.p)
        if c.name in ("reboot", "time") and opts:
            return
        args = place(rng, args, opts)
        w.stats[f"cmd_{args[0]}"] += 1
        before = preset_values(live(c.p)) if check else None
        err = None
        if plan["trouble"] == "error":
            err = await with_error(b, eng, c, args)
            if err is None:
                return
            continue

        async def cli():
            r = await b.kasa(args)
            if not r.ok:
                raise Refused(repr(r))
        c.coro = cli
        if check:
            c.took = lambda v, execs, pre: check(v, before)
        hurt = plan["trouble"] in ("net", "cancel", "creds")
        await eng.command([c], faults=hurt)
        if plan["trouble"] == "creds" and b.box.kind not in NOHASH and (b.last.ok or b.box.execs()):
            w.fail("not-refused", f"kasa {' '.join(b.argv)}: wrong credentials: {b.last!r}, executed {b.box.execs()}")
        if w.violations:
            return


async def with_error(b, eng, c, args):
    """The device refuses what the command executes."""
    w, box = b.w, b.box
    n0 = {id(x): len(x.execs) for x in box.nodes()}
    code = b.rng.choice(CODES)

    class Every(dict):
        def get(self, k, d=None):
            name = k[1] if isinstance(k, tuple) else k
            if isinstance(k, str) and box.model.style == "iot":
                return None
            if name.startswith("get") or "component" in name or name in READS:
                return None
            w.fault("device_error")
            return code

        def __getitem__(self, k):
            return self.get(k)
    old = [(x, x.fail) for x in box.nodes()]
    for x in box.nodes():
        x.fail = Every()
    try:
        r = await b.kasa(args)
    finally:
        for x, f in old:
            x.fail = f
    tried = [e for x in box.nodes() for e in x.execs[n0.get(id(x), 0):]]
    ch = box.changed()
    if ch:
        raise AssertionError(f"model changed in spite of an error: {ch}")
    if r.ok and tried and c.paths:
        w.fail("error-hidden", f"kasa {' '.join(b.argv)}: exit 0 although the device answered {tried[-1][1:4]} with error {code}: {r!r}")
    w.nontrivial = True
    return r


READS = {"control_child", "controlChild"}


# ------------------------------------------------------------------ getters ----
def getters(b, p):
    """[(arguments, expected document | callable | ...)] available on this pair."""
    kd, m = p.kd, p.kd.modules
    top = p.parent is None
    out = [(["state"], has_id), (["device", "state"], has_id), (["sysinfo"], lambda d: has_id(d) if top else True), (["device", "sysinfo"], ...),
           (["alias"], norm(kd.alias)), (["feature"], ...)]
    light = m.get("Light")
    if light:
        f = kd.features
        if "brightness" in f:
            out += [(["brightness"], norm(light.brightness)), (["light", "brightness"], norm(light.brightness))]
        if "color_temperature" in f:
            out += [(["temperature"], norm(list(f["color_temperature"].range)))]
        if "hsv" in f:
            out += [(["hsv"], norm(light.hsv))]
    if "LightEffect" in m:
        out += [(["effect"], norm(m["LightEffect"].effect))]
    if "LightPreset" in m:
        n = len(m["LightPreset"].preset_states_list)
        out += [(a, lambda d, n=n: isinstance(d, list) and len(d) == n) for a in (["presets"], ["presets", "list"], ["light", "presets", "list"])]
    if "Led" in m:
        out += [(["led"], norm(m["Led"].led))]
    if "Energy" in m:
        out += [(["energy"], lambda d: bool({"power", "power_mw"} & set(d)))]
        if not (b.box.model.style == "iot" and p.child is None and b.box.model.kids) and b.box.model.style == "iot":
            o = b.box.model.kids[p.child] if p.child else b.box.model.main
            y = b.rng.choice([*{k[0] for k in o.energy.days}, 2026])
            out += [(["energy", "--year", str(y)], {str(mm): round(v / 1000, 3) for mm, v in months(o.energy, y).items()})]
    if b.box.model.style == "iot" and "usage" in m and top and not b.box.model.kids:
        o = b.box.model.main
        y = b.rng.choice([*{k[0] for k in o.usage.days}, 2026])
        out += [(["usage"], ...), (["usage", "--year", str(y)], {str(mm): v for mm, v in months(o.usage, y).items()})]
    if "schedule" in m and b.box.model.style == "iot":
        try:
            n = len(m["schedule"].rules)
        except Exception:  # noqa: BLE001
            n = None
        if n:
            out += [(["schedule", "list"], lambda d, n=n: isinstance(d, list) and len(d) == n)] * 3
    if "TriggerLogs" in m:
        out += [(["device", "logs"], ...)] * 3
    if top:
        out += [(["time"], is_time(b)), (["time", "get"], is_time(b)), ([], lambda d: has_id(d))]
        if b.box.model.style == "iot":
            out += [(["wifi", "scan"], lambda d: len(d) == 1 and "net" in str(d))] if "system" not in b.box.model.sys else []
        elif "get_wireless_scan_info" in b.box.model.info:
            out += [(["wifi", "scan"], lambda d: len(d) == len(b.box.model.info["get_wireless_scan_info"].get("ap_list", [])))]
        if "ChildSetup" in m:
            out += [(["hub", "list"], ...), (["hub", "supported"], ...)]
        if "Consumables" in m:
            out += [(["vacuum", "consumables"], ...)] * 2
        if "CleanRecords" in m:
            out += [(["vacuum", "records"], ...), (["vacuum", "records", "list"], ...)] * 2
        if b.cls == "IotBulb" and b.box.model.bulb:
            out += [(["light", "turn-on-behavior"], ...)]
    if b.box.model.style == "iot":
        if "system" not in b.box.model.sys:
            out += [(["command", "--module", "system", "get_sysinfo"], lambda d: d.get("deviceId", d) == b.box.device_id() or not top)]
            if top:
                out += [(["raw-command", "system", "get_sysinfo"], lambda d: d.get("deviceId", d) == b.box.device_id())]
    elif b.box.model.style == "smart" and (top or p.node.style == "smart"):
        out += [(["command", "get_device_info"], lambda d: d["get_device_info"]["device_id"] == p.node.dev["device_id"])]
    elif top:
        out += [(["command", "getDeviceInfo", "{'device_info': {'name': ['basic_info']}}"], has_id)]
    return out


def months(rec, y):
    return dict(rec.months_of(y))


def is_time(b):
    """The device's clock, on a device that has one."""
    def good(d):
        import datetime as dt
        t = dt.datetime.fromisoformat(d)
        m = b.box.model
        return m.clock is None or t.tzinfo is None or abs(t.timestamp() - m.clock.utc()) < 3600 * 30
    return good


def has_id(d):
    return True


async def gets(b):
    from sim.mirror import Shot

    w, plan, rng = b.w, b.plan, b.rng
    for _ in range(plan["runs"]):
        eng = await b.look()
        if eng is None or w.violations:
            return
        ps = eng.pairs()
        p = ps[0] if rng.random() < 0.6 else rng.choice(ps)
        fid = None
        if rng.random() < 0.45:
            fids = [f for f in ft.applicable(p.kd, p.node) if not f.startswith("x:") and p.kd.features[f].type.name != "Action"]
            if not fids:
                return
            fid = rng.choice(fids)
            args, want = ["feature", fid], None
        else:
            args, want = rng.choice(getters(b, p))
        opts = b.child_opts(p)
        if opts and not args:
            continue
        w.nontrivial = True
        w.stats[f"get_{'_'.join(args[:2]) if args and not fid else 'feature' if args else 'none'}"] += 1
        if fid and plan["trouble"] == "error":
            return
        r = await b.kasa(place(rng, args, opts))
        cmd = " ".join(b.argv)
        if plan["trouble"] in ("", "error") and not r.ok:
            w.fail("refused", f"kasa {cmd}: {r!r} although nothing was wrong\n{r.tb}")
        ex = b.box.execs()
        if ex or [q for q in b.box.changed() if q != ("clock",)]:
            w.fail("side-effect", f"kasa {cmd}: changed the device: {[e[1:4] for e in ex]} {b.box.changed()[:4]}")
        if plan["trouble"] == "creds" and b.box.kind not in NOHASH and r.ok:
            w.fail("not-refused", f"kasa {cmd}: wrong credentials: {r!r}")
        if r.ok and not w.violations and b.doc is not None:
            text = json.dumps(b.doc)
            for o in b.boxes[1:]:
                if o.device_id() in text:
                    w.fail("wrong-device", f"kasa {cmd}: printed data of {o.model.model_name}: {text[:300]}")
            if args in (["state"], ["device", "state"], ["sysinfo"], []) and (not opts or args == ["sysinfo"] and b.box.model.style != "iot"):
                did = p.kd.device_id if b.box.model.style != "iot" else b.box.device_id()
                if did and did not in text:
                    w.fail("wrong-device", f"kasa {cmd}: the data printed is not of {p.name}: {text[:300]}")
        if r.ok and plan["json"] and not w.violations:
            d = b.doc
            if fid:
                try:
                    want = p.table[fid].read(Shot(b.box.model).view(p))
                except ft.Skip:
                    continue
                if isinstance(d, str) and "." in d and isinstance(want, str) and d.split(".")[-1].lower() == want.lower():
                    continue
                if want is None or type(want) in (bool, int, float, str):
                    if type(d) in (bool, int, float, str, type(None)) and isinstance(want, str) == isinstance(d, str) and not ft.same(
                            d, norm(want), p.table[fid].tol):
                        w.fail("value", f"kasa {cmd}: printed {d!r} but the device reported {want!r}")
            elif callable(want):
                try:
                    good = want(d)
                except Exception:  # noqa: BLE001
                    good = False
                if not good:
                    w.fail("value", f"kasa {cmd}: printed {str(d)[:400]}")
            elif want is not ... and not ft.same(d, want):
                w.fail("value", f"kasa {cmd}: printed {d!r} instead of {want!r}")
        if r.ok and not plan["json"] and args == ["alias"] and not w.violations:
            if str(p.kd.alias) not in re.sub(r"\s+", " ", r.out) and "[" not in str(p.kd.alias):
                w.fail("value", f"kasa {cmd}: printed {r.out!r}")
        if w.violations:
            return


# ---------------------------------------------------------------- wrong uses ---
def bads(b, p):
    """[(address or None, arguments)] that must be refused."""
    kd, m, rng, box = p.kd, p.kd.modules, b.rng, b.box
    top = p.parent is None
    f = kd.features
    out = [(None, ["feature", "no_such_thing"]), (None, ["feature", "no_such_thing", "1"]), (None, ["nonsense"]), (None, ["on", "--child", "nobody"]),
           (None, ["off", "--child-index", "99"]), (None, ["off", "--child-index", "-1"]), (["--alias", "Nobody's lamp"], ["off"]),
           (["--alias", "Nobody's lamp"], ["state"]), (["--host", "10.0.0.77"], ["off"]), (["--host", "nowhere.lan"], ["off"]), ([], ["off"]),
           (["--host", box.ip, "--alias", "x"], ["off"]), (["--host", box.ip, "--username", "x"], ["off"]), (None, ["brightness", "101"]),
           (["--host", box.ip, "--target", "10.0.0.255"], ["off"]), (None, ["hsv", "1"]), (None, ["on", "--transition", "x"])]
    if top:
        setters = [x for x in ft.applicable(kd, p.node) if not x.startswith("x:") and f[x].attribute_setter and f[x].type.name in ("Choice", "Number")]
        for x in setters[:6]:
            if f[x].type.name == "Choice":
                out += [(None, ["feature", x, "'certainly not'"])]
            elif not isinstance(f[x].maximum_value, int | float):
                continue
            else:
                out += [(None, ["feature", x, str(f[x].maximum_value + 1)]), (None, ["feature", x, str(f[x].minimum_value - 1)])]
            out += [(None, ["feature", x, "unquoted"]), (None, ["feature", x, "'half"])]
        if "LightEffect" in m:
            out += [(None, ["effect", "No such effect"])] * 2
        else:
            out += [(None, ["effect", "Off"]), (None, ["effect"])]
        if "LightPreset" in m:
            out += [(None, ["presets", "modify", "99", "--brightness", "5"]), (None, ["presets", "modify", "0"])]
            lp = m["LightPreset"]
            for i, s in enumerate(lp.preset_states_list[:2]):
                for at, o in (("hue", "--hue"), ("color_temp", "--temperature"), ("saturation", "--saturation")):
                    if getattr(s, at) is None:
                        out += [(None, ["presets", "modify", str(i), o, "50"]), (None, ["presets", "modify", str(i), "--brightness", "33", o, "50"])]
        else:
            out += [(None, ["presets"]), (None, ["presets", "modify", "0", "--brightness", "5"])]
        if "Led" not in m:
            out += [(None, ["led"]), (None, ["led", "true"])]
        if "Energy" not in m:
            out += [(None, ["energy"]), (None, ["energy", "--erase"])]
        if "brightness" not in f or "Light" not in m:
            out += [(None, ["brightness", "50"])]
        if "color_temperature" not in f:
            out += [(None, ["temperature"]), (None, ["temperature", "3000"])]
        else:
            lo, hi = f["color_temperature"].range
            out += [(None, ["temperature", str(x)]) for x in (lo - 1, hi + 1)]
        if "hsv" not in f:
            out += [(None, ["hsv", "1", "2", "3"])]
        if kd.device_type.name != "Hub":
            out += [(None, ["hub", "list"]), (None, ["hub", "pair"]), (None, ["hub", "unpair", "x"])]
        elif "ChildSetup" in m:
            out += [(None, ["hub", "unpair", "nobody"])] * 3
        if "CleanRecords" not in m:
            out += [(None, ["vacuum", "records"]), (None, ["vacuum", "records", "list"]), (None, ["vacuum", "consumables"]),
                    (None, ["vacuum", "consumables", "reset", "main_brush"])]
        else:
            out += [(None, ["vacuum", "consumables", "reset", "nothing"])] * 3
        if "time" not in m and "Time" not in m:
            out += [(None, ["time", "sync"]), (None, ["time", "set", "2026", "1", "1", "0", "0"])] * 2
        else:
            out += [(None, ["time", "set", "2026", "13", "1", "0", "0"]), (None, ["time", "sync", "--timezone", "Mars/Olympus", "--skip-confirm"])]
        if "schedule" in m:
            out += [(None, ["schedule", "delete", "--id", "nothing"])]
        if box.model.style == "iot":
            out += [(None, ["update_credentials", "--username", "a", "--password", "b"])]
            if b.cls != "IotBulb":
                out += [(None, ["light", "turn-on-behavior"])]
            else:
                out += [(None, ["light", "turn-on-behavior", "--last"]), (None, ["light", "turn-on-behavior", "--preset", "1"])]
        else:
            out += [(None, ["light", "turn-on-behavior", "--type", "soft", "--last"]), (None, ["schedule", "list"])]
            if box.model.style == "smart":
                out += [(None, ["command", "no_such_method"])]
        if not kd.children:
            out += [(None, ["on", "--child-index", "0"]), (None, ["sysinfo", "--child", "x"])]
        else:
            out += [(None, ["off", "--child-index", "0", "--child", "x"])]
    return out


async def wrong(b):
    w, plan, rng = b.w, b.plan, b.rng
    eng = await b.look()
    if eng is None or w.violations:
        return
    for _ in range(plan["runs"]):
        addr, args = rng.choice(bads(b, eng.pairs()[0]))
        if addr is not None and addr[:1] in (["--alias"],) and b.box.kind not in NOHASH:
            addr = [*addr, "--username", b.box.creds[0], "--password", b.box.creds[1]]
        w.nontrivial = True
        r = await b.kasa(args, addr=addr)
        cmd = " ".join(b.argv)
        w.stats[f"bad_{args[0]}"] += 1
        if r.ok:
            w.fail("not-refused", f"kasa {cmd}: exit 0: {r!r}")
        ex, ch = b.box.execs(), [q for q in b.box.changed() if q != ("clock",)]
        if (ex and args[0] != "command" and [e for e in ex if (e[5] if isinstance(e, tuple) else e[3]) == 0]) or ch:
            w.fail("side-effect", f"kasa {cmd}: refused (exit {r.code}), but the device executed {[e[1:4] for e in ex]}, changed {ch[:4]}")
        if w.violations:
            return


# ----------------------------------------------------------------- discovery ---
async def disco(b):
    w, plan, rng = b.w, b.plan, b.rng
    how, js = plan["how"], plan["json"]
    cr = None
    state = {}
    for box, st in zip(b.boxes, plan["state"]):
        if st == "badauth" and box.kind in NOHASH:
            st = "ok"
        if st == "badauth":
            box.dev.creds = (box.creds[0], "something else")
        elif st == "dead":
            box.dev.host.listening = False
            refuse(w, box)
        elif st == "silent":
            box.dev.host.udp.clear()
        elif st == "sick" and box.model.style == "iot":
            box.model.fail["system"] = -1
        elif st == "sick":
            box.model.fail["component_nego" if box.model.style == "smart" else "getAppComponentList"] = -1003
        if st != "ok":
            w.fault(f"device_{st}")
        state[box.ip] = st
    # one account for all devices that ask for one
    kinds = [x.kind for x in b.boxes if x.kind not in NOHASH]
    if kinds:
        cr = next(x.creds for x in b.boxes if x.kind not in NOHASH)
        for x in b.boxes:
            if x.kind not in NOHASH and x.creds != cr:
                if state[x.ip] == "ok":
                    state[x.ip] = "badauth"
    w.nontrivial = True
    addr = ["--username", cr[0], "--password", cr[1]] if cr else []
    if rng.random() < 0.3:
        addr += ["--discovery-timeout", str(rng.choice([1, 3, 10]))]
    box = b.box
    args = {"discover": ["discover"], "plain": [], "list": ["discover", "list"], "raw": ["discover", "raw", *(["--redact"] if rng.random() < 0.5 else [])],
            "detail": ["discover", "detail"], "config": ["discover", "config"], "hostonly": rng.choice([["discover"], ["discover", "list"], [],
                                                                                                  ["discover", "raw"]])}[how]
    if how in ("config", "hostonly"):
        addr = ["--host", box.ip, *addr]
    r = await b.kasa(args, addr=addr)
    cmd = " ".join(b.argv)
    w.stats[f"disco_{how}"] += 1
    bad = plan["trouble"]
    ex = [e for x in b.boxes for e in x.execs()]
    if ex or [q for x in b.boxes for q in x.changed() if q != ("clock",)]:
        w.fail("side-effect", f"kasa {cmd}: changed a device: {ex}")
    if bad in ("net", "cancel") or w.violations:
        if r.ok and js and isinstance(b.doc, dict) and how in ("discover", "list", "raw", "detail", "plain"):
            if set(b.doc) - set(state):
                w.fail("invented", f"kasa {cmd}: reports {sorted(b.doc)}")
        return
    if how in ("config", "hostonly"):
        st = state[box.ip]
        silent_ok = how == "config"
        if st == "ok" and not r.ok:
            w.fail("refused", f"kasa {cmd}: {r!r}")
        if (st in ("dead", "badauth", "sick") or (st == "silent" and not silent_ok)) and how == "config" and r.ok and st != "silent":
            if st == "sick" and box.model.style != "iot":
                return
            w.fail("not-refused", f"kasa {cmd}: device is {st}: {r!r}")
        if r.ok and js and st == "ok":
            text = json.dumps(b.doc)
            if box.device_id() not in text and args[:2] not in (["discover", "raw"],) and how != "config":
                w.fail("wrong-device", f"kasa {cmd}: printed {text[:300]}")
        return
    seen = {ip for ip, st in state.items() if st != "silent"}
    fine = all(st in ("ok", "silent") or (st == "badauth") or (how in ("list", "raw")) for st in state.values())
    if not r.ok:
        if fine:
            w.fail("refused", f"kasa {cmd}: {r!r} with devices {state}")
        return
    if js:
        if set(b.doc) != seen:
            w.fail("discovered", f"kasa {cmd}: reports {sorted(b.doc)} instead of {sorted(seen)}")
        for x in b.boxes:
            if x.ip in seen and state[x.ip] == "ok" and how not in ("raw",):
                if x.device_id() not in json.dumps(b.doc[x.ip]):
                    w.fail("wrong-device", f"kasa {cmd}: {x.ip} shown as {str(b.doc[x.ip])[:300]}")
    else:
        for x in b.boxes:
            if x.ip in seen and x.ip not in r.out and how in ("list", "raw"):
                w.fail("discovered", f"kasa {cmd}: {x.ip} missing in {r.out[-600:]}")
            if x.ip not in seen and x.ip in r.out and how in ("list",):
                w.fail("invented", f"kasa {cmd}: {x.ip} in {r.out[-600:]}")
        if how in ("list",):
            for x in b.boxes:
                if state[x.ip] == "ok" and x.alias() and "[" not in x.alias() and x.alias() not in re.sub(r"\s+", " ", r.out):
                    w.fail("discovered", f"kasa {cmd}: {x.alias()} missing in {r.out[-600:]}")


def refuse(w, box):
    box.dev.host.up = True
    for port in list(box.dev.host.tcp):
        box.dev.host.tcp.pop(port)


# -------------------------------------------------------------------- others ---
async def others(b):
    w, plan, rng = b.w, b.plan, b.rng
    eng = await b.look()
    if eng is None or w.violations:
        return
    kd, m, box = b.kd, b.kd.modules, b.box
    smart = box.model.style == "smart"
    iot = box.model.style == "iot" and "system" not in box.model.sys
    ops = []
    if "state" in kd.features and (iot or smart) and "temp_control" not in getattr(box.model, "components", ()):
        ops += ["toggle"] * 2
    if iot or smart:
        ops += ["wifi", "reset", "creds"]
        if "time" in m or "Time" in m:
            ops += ["sync"]
        ops += ["raw"] * 2
    if "ChildSetup" in m and box.model.kids:
        ops += ["unpair", "pair"] * 2
    elif "ChildSetup" in m:
        ops += ["pair"] * 2
    if b.cls == "IotBulb" and iot:
        ops += ["behavior"] * 2
    if not ops:
        return
    op = rng.choice(ops)
    w.nontrivial = True
    w.stats[f"other_{op}"] += 1
    hurt = plan["trouble"] != ""
    if plan["trouble"] == "error":
        plan["trouble"] = ""
        hurt = False
    yes = rng.random() < 0.7

    def execs(name):
        return [e for e in box.execs() if (e[2] if isinstance(e, tuple) else e[1]) == name]

    def judge(r, good, what):
        cmd = " ".join(b.argv)
        if not hurt and not r.ok:
            w.fail("refused", f"kasa {cmd}: {r!r} although nothing was wrong\n{r.tb}")
        elif r.ok and not good():
            w.fail("no-effect", f"kasa {cmd}: exit 0, but {what}: executed {[e[1:4] for e in box.execs()]}, changed {box.changed()[:4]}")
        if plan["trouble"] == "creds" and box.kind not in NOHASH and (r.ok or box.execs()):
            w.fail("not-refused", f"kasa {cmd}: wrong credentials: {r!r} {box.execs()}")
        if not hurt and r.ok:
            seen = []
            for e in box.execs():
                key = repr(e[1:5] if isinstance(e, tuple) else e[1:4])
                if key in seen:
                    w.fail("twice", f"kasa {cmd}: {key} was executed twice without any fault")
                seen.append(key)

    if op == "toggle":
        from sim.mirror import live, pairs
        from sim.ops import is_on
        ps = [p for p in pairs(box.model, kd) if "state" in p.kd.features and p.node.style in ("iot", "smart")
              and "temp_control" not in getattr(p.node, "components", ())]
        p = rng.choice(ps)
        on = bool(p.kd.is_on)
        r = await b.kasa([*sub(rng, "device", ["toggle"]), *b.child_opts(p)])
        judge(r, lambda: is_on(live(p), not on), f"{p.name} is not {'off' if on else 'on'}")
    elif op == "wifi":
        pw = rng.choice(["secret99", "pä ss"])
        kt = "3" if iot else "wpa2_psk"
        if smart and (box.kind == "linkie" or "--credentials-hash" in (addr := b.address())):
            return
        addr = b.address()
        if "--credentials-hash" in addr:
            return
        r = await b.kasa(["wifi", "join", "my net", "--keytype", kt, "--password", pw], addr=addr)
        if iot:
            judge(r, lambda: [e[3] for e in execs("set_stainfo") if not e[5]] == [{"ssid": "my net", "password": pw, "key_type": 3}] or hurt, "did not join")
        elif not hurt:
            judge(r, lambda: [e[2]["wireless"] for e in execs("set_qs_info")] == [
                {"key_type": kt, "password": models.b64s(pw), "ssid": models.b64s("my net")}], "did not join")
    elif op == "reset":
        r = await b.kasa(["device", "factory-reset"], stdin="y\n" if yes else "n\n", prompts=True)
        name = "reset" if iot else "device_reset"
        if not yes:
            if box.execs():
                w.fail("not-refused", f"kasa {' '.join(b.argv)}: not confirmed, but executed {box.execs()}")
        elif not execs(name) and r.ok and not hurt:
            w.fail("no-effect", f"kasa {' '.join(b.argv)}: exit 0, but executed {box.execs()}")
    elif op == "creds":
        if iot:
            return
        cmd = rng.choice([["update_credentials"], ["device", "update-credentials"]])
        r = await b.kasa([*cmd, "--username", "new@example.com", "--password", "pw new"], stdin="y\n" if yes else "n\n", prompts=True)
        want = {"username": models.b64s("new@example.com"), "password": models.b64s("pw new")}
        if not yes:
            if box.execs():
                w.fail("not-refused", f"kasa {' '.join(b.argv)}: not confirmed, but executed {box.execs()}")
        else:
            judge(r, lambda: bool(execs("set_qs_info")) and all(e[2]["account"] == want for e in execs("set_qs_info")), "not changed")
    elif op == "sync":
        if box.model.clock is None:
            return
        box.model.clock.skew = rng.choice([-5000, 77, 86400, -3e6])
        r = await b.kasa(["time", "sync"])
        judge(r, lambda: abs(box.model.clock.skew) < 60 + r.secs or True, f"the clock is off by {box.model.clock.skew} s")
    elif op == "raw":
        on = rng.random() < 0.5
        if iot:
            mod, c, a = ("system", "set_dev_alias", {"alias": "roh"}) if rng.random() < 0.5 else ("system", "set_led_off", {"off": int(on)})
            if c == "set_led_off" and "Led" not in m:
                return
            cmd = ["command", "--module", mod, c, repr(a)] if rng.random() < 0.6 else ["raw-command", mod, c, repr(a)]
        else:
            c, a = "set_device_info", {"nickname": models.b64s("roh")}
            cmd = ["command", c, repr(a)]
        r = await b.kasa(cmd)
        judge(r, lambda: any((e[3] if isinstance(e, tuple) else e[2]) == a for e in execs(c)), "not executed")
    elif op == "unpair":
        k = rng.choice(box.model.kids)
        if k.id not in [c.device_id for c in kd.children]:
            return
        r = await b.kasa(["hub", "unpair", k.id])
        judge(r, lambda: k.id not in [x.id for x in box.model.kids], "still paired")
        for o in kd.children:
            if o.device_id != k.id and o.device_id not in [x.id for x in box.model.kids]:
                w.fail("side-effect", f"kasa {' '.join(b.argv)}: also unpaired {o.device_id}")
    elif op == "pair":
        await pair(b, judge)
    elif op == "behavior":
        t = rng.choice(["soft", "hard"])
        n = len(box.model.sys.get("preferred_state", []))
        how = rng.choice([["--last"], ["--preset", str(rng.randrange(n))] if n else ["--last"]])
        was = dict(box.model.behavior)
        for k in was:
            if rng.random() < 0.5 and n:
                box.model.behavior[k] = {"mode": "customize_preset", "index": rng.randrange(n)}
                was[k] = dict(box.model.behavior[k])
        r = await b.kasa(["light", "turn-on-behavior", "--type", t, *how])

        def good():
            want = {"mode": "last_status"} if how == ["--last"] else {"mode": "customize_preset", "index": int(how[1])}
            return box.model.behavior == was | {f"{t}_on": want}
        judge(r, good, "not changed")


async def pair(b, judge):
    import copy

    w, rng, m = b.w, b.rng, b.box.model
    scan = []
    refs = sc.kid_refs(m.style == "cam")
    before = [k.id for k in m.kids]
    for i in range(rng.choice([0, 1, 1, 2])):
        k = m.add_kid(copy.deepcopy(sc.kid_raw(rng.choice(refs))), f"new{i}")
        m.kids.remove(k)
        scan.append(k)

    def scanned(p):
        return {"error_code": 0, "result": {"child_device_list": [
            {"device_id": k.id, "device_model": "X", "category": "subg.trv", "name": "x"} for k in scan], "scan_status": "idle"}}

    def add(p):
        lst = p["child_device_list"] if m.style == "smart" else p["childControl"]["child_device_list"]
        for d in lst:
            for k in list(scan):
                if k.id == d["device_id"]:
                    scan.remove(k)
                    m.kids.append(k)
        return {"error_code": 0, "result": {}}
    if m.style == "smart":
        m.hook |= {"begin_scanning_child_device": lambda p: {"error_code": 0}, "get_scan_child_device_list": scanned, "add_child_device_list": add}
    else:
        m.hook |= {"startScanChildDevice": lambda p: {"error_code": 0, "result": {}}, "getScanChildDeviceList": scanned, "addScanChildDeviceList": add}
    new = [k.id for k in scan]
    t = rng.choice([None, 1, 25])
    r = await b.kasa(["hub", "pair", *(["--timeout", str(t)] if t else [])])
    judge(r, lambda: [k.id for k in m.kids] == before + new, f"{len(new)} were to be paired")
    if r.ok and not b.plan["json"] and not w.violations:
        for i in new:
            if i not in re.sub(r"\s+", "", r.out):
                w.fail("value", f"kasa {' '.join(b.argv)}: paired {i}, but printed {r.out[-400:]}")


async def run(w, plan):
    c12.watch_sessions(w)
    b = Bench(w, plan)
    await {"effect": effects, "get": gets, "bad": wrong, "disco": disco, "other": others}[plan["mode"]](b)


ASSUMPTIONS = [
    "Interactive prompts are answered from standard input and excepted from the JSON rule; an aborted prompt ends with status 0 by design.",
    "A child is addressed by its index only where every child can be asked: the tool counts the children it could set up.",
    "The tool is run in the simulated process instead of a process of its own; what asyncio.run does at the end is repeated by the harness.",
]
