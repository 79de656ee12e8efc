"""C16: a failing module or child does not take the device down."""

import asyncio
import copy
import random

from sim import features as ft
from sim import scenario as sc
from sim.client import outcome
from sim.mirror import Engine, Shot, shown

ID = "C16"
QUICK = 3500
THOROUGH = 90000
RULE = ("Seeded plan: any recorded device (all families), also hubs with random children; 8-24 steps of making functions (getters of the device "
        "or of a child) answer with error codes of every class, with malformed results, or (SMART families) not at all whenever they are "
        "part of a request; healing them, external changes, updates at random cadence; finally everything healed, compared with a new object.")
MAX_STEPS = 900000
ASSUMPTIONS = ["a function failing ten times in a row without any success is given up by the library (documented constant) and not judged",
               "the cloud connection of a device that does not tell it counts as not connected"]
prepare = sc.prepare

CODES = [-1, -2, -1008, -1002, -1001, 9999, 1002, -1501, -40101, -40106, -60301, -777777, 5]
MALF = [{}, [], None, 5, "x", {"x": 1}]
CRITICAL = {"get_device_info", "getDeviceInfo", "component_nego", "getAppComponentList", "get_child_device_list", "getChildDeviceList",
            "get_child_device_component_list", "getChildDeviceComponentList", "control_child", "controlChild", "getConnectionType"}


def gen(rng, i):
    prepare()
    plan = {"latency": rng.choice([[0.0005, 0.003], [0.001, 0.02], [0.02, 0.2]]), "fresh": rng.random() < 0.6, "early": rng.random() < 0.15}
    if rng.random() < 0.25:
        plan["path"] = p = sc.HUBS[i % len(sc.HUBS)]
        refs = sc.kid_refs("smartcam" in p)
        plan["kids"] = [rng.choice(refs) for _ in range(rng.choice([1, 2, 3]))]
    else:
        plan["idx"] = i if i < 2000 else rng.randint(0, 9999)
    steps = []
    for _ in range(rng.randint(8, 24)):
        op = rng.choices(["fail", "heal", "upd", "sleep", "mut", "crit"], (4, 2, 8, 5, 1, 0.7))[0]
        s = {"op": op, "r": rng.randint(0, 1 << 30)}
        if op == "crit":
            s["code"] = rng.choice(CODES)
            s["k"] = rng.choice([1, 1, 2])
        if op == "fail":
            s["how"] = rng.choice(["code"] * 6 + ["malformed", "choke"])
            s["code"] = rng.choice(CODES)
            s["n"] = rng.choice([1, 1, 1, 2, 4])
        if op == "sleep":
            s["secs"] = rng.choice([0.5, 5, 29, 31, 61, 100, 301, 1000, 90000])
        if op == "mut":
            s["n"] = 2
        steps.append(s)
    plan["steps"] = steps
    if rng.random() < 0.12:
        plan["crit"] = {"r": rng.randint(0, 1 << 30), "code": rng.choice(CODES), "k": rng.choice([1, 1, 2])}
    return plan


def keyset(mod, style):
    """Getters a module of the library asks for."""
    try:
        q = mod.query()
    except Exception:  # noqa: BLE001
        return frozenset()
    if style == "iot":
        return frozenset((t, c) for t, cs in q.items() if t != "context" for c in cs)
    return frozenset(q)


class Eng(Engine):
    def __init__(self, w, model, kd, skip=()):
        super().__init__(w, model, kd, skip)
        self.bad = {}        # (node id, getter) -> how: failing now
        self.err = {}        # (node id, getter) -> True: the last answer was an error
        self.runs = {}       # (pair name, module) -> [errors in a row, time of the last one]
        self.dead = set()    # (pair name, module) given up or not judged any more
        self.marks = {}
        self.early = False
        self.blind = False   # the list of children was not told

    def gkey(self, p, g):
        if p.node.style == "iot":
            t, c = (g[0], g[1]) if isinstance(g, tuple) else g
            return (id(self.model), (t, c))
        return (id(p.node), g)

    def isbad(self, p, g):
        return self.err.get(self.gkey(p, g))

    def modules(self, p):
        for name, m in p.kd.modules.items():
            if (ks := keyset(m, p.node.style)):
                yield str(name), m, ks

    def mark(self):
        for n in self.nodes():
            self.marks[id(n)] = len(n.queries)

    def asked(self, n):
        if n.style == "iot":
            return {(q[1], q[2]) for q in n.queries[self.marks.get(id(n), 0):]}
        return {q[1] for q in n.queries[self.marks.get(id(n), 0):]}

    def note(self, t0, judged=True):
        """What was asked and how it was answered in the update begun at t0."""
        for n in self.nodes():
            for g in self.asked(n):
                self.err[id(n), g] = self.bad.get((id(n), g))
        if self.model.style == "iot":
            return
        if not judged:
            self.runs = {k: [None, t0, r[2] + 1, r[3]] for k, r in self.runs.items()}
            return
        for p in self.pairs():
            if p.node.style == "iot" or p.parent and id(p.node) not in self.marks:
                continue
            asked = self.asked(p.node)
            mods = list(self.modules(p))
            for name, m, ks in mods:
                k = (p.name, name)
                if ks & CRITICAL:
                    continue
                alone = [g for g in ks if sum(g in o for _, _, o in mods) == 1]
                # [errors in a row or None (unknown), begin of the last update asking, upper bound of errors, time asked]
                run = self.runs.get(k) or ([None, t0, 1, t0] if self.early else [0, None, 0, None])
                was = bool(asked & set(alone)) if alone else None
                mine = alone or ks
                tq = max((q[0] for q in p.node.queries[self.marks.get(id(p.node), 0):] if q[1] in mine), default=t0)
                if run[0] and k not in self.dead and alone:
                    if was and tq - run[1] < 30 * run[0] - 0.01:
                        self.w.fail("asked-early", f"{p.name} {name}: after {run[0]} errors in a row asked again {tq - run[1]:.1f} s after the last error")
                    if not was and t0 - run[3] > 30 * run[0] + 0.01:
                        self.w.fail("not-asked", f"{p.name} {name}: after {run[0]} errors in a row not asked again {t0 - run[3]:.1f} s after the last error")
                if was or not alone and asked & set(ks):
                    optional = set(getattr(m, "optional_response_keys", ()))
                    bad = {b for g in ks if (b := self.bad.get((id(p.node), g))) and (g not in optional or b == "malformed")}
                    if not bad:
                        self.runs[k] = [0, t0, 0, tq]
                    else:
                        # a malformed result may pass as an answer
                        known = run[0] is not None and "malformed" not in bad
                        self.runs[k] = [run[0] + 1 if known else None, t0, run[2] + 1, self.w.now]
                        if run[2] + 1 >= 10:
                            self.dead.add(k)

    def container(self, p, fid):
        f = p.kd.features.get(fid)
        c = getattr(f, "container", None) if f else None
        if c is None or not hasattr(c, "query"):
            return frozenset()
        return keyset(c, p.node.style)

    def verify(self, t0, settled=True):
        self.note(t0)
        self.shot = Shot(self.model)
        self.shown = {}
        if self.w.violations:
            return
        from kasa import KasaException

        n = 0
        for p, fid, f in self.each():
            view = self.shot.view(p)
            try:
                want = f.read(view)
            except ft.Skip:
                continue
            except (KeyError, TypeError, IndexError, AttributeError):
                if any(self.bad.values()):
                    continue
                raise
            used = list(view.used)
            if fid.startswith("pir_") and "adc" not in fid or fid.startswith("pir_adc_m"):
                used = [g for g in used if g[1] != "get_adc_value"]
            mine = self.container(p, fid)
            bad = [self.isbad(p, g) for g in used if not isinstance(g, str) or g not in ("info", "parent")]
            mal = [b for b in bad if b == "malformed"] + [1 for g in mine if self.isbad(p, g) == "malformed"]
            bad = [b for b in bad if b]
            near = [g for g in mine if self.isbad(p, g)]
            if p.node.style == "iot" and not mine and p.kd.children:   # sum over the outlets
                errs = [e for (_, g), e in self.err.items() if e and g[0] == "emeter"]
                near += errs
                mal += [e for e in errs if e == "malformed"]
            if "clean_" in fid or fid in ("water_alert_timestamp", "auto_off_at"):     # parsed with the device's (or hub's) time zone
                errs = [e for g in ("get_device_time", "getClockStatus", "getTimezone") if (e := self.err.get((id(self.model), g)))]
                near += errs
                mal += [e for e in errs if e == "malformed"]
            try:
                ok, val = shown(p, fid)
            except ft.Skip:
                continue
            if mal or fid == "current_consumption" and self.err.get((id(p.node), "get_energy_usage")):
                continue
            n += 1
            blind = p.parent and "info" in view.used and self.blind
            if not ok:
                try:
                    ft.x_value(p.kd, fid) if fid.startswith("x:") else p.kd.features[fid].value  # noqa: B018
                except KasaException:
                    if bad or near or any(kk[0] == p.name and set(self.lib(p, kk[1])) & set(mine) for kk in self.dead):
                        self.w.stats["raises"] += 1
                        continue
                except Exception:  # noqa: BLE001
                    pass
                self.w.fail("value-raises", f"{p.name} {fid} cannot be read: {val}; " + (
                    f"its function answers with {bad or near}" if bad or near else f"the device reported {want!r} and all its functions work"))
                continue
            if bad:
                if val is None or fid == "cloud_connection" and val is False:
                    continue
                self.w.fail("stale-shown", f"{p.name} {fid}: the device answered with an error ({bad}), but {val!r} is shown")
                continue
            if not ft.same(val, want, f.tol):
                if near and val is None:
                    continue
                self.w.fail("stale-child-info" if blind else "mirror", f"{p.name} shows {fid} = {val!r} but the device reported {want!r} in this update")
            for g, t in view.used.items():
                if g in used and t < t0 - self.interval(p, g) - 1e-9:
                    self.w.fail("stale-child-info" if blind else "stale", f"{p.name} {fid}: {g} was last reported {t0 - t:.1f} s before this update")
            self.shown[p.name, fid] = val
        self.w.stats["values"] += n
        self.moved, self.touched = False, []

    def lib(self, p, name):
        for nm, m, ks in self.modules(p):
            if nm == name:
                return ks
        return frozenset()


def getters(eng, n):
    """Getters a device may be made to fail at."""
    seen = sorted({(q[1], q[2]) for q in n.queries} if n.style == "iot" else {q[1] for q in n.queries}, key=str)
    if n.style == "iot":
        return [g for g in seen if g[1].startswith("get") and g[0] != "system"]
    return [g for g in seen if g.startswith("get") and g not in CRITICAL]


def parts(req, cid):
    """(child id or None, method) of everything in a SMART request."""
    m, p = req.get("method"), req.get("params") or {}
    if m == "multipleRequest":
        for r in p.get("requests", ()):
            yield from parts(r, cid)
    elif m in ("control_child", "controlChild"):
        p = p.get("childControl", p)
        q = p.get("requestData") or p.get("request_data") or {}
        yield from parts(q, p.get("device_id"))
    elif m is not None:
        yield cid, m


class Faults:
    def __init__(self, w, s):
        self.w, self.s, self.m = w, s, s.model
        self.bad = {}            # (node id, getter) -> (node, how)
        s.dev.choke = self.choke

    def choke(self, req):
        names = [(n, g) for (i, g), (n, how, _) in self.bad.items() if how == "choke"]
        if not names:
            return None
        pairs = set(parts(req, None))
        for n, g in names:
            if (None if n is self.m else n.id, g) in pairs:
                return "drop_reply" if len(g) % 2 else "rst_after"
        return None

    def fail(self, st, whole=True):
        r = random.Random(st["r"])
        eng = self.s.eng
        nodes = eng.nodes() if eng else [self.m]
        for _ in range(st["n"]):
            n = r.choice(nodes)
            cand = self.cand(n)
            if not cand:
                continue
            g = r.choice(cand)
            how = st["how"]
            if how == "choke" and n.style == "iot":
                how = "code"
            self.heal_one((id(n), g))
            self.w.fault(f"fail_{how}")
            if n.style == "iot":
                if how == "code" and whole and r.random() < 0.4:           # the whole target
                    for t, c in cand:
                        if t == g[0]:
                            self.bad[id(n), (t, c)] = (n, how, None)
                elif how == "code":
                    self.bad[id(n), g] = (n, how, st["code"])
                else:
                    m = r.choice(MALF)
                    self.bad[id(n), g] = (n, how, m if isinstance(m, dict) else {})
                continue
            if how == "code":
                n.fail[g] = st["code"]
            elif how == "malformed":
                n.hook[g] = lambda p, m=r.choice(MALF): {"error_code": 0, "result": copy.deepcopy(m)}
            self.bad[id(n), g] = (n, how, None)
        self.sync()

    def cand(self, n):
        return getters(self.s.eng, n)

    def heal_one(self, k):
        if k not in self.bad:
            return
        n, how, x = self.bad.pop(k)
        if n.style == "iot":
            if how == "code" and x is None:
                for o in [o for o in self.bad if o[1][0] == k[1][0]]:
                    self.bad.pop(o)
        else:
            n.fail.pop(k[1], None)
            n.hook.pop(k[1], None)

    def heal(self, r=None):
        for k in sorted(self.bad, key=lambda k: (str(k[1]), getattr(self.bad[k][0], 'id', ''))):
            if r is None or r.random() < 0.6:
                self.heal_one(k)
        self.sync()

    def sync(self):
        if self.m.style == "iot":
            self.m.fail = {g if x is not None else g[0]: x or -1 for (_, g), (_, how, x) in self.bad.items() if how == "code"}
            self.m.malformed = {g: x for (_, g), (_, how, x) in self.bad.items() if how == "malformed"}
        if self.s.eng:
            self.s.eng.bad = {k: b[1] for k, b in self.bad.items()}

    def limit(self):
        """Heal what is about to be given up by the library."""
        e = self.s.eng
        for p in e.pairs():
            for name, m, ks in e.modules(p):
                run = e.runs.get((p.name, name))
                if run and run[2] >= 8:
                    for g in ks:
                        self.heal_one((id(p.node), g))
        self.sync()


async def update(w, s, f):
    s.eng.mark()
    t0 = w.now
    kind, val = await outcome(w, s.kd.update(), "update")
    if kind != "ok":
        w.fail("update", f"update of {s.model.model_name} failed because of {sorted({f'{g} {how}' for (i, g), (n, how, _) in f.bad.items()})}: {kind} {val}")
        return
    s.eng.verify(t0)
    f.limit()


CRIT = {"iot": [("system", "get_sysinfo"), "system"], "smart": ["get_device_info", "component_nego", "get_child_device_list", "get_child_device_component_list"],
        "cam": ["getDeviceInfo", "getAppComponentList", "getChildDeviceList", "getChildDeviceComponentList", "getConnectionType"]}
INFO = {("system", "get_sysinfo"), "system", "get_device_info", "getDeviceInfo"}


def crit(w, s, st):
    """Make the device's own information fail; returns the getters and how to heal them."""
    r = random.Random(st["r"])
    m = s.model
    names = r.sample(CRIT[m.style], min(len(CRIT[m.style]), st["k"]))
    if m.style != "iot" and (r.random() < 0.4 or {"get_child_device_list", "getChildDeviceList"} & set(names) and r.random() < 0.85):
        names = [CRIT[m.style][0]]
    saved = dict(m.fail)
    for g in names:
        w.fault("fail_information")
        m.fail[g] = st["code"]

    def heal():
        m.fail.clear()
        m.fail.update(saved)
    return names, heal


async def critical(w, s, st, f):
    """One update without the device's own information."""
    eng = s.eng
    f.heal()
    eng.mutate(random.Random(st["r"]), 2)
    names, heal = crit(w, s, st)
    eng.mark()
    t0 = w.now
    eng.bad = {(id(s.model), g): "code" for g in names}
    eng.blind = bool({"get_child_device_list", "getChildDeviceList"} & set(names))
    kind, val = await outcome(w, s.kd.update(), "update")
    heal()
    if kind.startswith("raw"):
        w.fail("error-class", f"update of {s.model.model_name} while {names} answered with {st['code']}: {kind} {val}")
    elif kind == "ok" and set(names) & INFO:
        w.fail("update-pretended", f"update of {s.model.model_name} succeeded while {names} answered with {st['code']}")
    elif kind == "ok":
        eng.verify(t0)
    else:
        eng.note(t0, judged=False)
    eng.bad, eng.blind = {}, False
    if w.violations:
        return
    await asyncio.sleep(90000)
    await update(w, s, f)


async def critical_first(w, s, st):
    """The first update of an object fails; the next one works."""
    from kasa import DeviceConfig
    from kasa.device_factory import get_protocol

    cls, cfg = type(s.kd), DeviceConfig.from_dict(s.kd.config.to_dict())
    cfg.credentials = s.kd.config.credentials
    await s.kd.disconnect()
    kd = cls(cfg.host, config=cfg, protocol=get_protocol(cfg))
    names, heal = crit(w, s, st)
    kind, val = await outcome(w, kd.update(), "update")
    heal()
    if kind.startswith("raw"):
        w.fail("error-class", f"first update of {s.model.model_name} while {names} answered with {st['code']}: {kind} {val}")
    elif kind == "ok" and set(names) & INFO:
        w.fail("update-pretended", f"first update of {s.model.model_name} succeeded while {names} answered with {st['code']}")
    w.stats["first_" + ("ok" if kind == "ok" else "raised")] += 1
    s.kd = kd
    s.eng = s.engine(w, s.model, kd, s.skip)


async def run(w, plan):
    s = sc.Scenario(w, plan, engine=Eng)
    f = Faults(w, s)
    if not await s.connect():
        return
    if plan.get("crit"):
        await update(w, s, f)
        if w.violations:
            return
        await critical_first(w, s, plan["crit"])
        if w.violations:
            return
        await asyncio.sleep(90000)
        f.sync()
    w.nontrivial = True
    await update(w, s, f)
    if plan["early"] and not w.violations:
        # some functions fail from the very first update on
        await s.kd.disconnect()
        r = plan["steps"][0]["r"]
        f.fail({"r": r, "n": 1 + r % 3, "how": "code", "code": CODES[r % len(CODES)]}, whole=False)
        w.stats["early"] += 1
        s.eng.mark()
        marks, t0 = s.eng.marks, w.now
        if not await s.connect():
            return
        s.eng.early, s.eng.marks = True, marks
        f.sync()
        s.eng.note(t0)
        await update(w, s, f)
    for st in plan["steps"]:
        if w.violations:
            return
        if st["op"] == "fail":
            f.fail(st)
        elif st["op"] == "heal":
            f.heal(random.Random(st["r"]))
        elif st["op"] == "upd":
            await update(w, s, f)
        elif st["op"] == "crit":
            await critical(w, s, st, f)
        elif st["op"] == "sleep":
            await asyncio.sleep(st["secs"])
        elif st["op"] == "mut":
            s.eng.mutate(random.Random(st["r"]), st["n"])
    if w.violations:
        return
    f.heal()
    await asyncio.sleep(90000)
    await update(w, s, f)
    if w.violations:
        return
    if s.eng.dead:
        return
    asked = {s.eng.gkey(p, g) for p in s.eng.pairs() for _, _, ks in s.eng.modules(p) for g in ks}
    if left := [k for k, v in s.eng.err.items() if v and k in asked]:
        w.fail("not-cured", f"{s.model.model_name}: {[g for _, g in left]} not asked again though it answers properly for more than a day")
        return
    if plan["fresh"] and not plan["early"]:
        await s.fresh()
    await s.kd.disconnect()
