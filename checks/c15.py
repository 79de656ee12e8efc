"""C15: the exposed children of a hub follow pairing and unpairing."""

import asyncio
import copy
import random

from sim import scenario as sc
from sim.client import outcome

ID = "C15"
QUICK = 3500
THOROUGH = 90000
RULE = ("Seeded plan: a recorded SMART or camera hub with 0-4 children drawn from all recorded child models; 6-20 steps of pairing, removing, "
        "re-pairing and exchanging children (at the hub, by the library's own pair/unpair, or while an update runs), children of unknown "
        "kind, with missing or malformed component lists or not answering, failing child listings, transient network faults, commands, "
        "updates with and without children, pauses; list pages of 1-10.")
MAX_STEPS = 900000
ASSUMPTIONS = ["child lists change during an update only when they fit on one page", "an unknown kind of child may be exposed by SMART hubs "
               "(as a device of unknown type); camera hubs never expose it"]
prepare = sc.prepare

LISTS = {"smart": ("get_child_device_list", "get_child_device_component_list"), "cam": ("getChildDeviceList", "getChildDeviceComponentList")}
BAD = [{"component_list": "<absent>"}, {"component_list": [{"id": "device"}]}, {"component_list": [{"ver_code": 1}]}, {"component_list": None},
       {"component_list": 5}, {"component_list": [{"name": "sdCard"}]}]
CODES = [-1, -1002, -20571, -40210, -777777]


def gen(rng, i):
    prepare()
    path = sc.HUBS[i % len(sc.HUBS)]
    refs = sc.kid_refs("smartcam" in path)
    plan = {"path": path, "kids": [rng.choice(refs) for _ in range(rng.choice([0, 1, 2, 3, 4]))], "page": rng.choice([1, 2, 3, 10, 10, 10]),
            "latency": rng.choice([[0.0005, 0.003], [0.001, 0.02], [0.02, 0.2]]), "fresh": rng.random() < 0.5}
    steps = []
    for _ in range(rng.randint(6, 20)):
        op = rng.choices(["pair", "remove", "repair", "swap", "api_pair", "api_unpair", "dead", "alive", "listfail", "upd", "sleep", "cmd", "mut"],
                         (4, 4, 3, 3, 1, 1, 1, 1, 1, 10, 1, 1, 1))[0]
        s = {"op": op, "r": rng.randint(0, 1 << 30)}
        if op in ("pair", "swap", "api_pair"):
            s["ref"] = rng.choice(refs)
            s["how"] = rng.choice(["ok"] * 6 + ["unknown", "bad", "missing", "dead"])
        if op == "upd":
            s["children"] = rng.random() < 0.85
            if rng.random() < 0.2:
                s["during"] = {"op": rng.choice(["pair", "remove", "swap"]), "ref": rng.choice(refs), "how": "ok", "r": rng.randint(0, 1 << 30),
                               "at": round(rng.random() * rng.choice([0.02, 0.3]), 4)}
            if rng.random() < 0.2:
                s["faults"] = sc.gen_steps(rng, 1, faults=1.0, weights=(1, 0, 0, 0))[0]["faults"]
        if op == "sleep":
            s["secs"] = rng.choice([1, 35, 400, 90000])
        if op == "cmd":
            s.update(n=1, first=0)
        if op == "mut":
            s["n"] = 2
        steps.append(s)
    plan["steps"] = steps
    return plan


class Hub:
    def __init__(self, w, s):
        self.w, self.s, self.m, self.kd = w, s, s.model, s.kd
        self.n = 0
        self.gone = []
        self.kind = {}           # id -> ok | unknown | bad | missing | dead
        self.objs = {}           # id -> object exposed after the last update
        self.well = {}           # id -> time since when it answers properly
        self.scan = []
        for k in self.m.kids:
            self.kind[k.id] = "ok"
        self.listfail = False
        self.lf = 0              # failed listings in a row
        if self.m.style == "smart":
            self.m.hook |= {"begin_scanning_child_device": lambda p: {"error_code": 0}, "get_scan_child_device_list": self.scanned,
                            "add_child_device_list": self.add}
        else:
            self.m.hook |= {"startScanChildDevice": lambda p: {"error_code": 0, "result": {}}, "getScanChildDeviceList": self.scanned,
                            "addScanChildDeviceList": self.add}

    def ids(self):
        return {k.id for k in self.m.kids}

    def expected(self):
        """(must be exposed, may be exposed)."""
        must, may = set(), set()
        for k in self.m.kids:
            kind = self.kind[k.id]
            if kind == "ok":
                must.add(k.id)
            elif kind == "unknown" and self.m.style == "smart" or kind == "dead":
                may.add(k.id)
                if kind == "dead" and k.id in self.objs:
                    must.add(k.id)
        return must, may | must

    # ---- the hub's own pairing procedure
    def scanned(self, p):
        lst = [{"device_id": k.id, "device_model": "X", "category": "subg.trv", "name": "x"} for k, _ in self.scan]
        r = {"child_device_list": lst, "scan_status": "idle"}
        return {"error_code": 0, "result": r}

    def add(self, p):
        lst = p["child_device_list"] if self.m.style == "smart" else p["childControl"]["child_device_list"]
        for d in lst:
            for k, how in list(self.scan):
                if k.id == d["device_id"]:
                    self.scan.remove((k, how))
                    self.m.kids.append(k)
                    self.kind[k.id] = how
        return {"error_code": 0, "result": {}}

    # ---- changes
    def new(self, ref, how, at=None):
        self.n += 1
        self.w.fault(f"pair_{how}")
        k = self.m.add_kid(copy.deepcopy(sc.kid_raw(ref)), f"new{self.n}", at)
        r = random.Random(self.n)
        if how == "unknown":
            (k.cifp if k.style == "cam" else k.dev)["category"] = "subg.unheard.of"
        elif how == "bad":
            self.m.bad_components = {**self.m.bad_components, k.id: r.choice(BAD)} if self.m.bad_components else {k.id: r.choice(BAD)}
        elif how == "missing":
            self.m.missing_components.add(k.id)
        elif how == "dead":
            self.kill(k.id, r)
        self.kind[k.id] = how
        return k

    def kill(self, did, r):
        self.m.dead = {**dict(self.m.dead or {}), did: r.choice(CODES)}
        self.s.eng.sick.add(did)
        self.well.pop(did, None)

    def change(self, st):
        r = random.Random(st["r"])
        op = st["op"]
        m = self.m
        if op in ("remove", "swap") and m.kids:
            k = r.choice(m.kids)
            self.w.fault("remove")
            m.kids.remove(k)
            self.gone.append(k)
        if op in ("pair", "swap") and len(m.kids) < 8:
            self.new(st["ref"], st["how"], r.randint(0, len(m.kids)))
        if op == "repair" and self.gone:
            self.w.fault("pair_again")
            k = self.gone.pop(r.randrange(len(self.gone)))
            m.kids.insert(r.randint(0, len(m.kids)), k)
        if op == "dead" and m.kids:
            k = r.choice(m.kids)
            if self.kind[k.id] == "ok":
                self.w.fault("child_dead")
                self.kill(k.id, r)
                self.kind[k.id] = "dead"
        if op == "alive" and m.dead:
            did = r.choice(sorted(m.dead))
            m.dead = {a: b for a, b in m.dead.items() if a != did}
            self.kind[did] = "ok"
            self.well[did] = self.w.now
        self.w.log("hub", op=op, kids=[k.name for k in m.kids])
        self.s.eng.moved = True

    def judge(self, before=None):
        """The children exposed after a successful update."""
        must, may = self.expected()
        if before is not None:
            must, may = must & before[0], may | before[1]
        got = {c.device_id: c for c in self.kd.children}
        self.w.stats["listings"] += 1
        if len(got) != len(self.kd.children):
            self.w.fail("duplicate", f"children of {self.m.model_name} exposed twice: {sorted(c.device_id for c in self.kd.children)}")
        name = {k.id: f"{k.name} ({self.kind[k.id]})" for k in [*self.m.kids, *self.gone]}
        if set(got) - may:
            self.w.fail("ghost", f"after the update {self.m.model_name} exposes {[name.get(i, i) for i in sorted(set(got) - may)]}, not paired at that time")
        if must - set(got):
            self.w.fail("missing", f"after the update {self.m.model_name} does not expose {[name.get(i, i) for i in sorted(must - set(got))]}, which is paired")
        for i, c in got.items():
            if i in self.objs and self.objs[i] is not c:
                self.w.fail("replaced", f"{self.m.model_name}: the object of child {name.get(i)} was replaced although it stayed paired")
        self.objs = got

    async def update(self, st):
        w, s, m = self.w, self.s, self.m
        t0 = w.now
        for did, t in list(self.well.items()):
            if t0 - t > 300:
                del self.well[did]
                s.eng.sick.discard(did)
        before, task = None, None
        d = st.get("during")
        if d and m.page >= 9:
            before = self.expected()

            async def later():
                await asyncio.sleep(d["at"])
                self.change(d)
            task = asyncio.ensure_future(later())
        s.dev.arm([dict(f) for f in st.get("faults", [])], [])
        kind, val = await outcome(w, self.kd.update(update_children=st.get("children", True)), "update")
        s.dev.disarm()
        if task is not None:
            task.cancel()
        if kind != "ok":
            w.fail("update", f"update of {m.model_name} with {[self.kind[k.id] for k in m.kids]} failed: {kind} {val}")
            return
        if self.listfail:
            self.lf += 1
            for c in self.kd.children:       # nothing known about pairing; nobody may have been lost or invented
                if c.device_id not in self.objs:
                    self.objs[c.device_id] = c
            if set(self.objs) - {c.device_id for c in self.kd.children}:
                w.fail("missing", f"{m.model_name}: children vanished because the hub could not list them for once")
            s.eng.moved = True
            s.eng.shown = {}
            return
        self.lf = 0
        self.judge(before)
        if w.violations:
            return
        if st.get("children", True) and task is None:
            s.eng.verify(t0)
        else:
            s.eng.moved, s.eng.shown = True, {}

    async def api(self, st):
        from kasa import Module

        w, r = self.w, random.Random(st["r"])
        cs = self.kd.modules.get(Module.ChildSetup)
        if cs is None:
            return
        if st["op"] == "api_pair":
            if len(self.m.kids) >= 8:
                return
            k = self.new(st["ref"], st["how"])
            self.m.kids.remove(k)
            self.scan.append((k, st["how"]))
            t0 = w.now
            kind, val = await outcome(w, cs.pair(timeout=r.choice([1, 10, 30])), "pair")
            if kind != "ok":
                w.fail("pair", f"pairing with {self.m.model_name} failed: {kind} {val}")
                return
            names = [x["device_id"] for x in val]
            if st["how"] == "ok" and names != [k.id] or st["how"] == "bad" and names:
                w.fail("pair", f"pairing a {st['how']} child with {self.m.model_name} reported {val!r}")
        else:
            if not self.m.kids:
                return
            k = r.choice(self.m.kids)
            t0 = w.now
            kind, val = await outcome(w, cs.unpair(k.id), "unpair")
            if kind != "ok":
                w.fail("pair", f"unpairing from {self.m.model_name} failed: {kind} {val}")
                return
            if k in self.m.kids:
                w.fail("pair", f"{self.m.model_name}: unpair returned but the child is still paired")
                return
            self.gone.append(k)
        w.stats[st["op"]] += 1
        self.judge()
        if not w.violations:
            self.s.eng.moved, self.s.eng.shown = True, {}


async def run(w, plan):
    s = sc.Scenario(w, plan)
    if not await s.connect():
        return
    w.nontrivial = True
    h = Hub(w, s)
    await h.update({})
    for st in plan["steps"]:
        if w.violations:
            return
        op = st["op"]
        if op in ("pair", "remove", "repair", "swap", "dead", "alive"):
            h.change(st)
        elif op == "upd":
            await h.update(st)
        elif op in ("api_pair", "api_unpair"):
            await h.api(st)
        elif op == "listfail":
            w.fault("list_error")
            which = random.Random(st["r"]).choice([LISTS[s.model.style][:1], LISTS[s.model.style][1:], LISTS[s.model.style]])
            for g in which:
                s.model.fail[g] = random.Random(st["r"]).choice([-1, -1003, -777777])
            h.listfail = True
            await h.update({})
            h.listfail = False
            for g in which:
                del s.model.fail[g]
            await asyncio.sleep(30.1 * h.lf)     # failing functions are asked again after a delay
        elif op == "cmd":
            if s.eng.shot and s.eng.shown and not s.eng.moved:
                await s.step(st, only=lambda p: getattr(p.node, "id", "") not in s.eng.sick)
        else:
            if op == "mut" and s.eng.shown:
                s.eng.mutate(random.Random(st["r"]), st["n"])
            elif op == "sleep":
                await asyncio.sleep(st["secs"])
    if w.violations:
        return
    await asyncio.sleep(400)
    await h.update({})
    if plan["fresh"] and not w.violations and not s.model.dead and not h.well:
        await s.fresh()
    await s.kd.disconnect()
