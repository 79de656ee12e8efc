"""The library's view of a device compared with the simulated device behind it."""

from __future__ import annotations

import asyncio
import datetime as _dt

from . import features as ft
from .models import diff


class Pair:
    """One library device object and the (child) device it stands for."""

    def __init__(self, kd, node, *, parent=None, child=None, name="dev"):
        self.kd, self.node, self.parent, self.child, self.name = kd, node, parent, child, name
        self.table = ft.TABLE[node.style]

    def __repr__(self):
        return self.name


def pairs(model, kd):
    out = [top := Pair(kd, model, name=model.model_name)]
    for c in kd.children:
        if model.style == "iot":
            out.append(Pair(c, model, parent=top, child=c.child_id, name=f"{model.model_name}[{c.child_id[-2:]}]"))
        else:
            k = model.kid(c.device_id)
            if k is not None:
                out.append(Pair(c, k, parent=top, name=f"{model.model_name}[{k.name}]"))
    return out


class Shot:
    """What the device had reported at some moment."""

    def __init__(self, model):
        self.data = {id(n): dict(n.answered) for n in [model, *(model.kids.values() if isinstance(model.kids, dict) else model.kids or ())]
                     if hasattr(n, "answered")}

    def view(self, p):
        return ft.View(p.node, p.kd, self.data.get(id(p.node), {}), self.view(p.parent) if p.parent else None, p.child)


def live(p):
    return ft.View(p.node, p.kd, None, live(p.parent) if p.parent else None, p.child)


def shown(p, fid):
    """(True, value) or (False, text of the exception)."""
    try:
        return True, (ft.x_value(p.kd, fid) if fid.startswith("x:") else p.kd.features[fid].value)
    except ft.Skip:
        raise
    except Exception as ex:  # noqa: BLE001
        return False, f"{type(ex).__name__}: {ex}"


CHILDPATH = {("power",): [("kids", "{c}", "on"), ("sys", "children", "{i}", "state")], ("sys", "alias"): [("sys", "children", "{i}", "alias")],
             ("rules",): [("kids", "{c}", "rules")], ("energy",): [("kids", "{c}", "energy")], ("usage",): [("kids", "{c}", "usage")]}


def allowed(p, paths):
    """Paths of the model's snapshot a command on this pair may change."""
    n = p.node
    if n.style != "iot":
        pre = ("kids", n.id) if p.parent else ()
        return [pre + q for q in paths if q[0] != "kids"]
    if p.child is None:
        return list(paths)
    i = next(j for j, c in enumerate(n.sys["children"]) if c["id"] == p.child)
    sub = {"{c}": p.child, "{i}": i}
    return [tuple(sub.get(x, x) for x in r) for q in paths for r in CHILDPATH.get(q, [])]


def covers(pattern, path):
    return len(pattern) <= len(path) and all(a == "*" or a == b for a, b in zip(pattern, path))


def overlaps(a, b):
    return all(x == "*" or y == "*" or x == y for x, y in zip(a, b))


def dig(o, path):
    for x in path:
        o = o[x]
    return o


VOLATILE = {"get_device_time", "getClockStatus", "get_energy_usage", "get_emeter_data", "get_current_power", "get_device_usage"}


CORE = {"state", "turn_on", "turn_off", "brightness", "light_state", "hsv", "color_temp", "light_effect", "light_preset", "effect",
        "dim_on", "dim_off", "bulb_fade"}


class Cmd:
    """One chosen command."""

    def __init__(self, p, name, arg, spec, feature):
        self.p, self.name, self.arg, self.spec, self.feature = p, name, arg, spec, feature
        self.paths = allowed(p, spec.paths)
        self.record = allowed(p, spec.record)

    def __repr__(self):
        return f"{self.p.name}.{self.name}({self.arg!r})"

    def coro(self):
        if self.feature:
            return self.p.kd.features[self.name].set_value(self.arg)
        return self.spec.do(self.p.kd, self.arg)

    def took(self, v, execs, before):
        """Whether the device is in the requested state."""
        if not self.feature:
            return self.spec.check(v, self.arg, execs, before)
        if self.spec.check:
            return self.spec.check(v, self.arg)
        return ft.same(self.spec.read(v), self.spec.want(self.arg))


class Engine:
    """Drives one library device object and compares it with its simulated device."""

    def __init__(self, w, model, kd, skip=()):
        self.w, self.model, self.kd = w, model, kd
        self.shot = None
        self.shown = {}
        self.moved = False       # the device changed by itself since the last update
        self.touched = []        # paths changed by own commands since the last update
        self.skip = set(skip)
        self.failed = set()      # getters answering with errors
        self.sick = set()        # ids of devices not answering properly at present

    # ---- reading
    def pairs(self):
        return pairs(self.model, self.kd)

    def each(self):
        for p in self.pairs():
            if p.parent and getattr(p.node, "id", None) in self.sick:
                continue
            for fid in ft.applicable(p.kd, p.node):
                if fid not in self.skip:
                    yield p, fid, p.table[fid]

    def interval(self, p, getter):
        if isinstance(getter, tuple) or getter in ("info", "parent"):
            return 0
        hubkid = p.parent is not None and p.parent.kd.device_type.name == "Hub"
        return 86400 if hubkid else ft.INTERVAL.get(getter, 0)

    def verify(self, t0, settled=True):
        """Everything shown equals what the device had reported, freshly."""
        self.shot = Shot(self.model)
        self.shown = {}
        n = 0
        for p, fid, f in self.each():
            view = self.shot.view(p)
            try:
                want = f.read(view)
            except ft.Skip:
                continue
            try:
                ok, val = shown(p, fid)
            except ft.Skip:
                continue
            n += 1
            if not ok:
                self.w.fail("value-raises", f"after a successful update {p.name} {fid} cannot be read: {val}; the device reported {want!r}")
                continue
            if not ft.same(val, want, f.tol):
                self.w.fail("mirror", f"{p.name} shows {fid} = {val!r} but the device reported {want!r} in this update")
            for g, t in view.used.items():
                if t < t0 - self.interval(p, g) - 1e-9:
                    self.w.fail("stale", f"{p.name} {fid}: {g} was last reported {t0 - t:.1f} s before this update")
            self.shown[p.name, fid] = val
            for g, t in view.used.items():
                if any(n is p.node and h == g and tt > t for n, h, tt in self.touched):
                    self.w.fail("not-shown", f"{p.name} {fid}: a command changed {g}, but this update still shows the data from before ({val!r})")
        self.w.stats["values"] += n
        self.moved, self.touched = False, []

    def hold(self, commanded=False, only=None):
        """Nothing changes between updates (except by own commands)."""
        for p, fid, f in self.each():
            if (p.name, fid) not in self.shown or (only and not only(p)):
                continue
            try:
                ok, val = shown(p, fid)
            except ft.Skip:
                continue
            old = self.shown[p.name, fid]
            if ok and (val == old or ft.same(val, old)):
                continue
            if commanded and ok:
                try:
                    if ft.same(val, f.read(live(p))):
                        self.shown[p.name, fid] = val
                        continue
                except ft.Skip:
                    pass
            self.w.fail("drift", f"{p.name} {fid} changed from {old!r} to {val!r} without an update")

    # ---- changes at the device
    def mutate(self, rng, n=1):
        done = 0
        for _ in range(n * 4):
            ps = [p for p in self.pairs() if p.child is None]
            p = rng.choice(ps)
            fids = [f for f in ft.applicable(p.kd, p.node) if p.table[f].mut]
            if not fids:
                continue
            fid = rng.choice([f for f in fids if f in CORE] or fids) if rng.random() < 0.3 else rng.choice(fids)
            p.table[fid].mut(p.node, rng)
            self.w.log("mutate", dev=p.name, what=fid)
            self.moved = True
            done += 1
            if done == n:
                break
        return done

    # ---- commands
    def choose(self, rng, only=None, nodep=False):
        from .ops import OPS

        nodep = nodep or not self.synced()
        for _ in range(30):
            ps = [q for q in self.pairs() if only is None or only(q)]
            p = ps[0] if rng.random() < 0.3 else rng.choice(ps)
            cands = [(fid, p.table[fid], True) for fid in ft.applicable(p.kd, p.node)
                     if p.table[fid].paths and not fid.startswith("x:") and p.kd.features[fid].attribute_setter and fid != "hsv"]
            v = self.shot.view(p)
            for name, op in OPS.items():
                try:
                    if p.node.style in op.styles and op.when(p, v):
                        cands.append((name, op, False))
                except (ft.Skip, KeyError):
                    continue
            if not cands:
                continue
            core = [c for c in cands if c[0] in CORE]
            name, spec, feat = rng.choice(core if core and rng.random() < 0.4 else cands)
            if nodep and (any(c in p.node.components for c in spec.dep) if isinstance(spec.dep, tuple) and p.node.style != "iot" else spec.dep is True):
                continue
            try:
                arg = self.feature_arg(rng, p, name, spec, v) if feat else spec.args(rng, p, v)
            except ft.Skip:
                continue
            if arg is None and (feat or name in ("save_preset", "rule")):
                continue
            return Cmd(p, name, arg, spec, feat)
        return None

    def feature_arg(self, rng, p, fid, spec, v):
        f = p.kd.features[fid]
        if spec.val:
            return spec.val(rng, v)
        t = f.type.name
        if t == "Switch":
            return rng.random() < 0.5
        if t == "Choice":
            return rng.choice(list(f.choices))
        if t == "Number":
            lo, hi = f.minimum_value, f.maximum_value
            if isinstance(lo, _dt.timedelta):
                lo, hi = lo.total_seconds() * 1000, hi.total_seconds() * 1000
            lo, hi = int(lo), int(hi)
            return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])
        return None

    async def command(self, cmds, faults=False, judge=True):
        """Execute commands (concurrently if several) and judge the effects."""
        from .client import outcome
        from .ops import before as facts

        w = self.w
        fail = w.fail if judge else lambda *a: None
        nodes = self.nodes()
        marks = {id(n): len(n.execs) for n in nodes}
        pre = [facts(c.p, live(c.p)) for c in cmds]
        a = self.model.snap()
        t0 = w.now
        if len(cmds) == 1:
            res = [await outcome(w, cmds[0].coro(), repr(cmds[0]))]
        else:
            res = await asyncio.gather(*(outcome(w, c.coro(), repr(c)) for c in cmds))
        b = self.model.snap()
        w.stats["commands"] += len(cmds)
        for c in cmds:
            w.stats[f"cmd:{c.name}"] += 1
        changed = [q for q in diff(a, b) if q != ("clock",) or any(c.name == "time" for c in cmds)]
        execs = {id(n): n.execs[marks[id(n)]:] for n in nodes}
        for c, (kind, val), f in zip(cmds, res, pre):
            mine = [e for e in execs[id(c.p.node)] if c.p.child is None or c.p.child in e[4]]
            if kind != "ok":
                if not faults:
                    fail("refused", f"{c!r}: {kind} {val} although nothing was wrong")
                continue
            if len(cmds) == 1 or not isinstance(c.spec, OpType()):
                try:
                    good = c.took(live(c.p), mine, f)
                except ft.Skip:
                    good = True
                if not good and not (faults and not c.paths):
                    fail("no-effect", f"{c!r} returned successfully but the device is not in that state "
                           f"(executed: {[e[1:4] for e in mine]}; changed: {changed})")
        paths = [q for c in cmds for q in c.paths]
        recs = [q for c in cmds for q in c.record]
        for q in changed:
            if any(covers(r, q) for r in paths):
                continue
            if any(covers(r, q) for r in recs) and self.reported(q, b):
                continue
            fail("side-effect", f"{cmds!r} also changed {'.'.join(map(str, q))} on the device "
                   f"({_at(a, q)!r} -> {_at(b, q)!r})")
        if not faults:
            seen = set()
            for n in nodes:
                for e in execs[id(n)]:
                    k = (id(n), repr(e[1:-1]))
                    if k in seen and len(cmds) == 1:
                        fail("twice", f"{cmds!r}: {e[1:4]} was executed twice without any fault")
                    seen.add(k)
        for q in changed:
            n, q = self.owner(q)
            if q in ft.DYN:          # the device ends effects by itself; the rules stay
                continue
            self.touched.append((n, q[0], w.now))
        w.log("changed", cmds=repr(cmds), paths=len(changed), secs=round(w.now - t0, 3))
        return res

    def nodes(self):
        k = self.model.kids
        return [self.model] if self.model.style == "iot" or not k else [self.model, *k]

    def owner(self, q):
        """(node, path within the node) of a snapshot path."""
        if self.model.style != "iot" and q[0] == "kids" and len(q) > 1 and (k := self.model.kid(q[1])) is not None:
            return k, q[2:] or ("",)
        return self.model, q

    def synced(self):
        """Whether the library knows the present state of the device."""
        if self.moved or self.touched:
            return False
        if self.model.style == "iot":
            return True
        for n in self.nodes():
            n.live()
            for g, (_, was) in self.shot.data.get(id(n), {}).items():
                now = n.info.get(g) if g != "parent" else (n.cifp if n.style == "cam" else n.dev)
                if g not in VOLATILE and [d for d in diff(was, now) if d[-1] not in ("on_time", "auto_off_remain_time")]:
                    return False
        return True

    def reported(self, q, after):
        """The value now at q is the one last reported (settings written as one record)."""
        for p in self.pairs():
            pre = ("kids", p.node.id) if p.parent and p.node.style != "iot" else ()
            if q[:len(pre)] != pre or (not pre and q[0] == "kids"):
                continue
            r = q[len(pre):]
            view = self.shot.view(p)
            try:
                return dig(view.get(r[0]) if r[0] != ft.INFO else view.info(), r[1:]) == _at(after, q)
            except (KeyError, IndexError, TypeError, ft.Skip):
                return False
        return False


def OpType():
    from .ops import Op
    return Op


def _at(o, path):
    try:
        return dig(o, path)
    except (KeyError, IndexError, TypeError):
        return "<absent>"
