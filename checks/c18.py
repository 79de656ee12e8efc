"""C18: a multi-part query returns every part, complete and in place."""

import asyncio

from checks.c03 import child_of
from sim.client import TRANSIENT_X, default_creds, gen_fault, gen_seg, make_protocol, outcome
from sim.device import Device
from sim.echo import STYLE, filler

ID = "C18"
QUICK = 9000
THOROUGH = 300000
RULE = ("Seeded plan: transport, client batch size, device batch limit, stop-at-first-error or not, methods without a method key, "
        "1-17 methods (plain, without result, paged lists, error codes, errors on a later page), direct or through a child channel, "
        "transport faults within the retry budget at random exchanges, 1-4 consecutive or concurrent queries.")
SMART = ["klap2", "klap2s", "aes", "aes2", "ssl", "sslaes", "sslaes", "sslaes_md5"]
CODES = [-1, -1002, -1008, -1301, -2201, -40106, -40209, -54321, -1401]
TRANS = [f for f in TRANSIENT_X if not f.endswith("_mid")] + ["stall_mid"]     # cured by retries (see C04)
SOFT = [-1001, 9999, -1501, -1003]       # only where the code belongs to one part
NOKEY = ["getConnectStatus", "scanApList"]


def gen_method(rng, j, cam, page, child, soft):
    name = (rng.choice(["get", "get", "set", "test"]) if cam else rng.choice(["get_", "get_", "set_", "do_"])) + (f"Part{j}" if cam else f"part{j}")
    m = {"name": name, "size": rng.choice([0, 0, 10, 300])}
    r = rng.random()
    if r < 0.2:
        m["code"] = rng.choice(CODES + soft)
    elif r < 0.42 and not child:
        m["name"] = name.replace("set", "get").replace("do_", "get_").replace("test", "get")
        m["list"] = rng.choice([0, 1, page - 1, page, page + 1, 2 * page, 2 * page + 1, rng.randint(0, 40)])
        if rng.random() < 0.15:
            m["page_code"] = rng.choice(CODES)
            m["page_at"] = rng.randint(1, 3)
    elif r < 0.5:
        m["void"] = True
    m["params"] = cam or rng.random() < 0.7
    return m


def gen(rng, i):
    kind = SMART[i % len(SMART)]
    cam = STYLE[kind] == "cam"
    page = rng.choice([1, 2, 5, 10])
    plan = {"kind": kind, "batch": rng.choice([None, None, 1, 2, 3, 5, 8, 100]), "page": page,
            "uneven": rng.random() < 0.3,
            "limit": rng.choice([None, None, None, 2, 4]), "limit_code": rng.choice([-1003, -100000]),
            "stop": rng.random() < 0.6, "child": rng.random() < 0.25, "together": rng.random() < 0.25, "queries": []}
    for q in range(rng.randint(1, 4)):
        ms = [gen_method(rng, j, cam, page, plan["child"], [] if kind == "ssl" else SOFT) for j in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 17]))]
        for m in ms:
            if plan["uneven"]:
                m.pop("page_code", None)
            if cam and not plan["child"] and rng.random() < 0.12:
                m["name"] = rng.choice(NOKEY)
                for k in ("list", "page_code", "page_at", "code"):
                    m.pop(k, None)
        seen, out = set(), []
        for m in ms:
            if m["name"] not in seen:
                seen.add(m["name"])
                out.append(m)
        faults = []
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 2)):
                f = gen_fault(rng, TRANS)
                f["skip"] = rng.randint(0, 8)
                f["only"] = "request"
                faults.append(f)
        plan["queries"].append({"methods": out, "faults": faults, "seg": gen_seg(rng) if rng.random() < 0.2 else None})
    return plan


def item(tok, name, k):
    return {"id": k, "of": f"{tok}/{name}"}


class Parts:
    """A device answering every method from the script of the query's token."""

    def __init__(self, plan):
        self.plan = plan
        self.cam = STYLE[plan["kind"]] == "cam"
        self.specs = {}
        self.empty = 0
        self.big = 0

    def one(self, m, params):
        if m in ("control_child", "controlChild"):
            c = params.get("childControl") or params
            d = c.get("request_data") or c.get("requestData")
            a = self.handle(d)
            return {"error_code": 0, "result": {"responseData" if m == "control_child" else "response_data": a}}
        p = params or {}
        if self.cam:
            p = next(iter(p.values())) if p else {}
        start = p.get("start_index", 0)
        tok = p.get("token")
        if tok is None:    # without parameters, or a list continuation
            tok = self.last.get(m)
        spec = self.specs.get((tok, m))
        if spec is None:
            return {"error_code": -1002}
        self.last[m] = tok
        if spec.get("code"):
            return {"error_code": spec["code"]}
        if spec.get("void"):
            return {"error_code": 0}
        res = self.result(tok, spec, start)
        if isinstance(res, int):
            return {"error_code": res}
        return {"error_code": 0, "result": res}

    last = {}

    def result(self, tok, spec, start=0, page=None):
        if "list" not in spec:
            return {"m": spec["name"], "token": tok, "pad": filler(tok + spec["name"], spec["size"])}
        n = spec["list"]
        page = page or self.plan["page"]
        if spec.get("page_code") and start and start // page == spec["page_at"]:
            return spec["page_code"]
        if self.plan.get("uneven") and page < 1000:  # the device decides how much fits in each page
            page = 1 + (page * 7 + start * 13 + n) % page
        return {"things": [item(tok, spec["name"], k) for k in range(start, min(n, start + page))], "start_index": start, "sum": n,
                "note": filler(tok, 5)}

    def handle(self, req):
        m, params = req.get("method"), req.get("params")
        if m != "multipleRequest":
            return self.one(m, params)
        reqs = params["requests"]
        inner = any(r["method"] in ("controlChild",) for r in reqs)
        if not reqs:
            self.empty += 1
            return {"error_code": -1008}
        if self.plan["limit"] and len(reqs) > self.plan["limit"] and not inner and not self.plan["child"]:
            self.big += 1
            return {"error_code": self.plan["limit_code"]}
        out = []
        for r in reqs:
            a = self.one(r["method"], r.get("params"))
            if r["method"] in NOKEY:
                out.append(a)
                continue
            out.append({**a, "method": r["method"]})
            if a["error_code"] and self.plan["stop"]:
                break
        return {"error_code": 0, "result": {"responses": out}}

    def expected(self, tok, spec):
        from kasa.exceptions import SmartErrorCode

        code = spec.get("code")
        if not code and "list" in spec and spec.get("page_code") and spec["list"] > self.plan["page"] * spec["page_at"]:
            code = spec["page_code"]
        if code:
            try:
                return SmartErrorCode(code)
            except ValueError:
                return SmartErrorCode.INTERNAL_UNKNOWN_ERROR
        if spec.get("void"):
            return None
        r = self.result(tok, {**spec, "page_code": None}, 0, 10 ** 6)
        return r


async def run(w, plan):
    kind = plan["kind"]
    app = Parts(plan)
    app.last = {}
    dev = Device(w, "10.0.0.5", app, kind=kind, creds=default_creds(kind), latency=[0.0005, 0.003])
    base = make_protocol(kind, dev.ip, dev.creds, timeout=3, batch_size=plan["batch"])
    proto = child_of(kind, base) if plan["child"] else base
    for n, q in enumerate(plan["queries"]):
        for s in q["methods"]:
            # a method without parameters answers with the latest token: keep those unambiguous
            app.specs[(f"q{n}", s["name"])] = s
    order = []

    async def one(n, q):
        tok = f"q{n}"
        req = {}
        for s in q["methods"]:
            needs = s["params"] or plan["together"] or "list" in s
            if not needs:
                app.specs[(None, s["name"])] = s
            req[s["name"]] = ({"sec": {"token": tok}} if app.cam else {"token": tok}) if needs else None
        if plan["together"]:
            pass
        else:
            for s in q["methods"]:
                app.last[s["name"]] = tok
        before = {k: dict(v) if isinstance(v, dict) else v for k, v in req.items()}
        k, r = await outcome(w, proto.query(req), "query", token=tok)
        order.append(tok)
        w.stats[f"{'child' if plan['child'] else 'direct'}_{k}"] += 1
        want = {s["name"]: app.expected(tok, s) for s in q["methods"]}
        if any(v == -100000 or "SmartErrorCode" in type(v).__name__ for v in want.values()):
            w.nontrivial = True
        if len(q["methods"]) == 1:
            v = next(iter(want.values()))
            if "SmartErrorCode" in type(v).__name__:
                if k not in ("device", "auth", "kasa") and not (q["faults"] and k == "timeout"):
                    w.fail("lost-error", f"{kind}: the only method failed with {v!r}, the query gave {k}: {str(r)[:200]}")
                return
        if k != "ok":
            w.fail("lost-all", f"{kind}: {len(want)} parts asked ({sum('ErrorCode' in type(v).__name__ for v in want.values())} with an error "
                   f"of their own), the query raised {k}: {r!r}"[:500])
            return
        if set(r) != set(want):
            w.fail("parts", f"{kind}: batch {plan['batch']}: missing {sorted(set(want) - set(r))}, unexpected {sorted(set(r) - set(want))}")
            return
        for m, v in want.items():
            got = r[m]
            if isinstance(got, dict) and isinstance(v, dict) and "things" in v:
                g = [x["id"] for x in got.get("things", []) if x["of"] == f"{tok}/{m}"]
                if len(g) != len(got.get("things", [])) or g != list(range(len(v["things"]))):
                    w.fail("list", f"{kind}: {m} has {len(v['things'])} entries in pages of {plan['page']}, got {g[:60]}")
                continue
            if got != v:
                w.fail("value", f"{kind}: {m} of {tok}: expected {str(v)[:150]}, got {str(got)[:150]}")
        if before != req:
            w.fail("request-changed", f"{kind}: the query changed the caller's request")

    if plan["together"]:
        await asyncio.gather(*(one(n, q) for n, q in enumerate(plan["queries"])))
    else:
        for n, q in enumerate(plan["queries"]):
            dev.disarm()
            dev.arm(q["faults"], [])
            if q["seg"]:
                dev.default_seg = q["seg"]
            await one(n, q)
    dev.disarm()
    if app.big:
        w.nontrivial = True
    await base.close()
