"""Echo application models: every answer carries the token of its request."""

from __future__ import annotations

import hashlib


def filler(token, n):
    """Deterministic bulky text, different for every token."""
    if n <= 0:
        return ""
    h = hashlib.sha256(str(token).encode()).hexdigest()
    return (h * (n // len(h) + 1))[:n]


def answer(params):
    params = params or {}
    t = params.get("token")
    return {"token": t, "n": params.get("n", 0), "pad": filler(t, params.get("size", 0))}


class EchoIot:
    def __init__(self):
        self.tokens = []

    def handle(self, req):
        out = {}
        if not isinstance(req, dict):
            return {"err_code": -1}
        for target, cmds in req.items():
            if target == "context":
                continue
            o = {}
            for cmd, par in (cmds or {}).items():
                if target == "system" and cmd == "get_sysinfo":
                    o[cmd] = {"err_code": 0, "alias": "x", "model": "HS100(EU)", "deviceId": "D", "mac": "50:C7:BF:00:00:01",
                              "hw_ver": "1", "sw_ver": "1", "type": "IOT.SMARTPLUGSWITCH", "relay_state": 1, "feature": "TIM"}
                    continue
                self.tokens.append((par or {}).get("token"))
                o[cmd] = {**answer(par), "err_code": 0}
            out[target] = o
        return out


class EchoSmart:
    """SMART style methods; multipleRequest; per-token error scripts."""

    def __init__(self, cam=False):
        self.tokens = []
        self.cam = cam
        self.codes = {}        # token -> list of error codes to return before succeeding
        self.batches = []      # sizes of multipleRequest batches
        self.batch_fail = None  # (code) answer every batch larger than one with this code
        self.stop_on_error = False
        self.drop_method_key = set()

    def single(self, m, params, raw=None):
        if m in ("get", "set", "do") and self.cam:
            out = {"error_code": 0}
            for k, v in (raw or {}).items():
                if k == "method":
                    continue
                self.tokens.append((v or {}).get("token"))
                if m == "get":
                    out[k] = answer(v)
                elif m == "do":
                    out[k] = answer(v)
            return out
        if m == "multipleRequest":
            reqs = params["requests"]
            self.batches.append(len(reqs))
            if self.batch_fail is not None and len(reqs) >= 1:
                return {"error_code": self.batch_fail}
            res = []
            for r in reqs:
                a = self.single(r["method"], r.get("params"), r)
                a = dict(a)
                if r["method"] not in self.drop_method_key:
                    a["method"] = r["method"]
                res.append(a)
                if a["error_code"] != 0 and self.stop_on_error:
                    break
            return {"error_code": 0, "result": {"responses": res}}
        if m == "control_child":
            d = params["requestData"]
            return {"error_code": 0, "result": {"responseData": self.single(d["method"], d.get("params"), d)}}
        if m == "controlChild":
            c = params["childControl"]
            d = c["request_data"]
            return {"error_code": 0, "result": {"response_data": self.single(d["method"], d.get("params"), d)}}
        p = params or {}
        if self.cam and "token" not in p and p:
            sec = next(iter(p))
            inner = p[sec] if isinstance(p[sec], dict) else {}
            tok = inner.get("token")
        else:
            sec, inner, tok = None, p, p.get("token")
        self.tokens.append(tok)
        codes = self.codes.get(tok)
        if codes:
            c = codes.pop(0)
            if c:
                return {"error_code": c}
        if m.startswith("set") and not self.cam and inner.get("void", False):
            return {"error_code": 0}
        a = {**answer(inner), "m": m}
        return {"error_code": 0, "result": {sec: a} if sec else a}

    def handle(self, req):
        return self.single(req.get("method"), req.get("params"), req)


def make_app(kind):
    if kind in ("xor", "klap1", "linkie"):
        return EchoIot()
    return EchoSmart(cam=kind.startswith("sslaes"))


STYLE = {"xor": "iot", "klap1": "iot", "linkie": "iot", "klap2": "smart", "klap2s": "smart", "aes": "smart",
         "aes2": "smart", "ssl": "smart", "sslaes": "cam", "sslaes_md5": "cam", "sslaes_plain": "cam"}


def make_query(kind, token, size=0, form=0):
    """A request carrying token and a function that extracts the answers."""
    st = STYLE[kind]
    p = {"token": token, "size": size}
    if st == "iot":
        return {"echo": {"run": p}}
    if st == "smart":
        if form == 1:
            return {f"echo{i}": {"token": f"{token}.{i}", "size": size} for i in range(3)}
        if form == 2:
            return {f"echo{i}": {"token": f"{token}.{i}", "size": size} for i in range(8)}
        return {"echo": p}
    if form == 1:
        return {f"getEcho{i}": {"echo": {"token": f"{token}.{i}", "size": size}} for i in range(3)}
    if form == 2:
        return {f"getEcho{i}": {"echo": {"token": f"{token}.{i}", "size": size}} for i in range(8)}
    if form == 3:
        return {"get": {"echo": p}}
    return {"getEcho": {"echo": p}}


def expected(kind, query):
    """The device's answer to the query, independently computed."""
    st = STYLE[kind]
    out = {}
    if st == "iot":
        for t, cmds in query.items():
            out[t] = {c: {**answer(p), "err_code": 0} for c, p in cmds.items()}
        return out
    for m, p in query.items():
        if st == "smart":
            out[m] = {**answer(p), "m": m}
        elif m == "get":
            k = next(iter(p))
            out[m] = {k: answer(p[k])}
        else:
            sec = next(iter(p))
            out[m] = {sec: {**answer(p[sec]), "m": m}}
    return out


def tokens_of(query):
    out = []

    def walk(o):
        if isinstance(o, dict):
            if "token" in o:
                out.append(o["token"])
            for v in o.values():
                walk(v)
    walk(query)
    return out
