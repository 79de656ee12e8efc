"""C03: every communication failure surfaces as the documented exception."""

import asyncio

from sim.client import KINDS, default_creds, exc_kind, gen_fault, gen_latency, gen_seg, make_protocol, outcome
from sim.device import Device
from sim.echo import make_app, make_query, STYLE

ID = "C03"
QUICK = 9000
THOROUGH = 300000
RULE = ("Seeded plan: transport, one to four queries, and faults of every kind placed on any exchange of handshake, login or "
        "request: silence, cuts, HTTP error statuses, known and unknown error codes, corrupted, malformed and wrongly shaped "
        "replies at the outer and at the inner (decrypted) layer. Single-fault plans also fix the exact class expected.")

STEPS = {"xor": ["request"], "linkie": ["request"], "ssl": ["login", "request"],
         "klap1": ["handshake1", "handshake2", "request"], "klap2": ["handshake1", "handshake2", "request"],
         "klap2s": ["handshake1", "handshake2", "request"], "aes": ["handshake", "login", "request"],
         "aes2": ["handshake", "login", "request"], "sslaes": ["login", "handshake1", "handshake2", "request"],
         "sslaes_md5": ["login", "handshake1", "handshake2", "request"], "sslaes_plain": ["login", "login", "request"]}

JUNK = ["", "null", "[]", "{}", "1", "\"x\"", "true", "{", "nonsense", "{\"error_code\":0}", "{\"error_code\":null}",
        "{\"error_code\":\"0\"}", "{\"error_code\":[1]}", "{\"error_code\":{}}", "{\"error_code\":1.5}", "{\"error_code\":-99999}",
        "{\"error_code\":0,\"result\":null}", "{\"error_code\":0,\"result\":[]}", "{\"error_code\":0,\"result\":\"x\"}",
        "{\"error_code\":0,\"result\":7}", "{\"error_code\":0,\"result\":{}}", "{\"error_code\":0,\"result\":{\"responses\":null}}",
        "{\"error_code\":0,\"result\":{\"responses\":{}}}", "{\"error_code\":0,\"result\":{\"responses\":[1,null]}}",
        "{\"error_code\":0,\"result\":{\"responses\":[]}}",
        "{\"error_code\":0,\"result\":{\"responses\":[{\"method\":\"echoA\"}]}}",
        "{\"error_code\":0,\"result\":{\"responses\":[{\"error_code\":0}]}}",
        "{\"error_code\":0,\"result\":{\"responses\":[{\"method\":[],\"error_code\":0}]}}",
        "{\"error_code\":0,\"result\":{\"responses\":[{\"method\":\"echoA\",\"error_code\":0,\"result\":7}]}}",
        "{\"error_code\":0,\"result\":{\"response\":null}}", "{\"error_code\":0,\"result\":{\"response\":\"\"}}",
        "{\"error_code\":0,\"result\":{\"response\":\"e30=\"}}", "{\"error_code\":0,\"result\":{\"response\":5}}",
        "{\"error_code\":0,\"result\":{\"key\":null}}", "{\"error_code\":0,\"result\":{\"key\":\"AAAA\"}}",
        "{\"error_code\":0,\"result\":{\"token\":null}}", "{\"error_code\":0,\"result\":{\"stok\":null,\"start_seq\":null}}",
        "{\"error_code\":0,\"result\":{\"stok\":\"a\"}}", "{\"error_code\":-40413,\"result\":{\"data\":null}}",
        "{\"error_code\":-40413,\"result\":{\"data\":{\"code\":-40413}}}",
        "{\"error_code\":-40413,\"result\":{\"data\":{\"code\":-40413,\"encrypt_type\":[\"3\"],\"nonce\":1,\"device_confirm\":2}}}",
        "{\"error_code\":-40413,\"result\":{\"data\":{\"code\":-40413,\"nonce\":\"AA\",\"device_confirm\":\"BB\"}}}",
        "{\"error_code\":-40401,\"data\":null}", "{\"error_code\":-40401,\"data\":{\"code\":\"x\"}}",
        "{\"error_code\":-40401,\"result\":{\"data\":{\"code\":-40411,\"encrypt_type\":null}}}",
        "{\"error_code\":-40401,\"result\":{\"data\":{\"code\":-40404,\"sec_left\":\"x\"}}}",
        "{\"error_code\":-40401,\"data\":{\"code\":-40404,\"sec_left\":300}}",
        "{\"echo\":null}", "{\"echo\":{\"err_code\":-1,\"err_msg\":\"m\"}}", "{\"system\":[]}", "[[]]", "{\"a\":1e400}",
        "{\"error_code\":0,\"result\":{\"start_index\":0,\"sum\":5}}",
        "{\"error_code\":0,\"result\":{\"start_index\":0,\"sum\":5,\"l\":[]}}",
        "{\"error_code\":0,\"result\":{\"start_index\":0,\"sum\":\"x\",\"l\":[1]}}",
        "{\"error_code\":0,\"result\":{\"responseData\":null}}", "{\"error_code\":0,\"result\":{\"responseData\":7}}",
        "{\"error_code\":0,\"result\":{\"responseData\":{\"error_code\":-1301}}}",
        "{\"error_code\":0,\"result\":{\"responseData\":{\"result\":{\"responses\":[{}]}}}}",
        "{\"error_code\":0,\"result\":{\"responseData\":{\"result\":{\"responses\":7}}}}",
        "{\"error_code\":0,\"result\":{\"responses\":[{\"method\":\"controlChild\",\"error_code\":-40101}]}}",
        "{\"error_code\":0,\"result\":{\"responses\":[{\"method\":\"controlChild\",\"error_code\":0,\"result\":{\"response_data\":null}}]}}",
        "{\"error_code\":0,\"result\":{\"responses\":[{\"method\":\"controlChild\",\"error_code\":0}]}}",
        "\u00ff\u00fe", "{\"error_code\":99999999999999999999}"]
CODES = [9999, 1200, 1112, 1111, 1100, 1003, 1002, 1001, 1000, -1, -1001, -1002, -1003, -1004, -1005, -1006, -1007, -1008, -1010,
         -1101, -1201, -1301, -1302, -1401, -1501, -1601, -1701, -1802, -1901, -2101, -2201, -3001, -40101, -40209, -40401,
         -40411, -40412, -40404, -40405, -40407, -40409, 40108, -40106, -40109, -40413, -40210, -69051, -72101, -100000,
         -100001, -77, 5, 123456, -55555]
FK = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_before", "fin_after", "stall_mid", "rst_mid", "fin_mid",
      "delay", "session_lost", "reboot", "http_status", "outer_code", "inner_code", "inner_replace", "replace", "corrupt",
      "unencrypted", "plain_error", "badlen", "badhttp", "trickle"]
CONNF = ["slow_accept", "unreachable", "enetdown", "emfile", "blackhole", "refuse", "accept_rst", "accept_fin", "accept_mute",
         "tls_fail", "tls_reset", "tls_stall"]


def mkfault(rng, kinds, kind):
    f = gen_fault(rng, kinds)
    k = f["kind"]
    if k == "http_status":
        f["status"] = rng.choice([400, 401, 403, 404, 405, 411, 413, 429, 500, 500, 502, 503, 204, 301, 302])
        f["body"] = rng.choice(["", "x", "{}", "{\"error_code\":-40401}", "<html>", "\u0000"])
    elif k in ("outer_code", "inner_code"):
        f["code"] = rng.choice(CODES)
    elif k in ("inner_replace", "replace"):
        f["text"] = rng.choice(JUNK)
    elif k == "corrupt":
        f["how"] = rng.choice(["random", "trunc", "flip", "empty", "text", "len"])
    if rng.random() < 0.7:
        f["only"] = rng.choice(STEPS[kind])
        f.pop("skip", None)
    return f


EXACT = ["drop_req", "drop_reply", "stall_mid", "delay", "rst_before", "rst_after", "fin_before", "fin_after", "code", "connect"]


def gen(rng, i):
    kind = KINDS[i % len(KINDS)]
    plan = {"kind": kind, "latency": gen_latency(rng), "timeout": rng.choice([1, 3])}
    if plan["latency"][1] * 3 >= plan["timeout"]:
        plan["timeout"] = 5
    if rng.random() < 0.4:
        k = rng.choice(EXACT)
        plan["latency"] = rng.choice([[0.0005, 0.002], [0.001, 0.02]])
        f = {"kind": k, "only": rng.choice(STEPS[kind])}
        if k == "stall_mid":
            f["frac"] = round(rng.random() * 0.95, 3)
        elif k == "delay":
            f["delay"] = plan["timeout"] + 1.0
        elif k == "code":
            f = {"kind": "inner_code", "only": "request", "code": rng.choice(CODES)}
            if STYLE[kind] == "iot":
                f = {"kind": "drop_req", "only": "request"}
            elif kind.startswith("klap"):
                f["kind"] = "outer_code"
        plan["exact"] = f
        if k == "connect":
            plan["exact"] = {"connect": rng.choice(CONNF[1:])}
        plan["form"] = 0
        plan["warm"] = rng.random() < 0.3
        return plan
    plan["ops"] = [{"size": rng.choice([0, 200]), "form": rng.choice([0, 0, 1, 2, 3]), "retry": rng.choice([0, 0, 1, 3]),
                    "child": rng.choice([0, 0, 1]), "multi": rng.random() < 0.5}
                   for _ in range(rng.randint(1, 4))]
    plan["faults"] = [mkfault(rng, FK, kind) for _ in range(rng.randint(1, 5))]
    plan["conn"] = [rng.choice(CONNF) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    if rng.random() < 0.4:
        # long-lasting shape trouble: every exchange of one step is wrong in the same way
        f = mkfault(rng, ["inner_replace", "replace", "inner_code", "outer_code", "http_status"], kind)
        f["forever"] = True
        plan["faults"].append(f)
    return plan


def documented(kind):
    return not kind.startswith("raw:")


async def run(w, plan):
    kind = plan["kind"]
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"])
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=plan["timeout"])
    if "exact" in plan:
        await exact(w, plan, dev, proto)
        await proto.close()
        return
    dev.arm(expand(plan["faults"]), [{"kind": c} for c in plan["conn"]])
    for n, op in enumerate(plan["ops"]):
        q = make_query(kind, f"t{n}", op["size"], op["form"])
        p = proto
        if op["child"] and STYLE[kind] != "iot":
            p = child_of(kind, proto)
            q = {"echoX": {"token": f"t{n}"}}
            if op["multi"]:
                q["echoY"] = {"token": f"u{n}"}
        k, r = await outcome(w, p.query(q, retry_count=op["retry"]), "query", n=n)
        w.stats["out_" + k.split(":")[0]] += 1
        if k.startswith("raw:"):
            w.fail("raw-exception", f"{kind}: query raised {type(r).__name__}: {str(r)[:200]} {where(r)}")
    await proto.close()


def child_of(kind, proto, cid="child1"):
    """The channel a child device talks through."""
    if STYLE[kind] == "smart":
        from kasa.protocols.smartprotocol import _ChildProtocolWrapper as W
    else:
        from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper as W
    return W(cid, proto)


def expand(faults):
    out = []
    for f in faults:
        out.extend([f] * (12 if f.get("forever") else 1))
    return out


def where(ex):
    tb = ex.__traceback__
    loc = ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/kasa/" in fn:
            loc = f"{fn.split('/kasa/', 1)[1]}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return f"(at {loc})"


async def exact(w, plan, dev, proto):
    from kasa.exceptions import SMART_AUTHENTICATION_ERRORS, SmartErrorCode
    kind = plan["kind"]
    f = plan["exact"]
    if plan["warm"]:
        k, r = await outcome(w, proto.query(make_query(kind, "w", 0, 0), retry_count=0), "query")
        if k != "ok":
            w.fail("clean-failure", f"{kind}: fault-free query failed with {k} {r}")
        if "connect" not in f and f.get("only") != "request":
            dev.lose_sessions() if hasattr(dev, "lose_sessions") else None
    if "connect" in f:
        if plan["warm"]:
            dev.host.cut_all("rst")
        dev.arm([], [{"kind": f["connect"]}])
        want = {"blackhole": "timeout", "accept_mute": "timeout", "tls_stall": "timeout"}.get(f["connect"], "kasa")
        if f["connect"].startswith("tls") and dev.port not in dev.host.tls_ports:
            want = "ok"
    else:
        dev.arm([f])
        want = {"drop_req": "timeout", "drop_reply": "timeout", "stall_mid": "timeout", "delay": "timeout",
                "inner_code": "code", "outer_code": "code"}.get(f["kind"], "kasa")
    before = dict(w.faults)
    k, r = await outcome(w, proto.query(make_query(kind, "x", 0, 0), retry_count=0), "query")
    w.stats["exact_" + want] += 1
    if k.startswith("raw:"):
        w.fail("raw-exception", f"{kind}: query raised {type(r).__name__}: {str(r)[:200]} {where(r)}")
        return
    if w.faults == before:      # the fault found no exchange to act on
        return
    if want == "code":
        code = f["code"]
        try:
            ec = SmartErrorCode(code)
        except ValueError:
            ec = SmartErrorCode.INTERNAL_UNKNOWN_ERROR
        want = "auth" if ec in SMART_AUTHENTICATION_ERRORS else "device"
        if k == want:
            if kind.startswith("sslaes") and ec in (SmartErrorCode.JSON_DECODE_FAIL_ERROR, SmartErrorCode.INTERNAL_UNKNOWN_ERROR):
                return      # taken as "this device cannot do batches": a retry without batch follows
            if getattr(r, "error_code", None) is not ec:
                w.fail("wrong-code", f"{kind}: device reported {code}, exception carries {getattr(r, 'error_code', None)!r}")
            return
        w.fail("wrong-class", f"{kind}: device reported error code {code}: expected {want} error, got {k}: {r}")
    elif k != want and not (want == "kasa" and k == "device" and r.error_code is None):
        w.fail("wrong-class", f"{kind}: {f} on a single attempt: expected {want}, got {k}: {str(r)[:200]}")
