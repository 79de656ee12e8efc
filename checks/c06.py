"""C06: every call ends within a time bounded by the configured timeout."""

import asyncio

from checks.c03 import CONNF, FK, STEPS, child_of, mkfault
from sim.client import KINDS, default_creds, make_config, make_protocol, outcome
from sim.device import Device
from sim.echo import STYLE, expected, make_app, make_query
from sim.net import Host

ID = "C06"
QUICK = 6000
THOROUGH = 200000
RULE = ("Seeded plan: transport, timeout setting and one of: one exchange silent (request or reply lost, stalled in mid-reply, "
        "byte-by-byte), a reply just in time, a silent connect, a storm of faults with a total bound, discovery of nobody, "
        "connecting or probing a mute host.")
SLOP = 1.05     # the HTTP library may round deadlines up to whole seconds


def gen(rng, i):
    kind = KINDS[i % len(KINDS)]
    timeout = rng.choice([1, 2, 3, 5, 7, 10, 20])
    mode = rng.choice(["silent", "silent", "silent", "late", "late", "conn", "storm", "storm", "discover", "probe", "forever"])
    plan = {"kind": kind, "timeout": timeout, "mode": mode, "latency": rng.choice([[0.0005, 0.002], [0.001, 0.02]])}
    if mode in ("silent", "forever"):
        f = {"kind": rng.choice(["drop_req", "drop_reply", "stall_mid", "trickle"]), "only": rng.choice(STEPS[kind])}
        if f["kind"] == "stall_mid":
            f["frac"] = round(rng.random() * 0.98, 3)
        if f["kind"] == "trickle":
            f.update(total=timeout * rng.choice([2, 10, 100]), n=rng.choice([10, 40, 200]))
        plan["fault"] = f
        plan["retry"] = rng.choice([0, 1, 3]) if mode == "forever" else 0
        plan["warm"] = rng.random() < 0.4
    elif mode == "late":
        plan["fault"] = rng.choice([{"kind": "delay", "delay": round(timeout * rng.uniform(0.3, 0.88), 3)},
                                    {"kind": "trickle", "total": round(timeout * rng.uniform(0.3, 0.85), 3), "n": rng.choice([3, 20])}])
        plan["fault"]["only"] = rng.choice(STEPS[kind])
        plan["warm"] = rng.random() < 0.4
    elif mode == "conn":
        plan["fault"] = rng.choice(["blackhole", "accept_mute", "tls_stall"])
        plan["retry"] = rng.choice([0, 0, 1, 3])
    elif mode == "storm":
        plan["ops"] = [{"form": rng.choice([0, 0, 1, 2, 3]), "retry": rng.choice([0, 1, 3]), "child": rng.random() < 0.2}
                       for _ in range(rng.randint(1, 4))]
        plan["faults"] = [mkfault(rng, FK, kind) for _ in range(rng.randint(2, 12))]
        plan["conn"] = [{"kind": rng.choice(CONNF)} for _ in range(rng.choice([0, 0, 2]))]
        for f in plan["faults"]:
            if rng.random() < 0.3:
                f["kind"], f["total"], f["n"] = "trickle", 10000, 300
    elif mode == "discover":
        plan["dt"] = rng.choice([1, 2, 5, 5, 7, 10, 0.5])
        plan["packets"] = rng.choice([1, 2, 3, 3, 5, 10])
        plan["single"] = rng.random() < 0.5
        plan["name"] = rng.choice([False, True])
    elif mode == "probe":
        plan["how"] = rng.choice(["accept_mute", "blackhole", "tls_stall", "refuse", "http_mute", "down"])
        plan["all"] = rng.random() < 0.4
    return plan


async def run(w, plan):
    kind, timeout, mode = plan["kind"], plan["timeout"], plan["mode"]
    if mode == "discover":
        return await discover(w, plan)
    if mode == "probe":
        return await probe(w, plan)
    dev = Device(w, "10.0.0.5", make_app(kind), kind=kind, creds=default_creds(kind), latency=plan["latency"])
    proto = make_protocol(kind, dev.ip, dev.creds, timeout=timeout)

    async def query(tok, form=0, retry=0, child=False):
        p, q = proto, make_query(kind, tok, 50, form)
        if child and STYLE[kind] != "iot":
            p, q = child_of(kind, proto), {"echoX": {"token": tok}}
        t0 = w.now
        k, r = await outcome(w, p.query(q, retry_count=retry), "query", token=tok)
        w.stats[f"{mode}_{k.split(':')[0]}"] += 1
        if k == "ok" and not child and mode != "storm" and r != expected(kind, q):
            w.fail("wrong-answer", f"{kind}: {str(r)[:200]}")
        return k, r, w.now - t0

    if plan.get("warm"):
        k, r, el = await query("warm")
        if k != "ok":
            w.fail("spurious", f"{kind}: fault-free query failed: {r}")
    f = plan.get("fault")
    if mode == "silent":
        dev.arm([f])
        n0 = sum(w.faults.values())
        k, r, el = await query("x")
        if sum(w.faults.values()) > n0 and k != "cancelled":
            t_x = [x for x in dev.xlog if x[1] == f["only"]][-1][3]     # when the silent exchange was sent
            gone = w.now - t_x
            if k == "timeout":
                if not timeout - 0.5 <= gone <= timeout + SLOP or gone > el:
                    w.fail("timeout-length", f"{kind}: {f['kind']} on {f['only']}: gave up {gone:.3f} s after sending, timeout is {timeout}")
            elif k == "ok":
                w.fail("no-timeout", f"{kind}: {f['kind']} on {f['only']}: query returned {el:.3f} s after the call")
            elif gone > timeout + SLOP:
                w.fail("timeout-length", f"{kind}: {f['kind']} on {f['only']}: ended {gone:.3f} s after sending, timeout is {timeout}")
    elif mode == "late":
        dev.arm([f])
        k, r, el = await query("x")
        if k != "ok":
            w.fail("gave-up-early", f"{kind}: {f} within the timeout of {timeout} s, yet the query failed after {el:.3f} s with {k}: {str(r)[:200]}")
    elif mode == "forever":
        dev.arm([f] * 300)
        k, r, el = await query("x", retry=plan["retry"])
        bound = (plan["retry"] + 1) * (8 * 1.0 + timeout + SLOP) + plan["retry"]
        if el > bound:
            w.fail("unbounded", f"{kind}: every {f['only']} silent, retry_count {plan['retry']}: took {el:.1f} s > {bound:.1f} s")
        low = (plan["retry"] + 1) * (timeout - 0.1)
        if k == "timeout" and el < low:
            w.fail("gave-up-early", f"{kind}: every {f['only']} silent, retry_count {plan['retry']}: gave up after {el:.1f} s < {low:.1f} s")
    elif mode == "conn":
        if f == "tls_stall" and dev.port not in dev.host.tls_ports:
            return await proto.close()
        dev.arm([], [{"kind": f}] * 100)
        k, r, el = await query("x", retry=plan["retry"])
        n = plan["retry"] + 1
        lo, hi = n * timeout - 0.05, n * (timeout + SLOP + 0.3) + plan["retry"]
        if not lo <= el <= hi:
            w.fail("timeout-length", f"{kind}: {f} on connect, retry_count {plan['retry']}: ended after {el:.3f} s, expected {lo:.2f}..{hi:.2f} ({k})")
    elif mode == "storm":
        dev.arm(plan["faults"], plan["conn"])
        for n, op in enumerate(plan["ops"]):
            k, r, el = await query(f"t{n}", op["form"], op["retry"], op["child"])
            subs = {0: 1, 1: 4, 2: 12, 3: 30}[op["form"]]
            bound = (op["retry"] + 1) * ((10 + subs) * (timeout + SLOP + 0.3) + 5)
            if el > bound:
                w.fail("unbounded", f"{kind}: query took {el:.1f} s > {bound:.1f} s with timeout {timeout}, retry_count {op['retry']}")
    await proto.close()


async def discover(w, plan):
    from kasa import Discover

    w.nontrivial = True
    kw = dict(discovery_timeout=plan["dt"], discovery_packets=plan["packets"])
    t0 = w.now
    if plan["single"]:
        kw.pop("discovery_packets")
        host = "10.9.9.9"
        if plan["name"]:
            w.net.names["nobody.example"] = host
            host = "nobody.example"
        k, r = await outcome(w, Discover.discover_single(host, **kw), "discover_single")
        if k != "timeout":
            w.fail("discovery", f"discover_single of nobody ended with {k}: {r}")
    else:
        k, r = await outcome(w, Discover.discover(**kw), "discover")
        if k != "ok" or r != {}:
            w.fail("discovery", f"discover of an empty network ended with {k}: {r}")
    el = w.now - t0
    if abs(el - plan["dt"]) > 0.35:
        w.fail("discovery-time", f"discovery took {el:.3f} s, configured {plan['dt']} s")


async def probe(w, plan):
    """connect() or try_connect_all() against hosts that never answer."""
    from kasa import Credentials, Device as KD, Discover

    w.nontrivial = True
    kind, timeout = plan["kind"], plan["timeout"]
    host = Host(w.net, "10.0.0.7", "mute", (0.001, 0.02))
    ports = [80, 443, 4433, 9999, 10443]
    for p in ports:
        host.tcp[p] = Mute
    for p in (443, 4433, 10443):
        host.tls_ports.add(p)
    how = plan["how"]
    if how == "down":
        host.up = False
    elif how != "http_mute":
        host.connect_hook = lambda h, port, n: {"kind": how} if how != "tls_stall" or port in host.tls_ports else {"kind": "accept_mute"}
    t0 = w.now
    if plan["all"]:
        k, r = await outcome(w, Discover.try_connect_all(host.ip, timeout=timeout, credentials=Credentials("a@b.c", "x")), "try_connect_all")
        bound = 14 * (4 * (timeout + SLOP + 0.3) + 4)
        if k == "ok" and r is not None:
            w.fail("probe", f"probing a mute host returned {r}")
        if k.startswith("raw"):
            w.fail("raw-exception", f"try_connect_all raised {r!r}")
    else:
        k, r = await outcome(w, KD.connect(config=make_config(kind, host.ip, default_creds(kind), timeout=timeout)), "connect")
        bound = 4 * (timeout + SLOP + 0.3) + 4
        if k == "ok" or k.startswith("raw"):
            w.fail("probe", f"connecting to a mute host ended with {k}: {r!r}")
    if w.now - t0 > bound:
        w.fail("unbounded", f"{'try_connect_all' if plan['all'] else 'connect'} to a host that is '{how}' took {w.now - t0:.1f} s > {bound:.1f} s")


class Mute:
    def __init__(self, conn):
        self.conn = conn

    def data_received(self, data):
        pass

    def client_closed(self):
        pass

    def killed(self):
        pass
