"""C11: targeted discovery finds the one device asked for."""

import asyncio

from checks.c10 import gen_fate, gen_hosts, set_fate
from sim.client import gen_fault, outcome
from sim.disco import Population, compare, legacy_info, mac_of
from sim.device import jd, xor_enc
from sim.net import OWNER

ID = "C11"
QUICK = 4500
THOROUGH = 150000
RULE = ("Seeded plan, mode single: 1-6 hosts (legacy, newer, unsupported, broken, silent), unicast discovery of some of them by address or "
        "name, sequentially or concurrently (also with a broadcast one), with lost, delayed and duplicated packets and answers of other "
        "hosts; mode probe: one device of any supported connection variant (or none, or wrong credentials), closed or silent other "
        "ports, and transient faults, probed with every variant.")
PROBE_FAULTS = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_before", "fin_after", "stall_mid"]


def gen(rng, i):
    if i % 3 == 2:
        plan = {"mode": "probe", "idx": rng.randint(0, 9999), "how": rng.choice(["ok", "ok", "ok", "ok", "wrong", "none", "nohost"]),
                "silent": rng.random() < 0.3, "timeout": rng.choice([1, 2, 5]), "name": rng.random() < 0.2,
                "as": rng.choice(["plain", "plain", "klap_iot"]), "faults": []}
        if plan["how"] == "ok" and rng.random() < 0.5:
            for _ in range(rng.randint(1, 2)):
                f = gen_fault(rng, PROBE_FAULTS)
                f["skip"] = rng.randint(0, 12)
                plan["faults"].append(f)
        return plan
    hosts = gen_hosts(rng, rng.randint(1, 6))
    hosts.append({"ip": "10.0.0.99", "n": 7})     # never answers
    calls = []
    for _ in range(rng.randint(1, 4)):
        calls.append({"host": rng.randint(0, len(hosts) - 1), "name": rng.random() < 0.3, "dt": rng.choice([1, 2, 5, 10]),
                      "timeout": rng.choice([None, 3]), "creds": rng.random() < 0.5, "uncb": rng.random() < 0.4, "at": round(rng.random() * 3, 2),
                      "raw": rng.random() < 0.3})
    return {"mode": "single", "hosts": hosts, "fate": {**gen_fate(rng), "edge": False}, "calls": calls, "together": rng.random() < 0.5,
            "alien": rng.choice([0, 0, 2, 6]), "icmp": rng.choice([0, 0, 1]), "broadcast": rng.random() < 0.2, "unknown": rng.random() < 0.1}


async def single(w, plan):
    from kasa import Credentials, Discover

    pop = Population(w, plan["hosts"])
    set_fate(w, plan["fate"], 99)
    orig = w.net._udp_deliver
    arrived = {}    # call -> (t, ip, port) of every packet delivered to its socket

    def deliver(tr, data, addr, host):
        if tr in w.net.open_udp:
            arrived.setdefault(tr.owner, []).append((w.now, addr[0], addr[1]))
        orig(tr, data, addr, host)
    w.net._udp_deliver = deliver
    rs = w.rng("aliens")
    for i in range(plan["alien"]):
        def alien():
            for tr in list(w.net.open_udp):
                w.fault("stray_packet")
                w.net._udp_deliver(tr, xor_enc(jd(legacy_info(rs.randint(0, 99), 5)).encode()), (f"10.0.7.{rs.randint(1, 9)}", 9999),
                                   next(iter(w.net.hosts.values())))
        w.loop.call_later(rs.random() * 4, alien)
    for i in range(plan["icmp"]):
        def icmp():
            for tr in list(w.net.open_udp):
                w.fault("icmp_error")
                tr.deliver_error(ConnectionRefusedError(111, "Connection refused"))
        w.loop.call_later(rs.random() * 4, icmp)

    async def call(n, c):
        h = plan["hosts"][c["host"]]
        ip = h["ip"]
        host = ip
        if c["name"]:
            host = f"plug{c['host']}.lan"
            w.net.names[host] = ip
        if plan["together"]:
            await asyncio.sleep(c["at"])
        unsup, raws = [], []

        async def on_unsup(ex):
            unsup.append(ex)
        kw = {"discovery_timeout": c["dt"]}
        if c["timeout"]:
            kw["timeout"] = c["timeout"]
        if c["creds"]:
            kw["credentials"] = Credentials("u@example.com", "Pw!")
        if c["uncb"]:
            kw["on_unsupported"] = on_unsup
        if c["raw"]:
            kw["on_discovered_raw"] = raws.append
        t0 = w.now
        OWNER.set(n)
        task = Discover.discover_single(host, **kw)
        k, r = await outcome(w, task, "single", host=host)
        t1 = w.now
        OWNER.set(None)
        got = [a for a in arrived.get(n, []) if a[1] == ip and a[2] in (9999, 20002)]
        first = got[0] if got else None
        w.stats[f"single_{k}"] += 1
        if first is None:
            if k != "timeout":
                w.fail("no-answer", f"{host} never answered, yet the call gave {k}: {r!r}")
            elif not t0 + c["dt"] - 0.05 <= t1 <= t0 + c["dt"] + 0.2:
                w.fail("duration", f"{host} never answered; gave up after {t1 - t0:.3f} instead of {c['dt']}")
            return
        w.nontrivial = True
        e = pop.expect.get((ip, first[2]))
        close = first[0] > t0 + c["dt"] - 0.02
        if t1 > first[0] + 0.1:
            w.fail("slow", f"{host} answered after {first[0] - t0:.3f}, the call took {t1 - t0:.3f}")
        if e == "unsupported" or e is None:
            want = "ok" if c["uncb"] else "unsupported"
            if k != want and not (close and k == "timeout"):
                w.fail("unsupported", f"{host} answered as an unsupported device: {k} {r!r} (callback given: {c['uncb']})")
            if c["uncb"] and k == "ok" and (r is not None or len(unsup) != 1):
                w.fail("unsupported", f"{host}: returned {r!r}, callback ran {len(unsup)} times")
        elif e == "broken":
            if k not in ("kasa", "unsupported", "timeout", "device", "auth") and not (k == "ok" and r is None and c["uncb"]):
                w.fail("broken", f"{host} answered garbage: {k} {r!r}")
        elif k != "ok" or r is None:
            if not (close and k == "timeout"):
                w.fail("missed", f"{host} answered after {first[0] - t0:.3f} of {c['dt']}: {k} {r!r}")
        else:
            d = compare(r, e, ip, ("u@example.com", "Pw!") if c["creds"] else None, c["timeout"], None, host=host)
            if d:
                w.fail("wrong-device", f"{host} answered on {first[2]}: {'; '.join(d)}")
            if unsup:
                w.fail("unsupported", f"{host}: on_unsupported called for a supported device")
            if c["raw"] and [x["meta"]["ip"] for x in raws if x["meta"]["ip"] == ip] != [ip]:
                w.fail("raw", f"{host}: raw callback for {[x['meta'] for x in raws]}")
        if k == "ok" and r is not None:
            await r.disconnect()

    async def broadcast():
        found = await Discover.discover(discovery_timeout=5)
        for d in found.values():
            await d.disconnect()
    if plan["unknown"]:
        k, r = await outcome(w, Discover.discover_single("nowhere.lan", discovery_timeout=1), "single")
        if k != "kasa":
            w.fail("unresolved", f"unresolvable name: {k} {r!r}")
    if plan["together"]:
        await asyncio.gather(*(call(n, c) for n, c in enumerate(plan["calls"])), *([broadcast()] if plan["broadcast"] else []))
    else:
        for n, c in enumerate(plan["calls"]):
            await call(n, c)


async def probe(w, plan):
    from kasa import Credentials, Discover
    from sim import models

    ps = models.all_models()
    path = ps[plan["idx"] % len(ps)]
    kind, fam = models.smart_conn(path)
    if kind == "klap1" and not models.load(path)["discovery_result"]["result"]["device_type"].endswith("PLUGSWITCH"):
        kind = "xor"
    ip = "10.0.0.5"
    if plan["how"] == "nohost":
        m = dev = None
    else:
        creds = None
        if plan["how"] == "wrong":
            if kind == "xor":
                plan["how"] = "ok"
            else:
                creds = ("other@example.com", "Different1")
        m, dev, _cfg = models.put(w, path, 3, ip, creds=creds, kind=kind)
        if plan["how"] == "none":
            dev.host.tcp.clear()
        dev.arm(plan["faults"])
        if plan["silent"] and dev:
            # closed ports drop packets instead of refusing
            hook = dev.host.connect_hook

            def on_connect(host, port, n):
                if port != dev.port or plan["how"] == "none":
                    w.fault("blackhole")
                    return {"kind": "blackhole"}
                return hook(host, port, n) if hook else None
            dev.host.connect_hook = on_connect
        elif plan["how"] == "none":
            dev.host.connect_hook = lambda *_a: {"kind": "refuse"}
    from sim.client import default_creds
    cu = default_creds(kind)
    host = ip
    if plan["name"]:
        host = "thing.lan"
        w.net.names[host] = ip
    tries = []
    k, d = await outcome(w, Discover.try_connect_all(host, timeout=plan["timeout"], credentials=Credentials(*cu),
                                                     on_attempt=lambda c, ok: tries.append((c, ok))), "probe", path=path)
    w.stats[f"probe_{plan['how']}_{kind}"] += 1
    if k != "ok":
        w.fail("probe-raised", f"{kind} {plan['how']}: probing raised {k}: {d!r}")
        return
    wins = [c for c, ok in tries if ok]
    if plan["how"] != "ok":
        if d is not None or wins:
            w.fail("phantom", f"{kind} {plan['how']}: probing returned {d!r}")
        return
    w.nontrivial = True
    if d is None:
        w.fail("missed", f"{m.model_name} answers as {kind}, none of {len(tries)} variants worked")
        return
    if len(wins) != 1 or tries[-1][1] is not True:
        w.fail("attempts", f"{len(wins)} of {len(tries)} attempts reported as working")
    tr = type(d.protocol._transport).__name__
    want = {"xor": "XorTransport", "klap1": "KlapTransport", "klap2": "KlapTransportV2", "klap2s": "KlapTransportV2", "aes": "AesTransport",
            "aes2": "AesTransport", "sslaes": "SslAesTransport", "ssl": "SslTransport"}[kind]
    if tr != want:
        w.fail("variant", f"{m.model_name} answers as {kind}, connected with {tr}")
    if d.host != host or d.config.host != host:
        w.fail("host", f"asked for {host}, got {d.host}")
    dev.disarm()
    k, r = await outcome(w, d.update(), "update")
    if k != "ok":
        w.fail("not-working", f"{m.model_name}: the device returned cannot be updated: {k} {r!r}")
    elif d.alias is not None and not (d.alias.startswith("Device 3") or kind in ("xor", "klap1")) or (
            kind not in ("xor", "klap1") and d.mac.upper() != mac_of(3)):
        w.fail("wrong-device", f"{m.model_name}: {d.alias} {d.mac}")
    await d.disconnect()


async def run(w, plan):
    await (single if plan["mode"] == "single" else probe)(w, plan)
