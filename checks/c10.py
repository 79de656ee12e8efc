"""C10: discovery reports every answering device once, whatever else is on the air."""

import asyncio

from sim.client import outcome
from sim.disco import BROKEN_LEGACY, BROKEN_NEW, UNSUPPORTED, Population, compare

ID = "C10"
QUICK = 5000
THOROUGH = 120000
RULE = ("Seeded plan: a population of legacy, newer, dual, unsupported, broken and garbage-sending hosts and a seeded fate (loss, "
        "duplication, delay, reordering) of every probe and answer; discovery with seeded packets, time, port, credentials and callbacks.")


def gen_hosts(rng, n, ip0="10.0.0."):
    hosts = []
    for i in range(n):
        h = {"ip": f"{ip0}{10 + i}", "n": rng.randint(1, 9999) * 100 + i}
        k = rng.random()
        if k < 0.3:
            h["legacy"] = rng.randint(0, 99)
        elif k < 0.6:
            h["new"] = rng.randint(0, 99)
        elif k < 0.75:
            h["legacy"], h["new"] = rng.randint(0, 99), rng.randint(0, 99)
        elif k < 0.88:
            h["unsupported"] = rng.choice(UNSUPPORTED)
            h["idx"] = rng.randint(0, 99)
        else:
            p = rng.choice([9999, 20002])
            h["broken"] = [p, rng.choice(BROKEN_LEGACY if p == 9999 else BROKEN_NEW)]
            h["idx"] = rng.randint(0, 99)
        if rng.random() < 0.15:
            h["odd"] = rng.randint(1, 2)
        hosts.append(h)
    return hosts


def gen_fate(rng):
    return {"loss": rng.choice([0, 0, 0.2, 0.5]), "dup": rng.choice([0, 0.2, 0.6]), "max": rng.choice([0.02, 0.3, 1.0, 3.0]), "edge": rng.random() < 0.2}


def gen(rng, i):
    return {"hosts": gen_hosts(rng, rng.choice([1, 2, 4, 8, 12])), "fate": gen_fate(rng), "packets": rng.choice([1, 2, 3, 3, 5]),
            "dt": rng.choice([1, 2, 5, 10]), "creds": rng.random() < 0.6, "timeout": rng.choice([None, None, 3]),
            "port": rng.choice([None, None, None, 9998]), "cb": rng.choice([None, 0, 0, 0.01, 2.0]), "uncb": rng.choice([None, 0, 0.5]),
            "raw": rng.random() < 0.4, "target": rng.choice(["255.255.255.255", "10.0.0.255"]),
            "icmp": rng.choice([0, 0, 2]), "strays": rng.choice([0, 0, 3, 10])}


def set_fate(w, f, dt):
    rng = w.rng("fate")

    def fate(direction, host, port, i):
        if rng.random() < f["loss"]:
            w.fault("udp_loss")
            return []
        n = 1
        while rng.random() < f["dup"] and n < 4:
            n += 1
            w.fault("udp_dup")
        ds = [0.0005 + f["max"] * rng.random() for _ in range(n)]
        if f["edge"] and direction == "r":
            ds = [max(0.0005, dt - (w.now - w.t0) + rng.choice([-0.01, 0.01, -0.3, 0.3]) * rng.random()) for _ in ds]
        if max(ds) > 0.1:
            w.fault("udp_delay")
        return ds
    w.net.udp_fate = fate


async def run(w, plan):
    from kasa import Credentials, Discover

    port = plan["port"]
    pop = Population(w, plan["hosts"], legacy_port=port or 9999)
    set_fate(w, plan["fate"], plan["dt"])
    creds = ("u@example.com", "Pw!") if plan["creds"] else None
    found, done, unsup, raws = [], [], [], []
    kw = {"discovery_timeout": plan["dt"], "discovery_packets": plan["packets"], "target": plan["target"]}

    async def on_disc(dev):
        found.append((w.now, dev))
        w.log("cb", dev=dev.host)
        if plan["cb"]:
            await asyncio.sleep(plan["cb"])
        done.append(dev)

    async def on_unsup(ex):
        unsup.append((w.now, ex))
        if plan["uncb"]:
            await asyncio.sleep(plan["uncb"])
    if plan["cb"] is not None:
        kw["on_discovered"] = on_disc
    if plan["uncb"] is not None:
        kw["on_unsupported"] = on_unsup
    if plan["raw"]:
        kw["on_discovered_raw"] = raws.append
    if creds:
        kw["credentials"] = Credentials(*creds)
    if plan["timeout"]:
        kw["timeout"] = plan["timeout"]
    if port:
        kw["port"] = port
    rs = w.rng("strays")
    for _ in range(plan["strays"]):
        def stray():
            for tr in list(w.net.open_udp):
                w.fault("stray_packet")
                w.net._udp_deliver(tr, rs.randbytes(rs.randint(0, 60)), (f"10.0.9.{rs.randint(1, 5)}", rs.choice([9999, 20002, 53, 1900])),
                                   next(iter(w.net.hosts.values())))
        w.loop.call_later(rs.random() * plan["dt"], stray)
    for i in range(plan.get("icmp", 0)):
        def icmp():
            for tr in list(w.net.open_udp):
                w.fault("icmp_error")
                tr.deliver_error(ConnectionRefusedError(111, "Connection refused"))
        w.loop.call_later(rs.random() * plan["dt"], icmp)
    t0 = w.now
    k, res = await outcome(w, Discover.discover(**kw), "discover")
    t1 = w.now
    w.stats["discoveries"] += 1
    if k != "ok":
        w.fail("discover-failed", f"discovery failed with {k}: {res!r}")
        return
    # probes
    bad = [p for p in pop.probes if not p[3]]
    if bad:
        w.fail("bad-probe", f"devices got malformed probes: {bad[:3]}")
    # results
    end = t0 + plan["dt"]
    ips = {h["ip"] for h in plan["hosts"]}
    for ip in res:
        if ip not in ips:
            w.fail("phantom", f"{ip} reported, but no device answers there")
    w.stats["reported"] += len(res)
    seen_ips = [getattr(e, "host", None) for _t, e in unsup]
    for h in plan["hosts"]:
        ip = h["ip"]
        first = pop.first(ip)
        e = pop.expect.get((ip, first[1])) if first else None
        must = first is not None and first[0] < end - 0.001
        may = first is not None and first[0] <= t1 + 1e-9
        dev = res.get(ip)
        if e is None or isinstance(e, str):
            w.stats["none" if e is None else e] += 1
            if dev is not None:
                w.fail("wrong-report", f"{ip} ({e}) reported as {dev!r}")
        elif dev is None:
            if must:
                w.fail("missed", f"{ip} answered on {first[1]} at {first[0] - t0:.3f} of {plan['dt']}, not reported")
        elif not may:
            w.fail("phantom", f"{ip} reported without an answer")
        else:
            w.nontrivial = True
            w.stats["checked"] += 1
            d = compare(dev, e, ip, creds, plan["timeout"], port)
            if d:
                w.fail("wrong-device", f"{ip} answered on {first[1]}: {'; '.join(d)}")
        if plan["cb"] is not None:
            n = sum(1 for _t, x in found if x.host == ip)
            if n != (dev is not None):
                w.fail("callback-count", f"{ip}: on_discovered ran {n} times, reported: {dev is not None}")
            if dev is not None and not any(x is dev for _t, x in found):
                w.fail("callback-device", f"{ip}: on_discovered got another object than the one reported")
            if dev is not None and not any(x is dev for x in done):
                w.fail("callback-unfinished", f"{ip}: discovery returned before its on_discovered callback ended")
        if plan["raw"] and first is not None:
            rr = [r for r in raws if r["meta"]["ip"] == ip]
            decodable = (ip, first[1]) in pop.raw
            if decodable and (len(rr) != 1 if must else len(rr) > 1):
                w.fail("raw-count", f"{ip}: {len(rr)} raw answers reported")
            if rr and decodable:
                want = pop.raw[ip, first[1]]
                got = rr[0]["discovery_response"]
                if rr[0]["meta"]["port"] != first[1] or strip(got) != strip(want):
                    w.fail("raw-wrong", f"{ip}: raw answer {str(got)[:200]}")
    nun = [h for h in plan["hosts"] if (f := pop.first(h["ip"])) and pop.expect.get((h["ip"], f[1])) in ("unsupported", None)]
    brk = plan["strays"] + sum(1 for h in plan["hosts"] if "broken" in h)   # an undecodable answer may count as unsupported
    lo = sum(1 for h in nun if pop.first(h["ip"])[0] < end - 0.001)
    if plan["uncb"] is not None:
        if not lo <= len(unsup) <= len(nun) + brk:
            w.fail("unsupported-count", f"on_unsupported ran {len(unsup)} times for {lo} to {len(nun)} unsupported devices")
        if len([x for x in seen_ips if x]) != len({x for x in seen_ips if x}):
            w.fail("unsupported-twice", f"{seen_ips}")
    # duration
    last_cb = max([t + (plan["cb"] or 0) for t, _ in found] + [t + (plan["uncb"] or 0) for t, _ in unsup] + [0])
    if not end - 0.05 <= t1 <= max(end, last_cb) + 0.1:
        w.fail("duration", f"discovery took {t1 - t0:.3f}, configured {plan['dt']}, last callback ended at {last_cb - t0:.3f}")
    for dev in res.values():
        await dev.disconnect()


def strip(info):
    if isinstance(info, dict) and isinstance(info.get("result"), dict):
        r = dict(info["result"])
        r.pop("encrypt_info", None)
        return {**info, "result": r}
    return info
