"""C12: no socket, session or task outlives its owner."""

import asyncio

from checks.c03 import CONNF, mkfault
from checks.c10 import gen_hosts, set_fate
from sim.client import cancel_at, outcome
from sim.disco import Population
from sim.models import all_models, put, smart_conn

ID = "C12"
QUICK = 4000
THOROUGH = 100000
RULE = ("Seeded plan. connect: Device.connect to a simulated device of any fixture, with faults on any exchange, wrong credentials, "
        "and/or cancelled at any scheduler step; probe: the same for try_connect_all; discover: broadcast or targeted discovery "
        "cancelled at any step, with raising callbacks or sockets that cannot be opened; disconnect: several concurrent updates, "
        "commands and queries, faults, and a disconnect at any step, then reuse and disconnect again; shared: user-supplied HTTP session.")
MAX_STEPS = 200000
FK12 = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_before", "fin_after", "stall_mid", "rst_mid", "fin_mid", "delay",
        "session_lost", "reboot", "http_status", "inner_code", "inner_replace", "replace", "corrupt", "badhttp", "trickle"]
MODELS = None


def models():
    global MODELS
    if MODELS is None:
        MODELS = all_models()
    return MODELS


def prepare():
    models()


def gen(rng, i):
    mode = ["connect", "disconnect", "discover", "disconnect", "connect", "probe", "disconnect", "shared"][i % 8]
    plan = {"mode": mode, "idx": rng.randint(0, 9999), "timeout": rng.choice([1, 2, 5]), "latency": rng.choice([[0.0005, 0.002], [0.001, 0.02], [0.02, 0.2]])}
    kind = smart_conn(models()[plan["idx"] % len(models())])[0]
    if mode == "discover":
        plan.update(hosts=gen_hosts(rng, rng.randint(1, 5)), fate={"loss": rng.choice([0, 0.3]), "dup": 0.2, "max": rng.choice([0.02, 1.0]), "edge": False},
                    single=rng.random() < 0.5, dt=rng.choice([1, 3]), raw=rng.random() < 0.4, rawfail=rng.random() < 0.3, cb=rng.choice([None, 0, 0.5]), cbfail=rng.random() < 0.3,
                    uncb=rng.random() < 0.5, uncbfail=rng.random() < 0.3, name=rng.random() < 0.3, open=rng.choice([None, None, None, "emfile", "denied"]))
        plan["cancel"] = rng.choice([None, rng.randint(0, 40), rng.randint(0, 300)])
        return plan
    plan["creds"] = rng.random() > 0.12
    plan["faults"] = [mkfault(rng, FK12, kind) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    for f in plan["faults"]:
        if "skip" in f:
            f["skip"] = rng.randint(0, 12)
    if rng.random() < 0.2:
        f = mkfault(rng, ["inner_replace", "replace", "inner_code", "http_status", "drop_reply", "rst_before"], kind)
        f["forever"] = True
        plan["faults"].append(f)
    plan["conn"] = [rng.choice(CONNF) for _ in range(rng.choice([0, 0, 1, 2]))]
    plan["cancel"] = rng.choice([None, rng.randint(0, 60), rng.randint(0, 400), rng.randint(0, 3000)])
    if mode == "disconnect":
        plan["creds"] = True
        plan["fresh"] = rng.random() < 0.25      # not updated before the concurrent operations
        plan["ops"] = [{"op": rng.choice(["update", "update", "toggle", "child", "query", "childupdate"]), "at": round(rng.choice([0, 0, 0.01, 0.1]) * rng.random(), 4),
                        "kid": rng.randint(0, 9)} for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        plan["at"] = rng.choice([rng.randint(0, 30), rng.randint(0, 200), rng.randint(0, 1000), 5000])
        plan["again"] = rng.random() < 0.5
        plan["cancelclose"] = rng.choice([None, None, None, rng.randint(0, 6)])
        plan["reuse"] = rng.random() < 0.6
    return plan


def expand(faults):
    out = []
    for f in faults:
        f = dict(f)
        if f.pop("forever", False):
            f.pop("skip", None)
            out += [dict(f) for _ in range(60)]
        else:
            out.append(f)
    return out


def watch_sessions(w):
    import aiohttp

    made = []
    orig = aiohttp.ClientSession.__init__

    def init(self, *a, **kw):
        orig(self, *a, **kw)
        made.append(self)
    aiohttp.ClientSession.__init__ = init
    w.http_made = made
    return made


def leaks(w, ignore=()):
    """What the library left behind."""
    out = []
    for c in w.net.open_conns:
        out.append(f"connection to {c.host.name}:{c.port}")
    for u in w.net.open_udp:
        out.append(f"UDP socket {u.no}")
    for s in w.http_made:
        if not s.closed and s not in ignore:
            out.append("HTTP session")
    me = asyncio.current_task()
    for t in asyncio.all_tasks():
        if t is not me and not t.done():
            out.append(f"task {getattr(t.get_coro(), '__qualname__', t)}")
    for h in w.loop._scheduled:
        if h._cancelled:
            continue
        cb = h._callback
        cb = getattr(cb, "func", cb)
        mod = getattr(cb, "__module__", None) or getattr(getattr(cb, "__func__", None), "__module__", "")
        if not mod.startswith(("sim", "checks")):
            out.append(f"timer {getattr(cb, '__qualname__', cb)} in {h._when - w.now:.3f} s")
    return sorted(out)


async def settle():
    for _ in range(30):
        await asyncio.sleep(0)
    await asyncio.sleep(0.05)
    for _ in range(10):
        await asyncio.sleep(0)


def between(w, task):
    """The task waits for work in the thread pool, between two queries."""
    c = task.get_coro()
    while c is not None:
        fr = getattr(c, "cr_frame", None) or getattr(c, "gi_frame", None)
        if fr is not None and "/kasa/protocols/" in fr.f_code.co_filename:
            return False
        c = getattr(c, "cr_await", None) or getattr(c, "gi_yieldfrom", None)
    return w.loop.exec_pending > 0


def activity(w):
    return len(w.net.sent), sum(len(h.connect_times) for h in w.net.hosts.values()), len(w.net.udp_sent)


async def quiet(w, what, secs=40.0):
    """Nothing remains now and nothing is sent later."""
    await settle()
    left = leaks(w)
    if left:
        w.fail("leak", f"{what}: {', '.join(left)[:400]}")
        return
    n0, t0 = activity(w), w.now
    await asyncio.sleep(secs)
    n1 = activity(w)
    if n1 != n0:
        w.fail("sends-after", f"{what}: (sends, connections, datagrams) went from {n0} to {n1} after {t0 - w.t0:.3f} s")


async def attempt(w, plan, coro, what):
    t = asyncio.create_task(outcome(w, coro, what))
    if plan["cancel"] is not None:
        cancel_at(w, t, plan["cancel"])
    try:
        await asyncio.wait([t])
        return t.result()
    except asyncio.CancelledError:
        return "cancelled", None


async def run(w, plan):
    watch_sessions(w)
    if plan["mode"] == "discover":
        return await discover(w, plan)
    path = models()[plan["idx"] % len(models())]
    m, dev, cfg = put(w, path, plan["idx"] + 1, "10.0.0.5", latency=plan["latency"])
    creds = dev.creds if plan["creds"] else ("other@example.com", "wrong")
    config = cfg(creds, timeout=plan["timeout"])
    mode = plan["mode"]
    await globals()[mode](w, plan, m, dev, config, creds)


async def connect(w, plan, m, dev, config, creds):
    from kasa import Device

    dev.arm(expand(plan["faults"]), [{"kind": c} for c in plan["conn"]])
    k, d = await attempt(w, plan, Device.connect(config=config), "connect")
    w.stats[f"connect_{k}"] += 1
    w.nontrivial = bool(w.faults) or k != "ok"
    if k == "ok":
        await d.disconnect()
    await quiet(w, f"after Device.connect ended with {k}" + (" and disconnect" if k == "ok" else ""))


async def probe(w, plan, m, dev, config, creds):
    from kasa import Credentials, Discover

    dev.arm(expand(plan["faults"]), [{"kind": c} for c in plan["conn"]])
    k, d = await attempt(w, plan, Discover.try_connect_all(dev.ip, credentials=Credentials(*creds), timeout=plan["timeout"]), "probe")
    w.stats[f"probe_{k}_{'dev' if d else 'none'}"] += 1
    w.nontrivial = True
    if k == "ok" and d is not None:
        await d.disconnect()
    await quiet(w, f"after try_connect_all ended with {k}")


async def discover(w, plan):
    from kasa import Credentials, Discover

    Population(w, plan["hosts"])
    set_fate(w, plan["fate"], plan["dt"])
    if plan["open"]:
        n = w.rng("open").randint(0, 3)
        cnt = [0]

        def fault():
            cnt[0] += 1
            if cnt[0] - 1 == n or plan["open"] == "emfile":
                w.fault("udp_open_" + plan["open"])
                return OSError(24, "Too many open files") if plan["open"] == "emfile" else PermissionError(13, "Permission denied")
            return None
        w.net.udp_open_fault = fault
    w.nontrivial = True

    async def on_disc(d):
        if plan["cb"]:
            await asyncio.sleep(plan["cb"])
        if plan["cbfail"]:
            w.fault("callback_raises")
            raise ValueError("callback")

    async def on_unsup(ex):
        if plan["uncbfail"]:
            w.fault("callback_raises")
            raise ValueError("callback")

    def on_raw(r):
        if plan["rawfail"]:
            w.fault("callback_raises")
            raise ValueError("callback")
    kw = {"discovery_timeout": plan["dt"], "credentials": Credentials("u@example.com", "x"), "timeout": plan["timeout"]}
    if plan["uncb"]:
        kw["on_unsupported"] = on_unsup
    if plan["raw"]:
        kw["on_discovered_raw"] = on_raw
    if plan["single"]:
        host = plan["hosts"][0]["ip"]
        if plan["name"]:
            w.net.names["plug.lan"] = host
            host = "plug.lan"
        coro = Discover.discover_single(host, **kw)
    else:
        if plan["cb"] is not None:
            kw["on_discovered"] = on_disc
        coro = Discover.discover(**kw)
    k, res = await attempt(w, plan, coro, "discover")
    w.stats[f"{'single' if plan['single'] else 'broadcast'}_{k.split(':')[0]}"] += 1
    await quiet(w, f"after {'discover_single' if plan['single'] else 'discover'} ended with {k}", 10.0)


async def disconnect(w, plan, m, dev, config, creds):
    from kasa import Device
    from kasa.device_factory import get_device_class_from_family, get_device_class_from_sys_info, get_protocol

    from kasa import KasaException

    if plan["fresh"]:
        p = get_protocol(config)
        if dev.kind == "xor":
            cls = get_device_class_from_sys_info({"system": {"get_sysinfo": m.sysinfo()}})
        else:
            cls = get_device_class_from_family(config.connection_type.device_family.value, https=config.connection_type.https)
        d = cls(dev.ip, protocol=p)
    else:
        k, d = await outcome(w, Device.connect(config=config), "connect")
        if k != "ok":
            w.fail("setup", f"fault-free connect failed with {k}: {d!r}")
            return
    dev.arm(expand(plan["faults"]), [{"kind": c} for c in plan["conn"]])

    closing = []

    async def op(o):
        await asyncio.sleep(o["at"])
        if closing:
            return
        name = o["op"]
        kids = [] if plan["fresh"] else list(d.children)
        try:
            if name == "update":
                await d.update()
            elif name == "toggle":
                await (d.turn_off() if not plan["fresh"] and d.is_on else d.turn_on())
            elif name == "child" and kids:
                await kids[o["kid"] % len(kids)].turn_on()
            elif name == "childupdate" and kids:
                await kids[o["kid"] % len(kids)].update()
            elif name == "query":
                await d.protocol.query({"system": {"get_sysinfo": {}}} if dev.kind in ("xor", "klap1")
                                       else {"getDeviceInfo": {"device_info": {"name": ["basic_info"]}}} if dev.kind.startswith("sslaes") else {"get_device_info": None})
        except KasaException as ex:
            w.log("opend", op=name, out=type(ex).__name__)
            return
        except (KeyError, AttributeError, TypeError, NotImplementedError) as ex:
            w.log("opend", op=name, out=type(ex).__name__)     # judged by C03 and C13
            return
        w.log("opend", op=name, out="ok")
    tasks = [asyncio.create_task(op(o)) for o in plan["ops"]]
    if plan["cancel"] is not None and tasks:
        cancel_at(w, tasks[0], plan["cancel"])
    fire = asyncio.Event()
    w.at_step(w.steps + plan["at"], fire.set)
    if tasks:
        all_done = asyncio.ensure_future(asyncio.wait(tasks))
        ev = asyncio.ensure_future(fire.wait())
        await asyncio.wait([all_done, ev], return_when=asyncio.FIRST_COMPLETED)
        ev.cancel()
    w.stats["inflight" if any(not t.done() for t in tasks) else "idle"] += 1
    w.nontrivial = any(not t.done() for t in tasks)
    before = leaks(w)
    closing.append(1)
    loading = any(between(w, t) for t in tasks if not t.done())
    if plan["cancelclose"] is not None:
        t = asyncio.create_task(outcome(w, d.disconnect(), "disconnect"))
        cancel_at(w, t, plan["cancelclose"])
        await asyncio.wait([t])
    t0 = w.now
    k, r = await outcome(w, d.disconnect(), "disconnect")
    if k != "ok":
        w.fail("disconnect-failed", f"disconnect failed with {k}: {r!r}")
        return
    if w.now - t0 > 1.0:
        w.fail("disconnect-slow", f"disconnect took {w.now - t0:.2f} s")
    n0, t0 = activity(w), w.now
    if plan["again"]:
        k, r = await outcome(w, d.disconnect(), "disconnect")
        if k != "ok":
            w.fail("disconnect-failed", f"second disconnect failed with {k}: {r!r}")
    # every earlier call ends by itself, without sending anything more
    if tasks:
        _, late = await asyncio.wait(tasks, timeout=300)
        if late:
            w.fail("no-progress", f"{len(late)} calls still run 300 s after disconnect")
            return
        all_done.cancel()
    n1 = activity(w)
    if n1 != n0:
        w.fail("sends-after-between" if loading else "sends-after", f"{dev.kind}: after disconnect returned at {t0 - w.t0:.3f} s earlier calls went on: (sends, connections, datagrams) "
                              f"went from {n0} to {n1} until {w.now - w.t0:.3f} s; calls: {[o['op'] for o in plan['ops']]}")
        return
    await quiet(w, f"{dev.kind}: after disconnect (before: {before})", 10.0)
    if plan["reuse"] and not w.violations:
        dev.disarm()
        if not dev.host.up:
            await asyncio.sleep(15)
        k, r = await outcome(w, d.update(), "update")
        w.stats[f"reuse_{k}"] += 1
        if k != "ok" and not plan["fresh"]:
            w.fail("reuse", f"{dev.kind}: update after disconnect failed with {k}: {r!r}")
        await d.disconnect()
        await quiet(w, f"{dev.kind}: after reuse and disconnect", 5.0)


async def shared(w, plan, m, dev, config, creds):
    import aiohttp
    from kasa import Device
    from kasa.httpclient import get_cookie_jar

    s = aiohttp.ClientSession(cookie_jar=get_cookie_jar())
    config.http_client = s
    dev.arm(expand(plan["faults"]), [{"kind": c} for c in plan["conn"]])
    k, d = await attempt(w, plan, Device.connect(config=config), "connect")
    w.stats[f"shared_{k}"] += 1
    w.nontrivial = True
    if k == "ok":
        await d.disconnect()
    await settle()
    if s.closed:
        w.fail("closed-users-session", f"the HTTP session supplied by the user was closed after connect ended with {k}")
        return
    left = [x for x in w.http_made if x is not s and not x.closed]
    if left:
        w.fail("leak", f"after connect with a supplied session ended with {k}: {len(left)} further HTTP sessions open")
    dev.disarm()
    if not dev.host.up:
        await asyncio.sleep(15)
    if plan["creds"]:
        k, d = await outcome(w, Device.connect(config=config), "connect")
        if k != "ok":
            w.fail("reuse", f"{dev.kind}: fault-free connect over the supplied session failed with {k}: {d!r}")
        else:
            await d.disconnect()
    await s.close()
    await quiet(w, "after the supplied session was closed", 10.0)
