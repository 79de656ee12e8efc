"""C23: a device can be reconnected from its stored configuration alone."""

from __future__ import annotations

import asyncio
import base64
import json
import random

from checks.c08 import TRANS, WRONG, hash_of
from sim import models
from sim import scenario as sc
from sim.client import CTYPE, default_creds, gen_fault, outcome
from sim.device import DEFAULTS
from sim.disco import announce, load

ID = "C23"
QUICK = 6000
THOROUGH = 150000
RULE = ("Seeded plan: any recorded device in any login variant, obtained by address, by discovery, by probing or from an earlier stored "
        "configuration; the configuration is stored (with credentials, with their hash, with neither) before, during or after use, also in "
        "the middle of calls and faults; then the client crashes, the device reboots, loses its sessions, keeps or changes its password; a "
        "second and third client start from the stored text, with and without faults, and must end up with the same working device.")
MAX_STEPS = 400000
PW = ["Secret1!", "pä$$wörd", "a" * 40, "x", "q\"\\ /+=&%"]


def prepare():
    sc.prepare()


def gen(rng, i):
    prepare()
    path = rng.choice(sc.MODELS)
    kind, fam = models.smart_conn(path)
    if kind == "sslaes":
        kind = rng.choice(["sslaes", "sslaes", "sslaes_md5", "sslaes_plain"])
    elif kind == "xor" and rng.random() < 0.3:
        if plug(path):
            kind = "klap1"
    elif kind in ("aes", "aes2", "klap2") and rng.random() < 0.3:
        kind = rng.choice(["aes", "aes2", "klap2"])
    plan = {"path": path, "kind": kind, "latency": rng.choice([[0.0005, 0.003], [0.0005, 0.003], [0.01, 0.1]]),
            "how": rng.choice(["connect", "connect", "discover", "probe", "hash", "cold"]), "pw": rng.choice(PW[:1] * 3 + PW),
            "acct": kind.startswith("sslaes") and rng.random() < 0.2,
            "when": rng.choice(["start", "updated", "used", "busy", "busy", "busy", "failed", "closed", "renewed"]),
            "store": rng.choice(["hash", "hash", "hash", "full", "full", "excl", "none", "both"]),
            "crash": rng.choice(["rst", "fin", "mute", "alive", "closed"]), "between": rng.choice(["", "", "reboot", "lost", "idle", "clock", "alias"]),
            "verdict": rng.choice(["ok"] * 5 + ["wrong", "changed"]), "wrong": rng.choice(WRONG), "retries": rng.randint(0, 2),
            "gens": rng.choice([1, 1, 2, 3]), "r": rng.randint(0, 1 << 30), "step": rng.choice([rng.randint(0, 40), rng.randint(0, 200), rng.randint(0, 1500)]),
            "timeout": rng.choice([3, 5, 5, 17]), "batch": rng.choice([None, None, 1, 3]), "port": rng.random() < 0.2,
            "name": rng.random() < 0.2, "down": rng.choice([0.5, 3, 8])}
    plan["faults"] = [gen_fault(rng, TRANS) for _ in range(rng.choice([0, 1, 2, 4]))] if plan["when"] in ("busy", "failed") else []
    plan["faults2"] = [gen_fault(rng, TRANS) for _ in range(rng.choice([0, 0, 1, 3]))] if plan["verdict"] == "ok" else []
    if rng.random() < 0.15:
        plan["setup"] = True
    for f in plan["faults"] + plan["faults2"]:
        if f["kind"] == "session_lost" and kind == "xor":
            f["kind"] = "drop_reply"
        if f["kind"] == "session_lost":
            f["only"] = "request"
    return plan


def plug(path):
    s = load(path)["system"]["get_sysinfo"]
    return "smartplug" in s.get("type", s.get("mic_type", "")).lower() and "children" not in s and "Dimmer" not in s.get("dev_name", "")


def ident(kd):
    return {"class": type(kd).__name__, "model": kd.model, "id": kd.device_id, "mac": kd.mac, "alias": kd.alias, "type": kd.device_type,
            "features": sorted(kd.features), "children": sorted((c.device_id, c.alias or "") for c in kd.children),
            "modules": sorted(kd.modules)}


def same_hash(kind, a, b):
    """Equal as stored text, or as the document encoded in it."""
    if a == b or a is None or b is None or not kind.startswith(("aes", "ssl")):
        return a == b
    return json.loads(base64.b64decode(a)) == json.loads(base64.b64decode(b))


def expected_hash(kind, creds):
    return None if kind == "xor" else hash_of(kind, creds)


async def run(w, plan):
    from kasa import Credentials, DeviceConfig, Discover
    from kasa import Device as KD
    from sim.mirror import Engine

    kind, path = plan["kind"], plan["path"]
    un = default_creds(kind)[0]
    creds = (un, plan["pw"])
    port = 8099 if plan["port"] and plan["how"] not in ("probe",) and kind != "xor" else None
    fam = models.smart_conn(path)[1]
    if kind == "klap1":
        fam = None
    model, dev, _ = models.put(w, path, 3, "10.0.0.5", creds=creds, kind=kind, latency=tuple(plan["latency"]), port=port)
    # a camera also accepts the account's name with its password
    mine = ("someone@example.com", plan["pw"]) if plan["acct"] else creds
    keyless = kind == "xor"
    setup = bool(plan.get("setup")) and not keyless
    if setup:
        which = "TAPO" if kind in ("aes", "aes2", "ssl") else "TAPOCAMERA" if kind.startswith("sslaes") else random.Random(plan["r"]).choice(
            ["KASA", "TAPO", "blank"])
        dev.creds = ("", "") if which == "blank" else DEFAULTS[which]
        if kind.startswith("sslaes"):
            mine = None
    host = dev.ip
    if plan["name"]:
        host = "thing.lan"
        w.net.names[host] = dev.ip
    announce(w, dev, model, kind, path, fam)
    cred = Credentials(*mine) if mine else None

    def basic(**kw):
        from sim.client import make_config
        return make_config(kind, host, mine if "credentials_hash" not in kw else None, timeout=plan["timeout"], batch_size=plan["batch"],
                           http_port=port, family=fam, **kw)

    want = expected_hash(kind, mine) if mine else None
    # ---- the first client
    how = plan["how"]
    if mine is None and how in ("hash", "cold"):
        how = "connect"
    if how == "hash" and keyless:
        how = "connect"
    kd = None
    if how == "connect":
        k, kd = await outcome(w, KD.connect(config=basic()), "connect")
    elif how == "hash":
        k, kd = await outcome(w, KD.connect(config=basic(credentials_hash=want)), "connect")
    elif how == "discover":
        k, kd = await outcome(w, Discover.discover_single(host, credentials=cred, timeout=plan["timeout"]), "discover")
    elif how == "probe":
        k, kd = await outcome(w, Discover.try_connect_all(host, credentials=cred, timeout=plan["timeout"]), "probe")
    else:
        k = "ok"
    if k != "ok" or (kd is None and how != "cold"):
        w.fail("first", f"{model.model_name} {kind}: first contact ({how}) failed: {k} {kd!r}")
        return
    w.nontrivial = True
    w.stats[f"how_{how}_{kind}"] += 1
    store = plan["store"]
    if store == "none" and not keyless:
        pass
    stored = []

    def save():
        if stored:
            return
        if how == "cold":
            f, enc, lv, https = CTYPE[kind]
            ct = {"device_family": fam or f, "encryption_type": enc}
            if lv:
                ct["login_version"] = lv
            if https:
                ct["https"] = True
            if port:
                ct["http_port"] = port
            d = {"host": host, "timeout": plan["timeout"], "connection_type": ct}
            if want and store != "none":
                d["credentials_hash"] = want
            if store == "full" and mine:
                d["credentials"] = {"username": mine[0], "password": mine[1]}
                d.pop("credentials_hash", None)
            stored.append(json.dumps(d))
            return
        c = kd.config
        h = kd.credentials_hash
        if not (mine is None or keyless) and not same_hash(kind, h, want):
            w.fail("hash", f"{model.model_name} {kind}: credentials hash {h!r} instead of {want!r}")
        if store == "full":
            d = c.to_dict()
        elif store == "excl":
            d = c.to_dict_control_credentials(exclude_credentials=True)
        elif store == "none":
            d = c.to_dict_control_credentials(credentials_hash="")
        elif store == "both":
            d = c.to_dict()
            if mine and "credentials" in d:
                d["credentials_hash"] = expected_hash(kind, ("x@example.com", "nonsense"))
        else:
            d = c.to_dict_control_credentials(credentials_hash=h or "")
        text = json.dumps(d)
        if store in ("hash", "none", "excl") and mine and len(plan["pw"]) > 4 and json.dumps(plan["pw"])[1:-1] in text:
            w.fail("plain", f"{kind}: configuration stored {store} contains the password")
        stored.append(text)

    when = plan["when"]
    tasks = []
    if how == "cold" or when == "start":
        save()
    else:
        rng = random.Random(plan["r"])
        if when != "busy":
            k, v = await outcome(w, kd.update(), "update")
            if k != "ok":
                w.fail("update", f"{model.model_name} {kind} ({how}): update failed: {k} {v!r}")
                return
        if when == "used":
            await use(w, model, kd, rng, Engine)
        elif when == "failed":
            dev.arm(plan["faults"] + [{"kind": "drop_reply"}] * 5)
            await outcome(w, kd.update(), "update")
        elif when == "renewed":
            dev.lose_sessions()
            await outcome(w, kd.update(), "update")
        elif when == "closed":
            await outcome(w, kd.disconnect(), "disconnect")
        if when == "busy":
            dev.arm(plan["faults"])
            done = asyncio.get_running_loop().create_future()

            def crash():
                save()
                for t in tasks:
                    if not t.done():
                        w.fault("crash_in_call")
                if not done.done():
                    done.set_result(None)
            w.at_step(w.steps + plan["step"], crash)

            async def busy(kd):
                for _ in range(3):
                    if (await outcome(w, kd.update(), "update"))[0] == "cancelled":
                        break
            tasks.append(asyncio.ensure_future(busy(kd)))
            await asyncio.wait([tasks[0], done], return_when=asyncio.FIRST_COMPLETED)
            save()
        else:
            save()
    # ---- the first client ends
    dev.disarm()
    crash = plan["crash"]
    if kd is not None and crash != "alive":
        if crash == "closed":
            for t in tasks:
                await asyncio.wait([t])
            await outcome(w, kd.disconnect(), "disconnect")
        else:
            for t in tasks:
                t.cancel()
            await asyncio.sleep(0)
            dev.host.cut_all(crash)
            w.fault("client_crash")
        kd = None
    old = kd
    if plan["between"] == "reboot":
        w.fault("reboot")
        dev.reboot(plan["down"], "rst")
        await asyncio.sleep(plan["down"] + 0.1)
    elif plan["between"] == "lost":
        w.fault("session_lost")
        dev.lose_sessions()
    elif plan["between"] == "idle":
        await asyncio.sleep(90000)
    elif plan["between"] == "clock":
        w.jump_wall(-40 * 86400)
        w.fault("clock_jump")
    text = stored[0]
    d0 = json.loads(text)
    hashed = "credentials" not in d0 and d0.get("credentials_hash")
    access = keyless or hashed or "credentials" in d0 or setup
    if plan["verdict"] == "changed" and not keyless and not setup:
        w.fault("password_changed")
        dev.creds = (dev.creds[0], plan["pw"] + "new")
        dev.lose_sessions()
        access = False
    elif plan["verdict"] == "wrong" and not keyless and not setup and hashed:
        bad = plan["wrong"]
        if plan["pw"] == bad[1] and (kind.startswith("sslaes") or bad[0] == dev.creds[0]):
            bad = ("admin", "nope")
        if not (kind.startswith("sslaes") and bad[1] == ""):
            d0["credentials_hash"] = expected_hash(kind, bad)
            text = json.dumps(d0)
            access = False
    # ---- later clients
    want2 = d0.get("credentials_hash") if hashed else want if "credentials" in d0 else None
    first = None
    for g in range(plan["gens"]):
        if plan["faults2"] and g == 0 and access:
            dev.arm(plan["faults2"])
            k, d = await outcome(w, KD.connect(config=DeviceConfig.from_dict(json.loads(text))), "reconnect")
            if k == "ok":
                await outcome(w, d.disconnect(), "disconnect")
            elif k == "auth":
                w.fail("rejected", f"{model.model_name} {kind}: with transient faults the stored configuration ({store}) was rejected: {d!r}")
            dev.disarm()
            await asyncio.sleep(15)
        n0 = len(dev.execs)
        c0 = DeviceConfig.from_dict(json.loads(text))
        k, d = await outcome(w, KD.connect(config=c0), "reconnect")
        w.stats[f"reconnect_{k}_{store}"] += 1
        if not access:
            if k != "auth":
                w.fail("not-rejected" if k == "ok" else "auth-class",
                       f"{model.model_name} {kind}: configuration without valid credentials ({store}, {plan['verdict']}): {k}: {str(d)[:200]}")
            if [e for e in dev.execs[n0:] if e["sent"] >= 0] and k == "ok":
                w.fail("not-rejected", f"{kind}: commands executed for a client without valid credentials")
            return
        if k != "ok":
            w.fail("reconnect", f"{model.model_name} {kind}: obtained by {how}, stored {store} ({when}), generation {g}: reconnecting failed: "
                                f"{k}: {d!r}")
            return
        if first is None:
            if old is not None:
                await asyncio.sleep(1)
            k, o = await outcome(w, KD.connect(config=basic()), "oracle")
            if k != "ok":
                w.fail("oracle", f"{model.model_name} {kind}: connecting with the credentials failed: {k} {o!r}")
                return
            first = ident(o)
            await o.disconnect()
        me = ident(d)
        if me != first:
            w.fail("differs", f"{model.model_name} {kind}: reconnected device differs: " + ", ".join(
                f"{x}: {me[x]!r} instead of {first[x]!r}" for x in me if me[x] != first[x])[:600])
        c = d.config
        got = (c.host, c.timeout, c.port_override, c.connection_type.encryption_type.value, c.connection_type.https)
        need = (host, plan["timeout"], None, CTYPE[kind][1], CTYPE[kind][3])
        if got != need:
            w.fail("config", f"{kind}: reconnected with {got}, stored by {how} from {need}")
        if how in ("connect", "hash") and c.batch_size != plan["batch"]:
            w.fail("config", f"{kind}: batch size {c.batch_size} instead of {plan['batch']}")
        h = d.credentials_hash
        if want2 is not None and not keyless and not same_hash(kind, h, want2):
            w.fail("hash", f"{model.model_name} {kind}: reconnected ({store}), hash {h!r} instead of {want2!r}")
        if kind.startswith("sslaes") and want2 is not None and "Camera" in d.modules:
            from urllib.parse import quote_plus
            url = d.modules["Camera"].stream_rtsp_url()
            exp = f"rtsp://{quote_plus(mine[0])}:{quote_plus(mine[1])}@{host}:554/stream1"
            if url != exp:
                w.fail("stream", f"{kind}: stream address {url} instead of {exp}")
        if not await use(w, model, d, random.Random(plan["r"] + g), Engine):
            return
        # the next generation stores it the same way
        if hashed or g % 2:
            t2 = c.to_dict_control_credentials(credentials_hash=d.credentials_hash) if d.credentials_hash else c.to_dict()
        else:
            t2 = c.to_dict()
        text = json.dumps(t2)
        if g + 1 < plan["gens"]:
            dev.host.cut_all("rst")
            w.fault("client_crash")
            if plan["between"] == "reboot":
                dev.reboot(1, "fin")
                await asyncio.sleep(1.1)
        else:
            await outcome(w, d.disconnect(), "disconnect")


async def use(w, model, kd, rng, Engine):
    """Commands through the device object take effect, and it shows what the device reports."""
    eng = Engine(w, model, kd, skip=("device_time",))      # another client may have asked since
    t0 = w.now
    k, v = await outcome(w, kd.update(), "update")
    if k != "ok":
        w.fail("use", f"{model.model_name}: update of the reconnected device failed: {k} {v!r}")
        return False
    eng.verify(t0 - 86400)
    for _ in range(2):
        c = None
        for _ in range(5):
            c = eng.choose(rng)
            if c is not None and c.name not in ("reboot", "time", "alias"):
                break
            c = None
        if c is not None and not w.violations:
            await eng.command([c])
    return not w.violations
