"""C08: peers are authenticated before anything is entrusted to them."""

import asyncio

from sim.client import default_creds, make_protocol, outcome
from sim.device import DEFAULTS, Device, HttpConn, b64, hx, jd, klap_v1_hash, klap_v2_hash, md5, sha1, sha256
from sim.echo import expected, make_app, make_query

ID = "C08"
QUICK = 6000
THOROUGH = 150000
RULE = ("Seeded plan: transport with login, and one of: right credentials (plain, hashed, vendor default, blank), wrong ones, a "
        "password change while connected, an impostor at the device's address with one of a dozen forged or replayed proofs; "
        "network faults around it.")
KINDS8 = ["klap1", "klap2", "klap2s", "aes", "aes2", "sslaes", "sslaes_md5", "sslaes_plain", "ssl"]
PROOF = ["klap1", "klap2", "klap2s", "sslaes", "sslaes_md5"]
FORGE = ["random", "zero", "echo", "replay", "replay", "replay_all", "otherowner", "noauth", "short", "empty", "long", "prefix", "stale_nonce"]
WRONG = [("user@example.com", "secret1!"), ("user@example.com", "Secret1! "), ("User@example.com", "Secret1!"), ("user@example.com", ""),
         ("user@example.com", "x"), ("other@example.com", "Secret1!"), ("user@example.com", "Sécret1!"),
         ("user@example.com", "Secret1!Secret1!")]
TRANS = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_before", "fin_after", "stall_mid", "session_lost"]


def tfault(rng):
    f = {"kind": rng.choice(TRANS), "skip": rng.randint(0, 2), "frac": 0.5}
    if f["kind"] == "session_lost":
        f["only"] = "request"
    return f


def gen(rng, i):
    kind = KINDS8[i % len(KINDS8)]
    modes = ["right", "right", "hash", "wrong", "wrong", "default", "changed", "changed"]
    if kind in PROOF:
        modes += ["impostor"] * 6
    plan = {"kind": kind, "mode": rng.choice(modes), "latency": rng.choice([[0.0005, 0.002], [0.001, 0.02], [0.02, 0.2]]),
            "retry": rng.choice([0, 1, 3]), "n": rng.choice([1, 1, 2, 3]), "wrong": rng.choice(WRONG), "viahash": rng.random() < 0.3,
            "timeout": rng.choice([3, 5])}
    if plan["mode"] in ("right", "hash", "default"):
        plan["faults"] = [tfault(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    if plan["mode"] == "default":
        plan["which"] = rng.choice(["KASA", "KASACAMERA", "TAPO", "TAPOCAMERA", "blank"])
        plan["nocreds"] = rng.random() < 0.3
    if plan["mode"] == "impostor":
        plan["forge"] = rng.choice(FORGE)
        plan["same"] = rng.random() < 0.5     # the client object that already talked to the real device
        plan["defaults"] = rng.random() < 0.2
    return plan


class Impostor:
    """Sits at the device's address without knowing the owner's credentials."""

    def __init__(self, dev, kind, how, rec, rng):
        self.dev, self.kind, self.how, self.rec, self.rng = dev, kind, how, rec, rng
        self.seen = []        # (what, body) in order
        self.accepted = []
        self.shook = False

    def classify(self, req):
        if self.kind.startswith("klap"):
            return {"/app/handshake1": "handshake1", "/app/handshake2": "handshake2"}.get(req["path"], "request")
        if "/stok=" in req["path"]:
            return "request"
        if b'"digest_passwd"' in req["body"]:
            return "handshake2"
        return "handshake1" if b'"cnonce"' in req["body"] and b'"hashed"' not in req["body"] else "login"

    def request(self, req, ctx):
        what = self.classify(req)
        self.seen.append((what, req["body"]))
        if what == "handshake1":
            self.shook = True
        elif self.shook:
            self.accepted.append(what)
        return (self.klap if self.kind.startswith("klap") else self.cam)(what, req)

    def klap(self, what, req):
        if what == "request":
            if self.shook and self.how == "replay_all" and self.rec.get("request"):
                return 200, {}, self.rec["request"]
            return (200, {}, self.rng.randbytes(64)) if self.shook else (403, {}, b"")
        if what == "handshake2":
            return 200, {}, b""
        ls = req["body"]
        rs = self.rng.randbytes(16)
        v2 = self.kind != "klap1"
        ah = (klap_v2_hash if v2 else klap_v1_hash)("mallory@example.com", "guess")
        h = self.how
        if h in ("replay", "replay_all"):
            return 200, {"Set-Cookie": "TP_SESSIONID=AAAA;TIMEOUT=86400"}, self.rec["handshake1"]
        if h == "stale_nonce":      # proof recorded with the real device, fresh remote seed
            proof = self.rec["handshake1"][16:]
        elif h == "zero":
            proof = bytes(32)
        elif h == "echo":
            rs, proof = ls, sha256(ls)
        elif h == "otherowner":
            proof = sha256(ls + rs + ah) if v2 else sha256(ls + ah)
        elif h == "noauth":
            proof = sha256(ls + rs) if v2 else sha256(ls)
        elif h == "short":
            proof = self.rng.randbytes(31)
        elif h == "empty":
            proof = b""
        elif h == "long":
            proof = self.rng.randbytes(33)
        elif h == "prefix":
            proof = self.rec["handshake1"][16:32] + bytes(16)
        else:
            proof = self.rng.randbytes(32)
        return 200, {"Set-Cookie": "TP_SESSIONID=AAAA;TIMEOUT=86400"}, rs + proof

    def cam(self, what, req):
        import json
        ct = {"_ct": "application/json"}
        if what == "request":
            if not self.shook:
                return 200, ct, jd({"error_code": -40401}).encode()
            return 200, ct, self.rec.get("request") or jd({"error_code": 0, "result": {}}).encode()
        if what == "handshake2":
            return 200, ct, jd({"error_code": 0, "result": {"stok": "aabb", "user_group": "root", "start_seq": 5}}).encode()
        if what == "login":
            return 200, ct, jd({"error_code": -40401}).encode()
        cn = json.loads(req["body"])["params"]["cnonce"]
        sn = self.rng.randbytes(8).hex().upper()
        ph = hx(b"guess")
        h = self.how
        if h in ("replay", "replay_all"):
            return 200, ct, self.rec["handshake1"]
        old = json.loads(self.rec["handshake1"])["result"]["data"]["device_confirm"]
        conf = {"zero": "0" * 64 + sn + cn, "echo": cn + sn + cn, "otherowner": hx(cn.encode() + ph.encode() + sn.encode()) + sn + cn,
                "noauth": hx(cn.encode() + sn.encode()) + sn + cn, "short": sn + cn, "empty": "", "long": "F" * 128 + sn + cn,
                "prefix": old[:32] + "0" * 32 + sn + cn, "stale_nonce": old[:64] + sn + cn}.get(
                    h, self.rng.randbytes(32).hex().upper() + sn + cn)
        return 200, ct, jd({"error_code": -40413, "result": {"data": {
            "code": -40413, "encrypt_type": ["3"], "key": "x", "nonce": sn, "device_confirm": conf}}}).encode()


def record(dev, rec):
    """Keep the last genuine reply of every step."""
    h = dev.http
    orig = h.request

    def request(req, ctx):
        out = orig(req, ctx)
        if out[0] == 200:
            rec[h.classify(req)] = out[2]
        return out
    h.request = request


def secrets_of(creds):
    un, pw = creds
    p = pw.encode()
    out = [p, b64(p).encode(), md5(p).hex().encode(), md5(p).hex().upper().encode(), sha256(p).hex().encode(),
           sha256(p).hex().upper().encode(), sha1(p).hex().encode(), sha1(p), md5(p), sha256(p),
           klap_v1_hash(un, pw), klap_v2_hash(un, pw)]
    return [s for s in out if len(s) >= 4]


async def run(w, plan):
    w.nontrivial = True
    await asyncio.gather(*[asyncio.create_task(one(w, plan, j)) for j in range(plan["n"])])


def hash_of(kind, creds):
    """What a user stored as the credentials hash when it last connected."""
    un, pw = creds
    if kind == "klap1":
        return b64(klap_v1_hash(un, pw))
    if kind.startswith("klap"):
        return b64(klap_v2_hash(un, pw))
    if kind in ("aes", "aes2"):
        u = b64(sha1(un.encode()).hex().encode())
        p = {"password2": b64(sha1(pw.encode()).hex().encode())} if kind == "aes2" else {"password": b64(pw.encode())}
        return b64(jd({**p, "username": u}).encode())
    if kind == "ssl":
        return b64(jd({"password": md5(pw.encode()).hex().upper(), "username": un}).encode())
    return b64(jd({"un": un, "pwd": pw}).encode())


async def one(w, plan, j):
    kind, mode, retry = plan["kind"], plan["mode"], plan["retry"]
    cam = kind.startswith("sslaes")
    good = default_creds(kind)
    ip = f"10.0.{j}.5"
    dev = Device(w, ip, make_app(kind), kind=kind, creds=good, latency=plan["latency"])

    def proto(creds, viahash=plan["viahash"], host=ip):
        kw = {"credentials_hash": hash_of(kind, creds)} if viahash and creds else {"creds": creds}
        return make_protocol(kind, host, timeout=plan["timeout"], **kw)

    async def query(p, tok, rt=retry):
        q = make_query(kind, f"{tok}.{j}", 20, 0)
        k, r = await outcome(w, p.query(q, retry_count=rt), "query", token=tok, j=j)
        w.stats[f"{mode}_{k.split(':')[0]}"] += 1
        if k == "ok" and r != expected(kind, q):
            w.fail("wrong-answer", f"{kind}: {str(r)[:200]}")
        return k, r

    if mode in ("right", "hash"):
        p = proto(good, mode == "hash")
        dev.arm(plan["faults"])
        k, r = await query(p, "a", max(retry, len(plan["faults"])))
        if k != "ok":
            w.fail("rejected", f"{kind}: right credentials ({mode}): {k}: {str(r)[:200]}")
        if cam and mode == "right" and not plan["faults"]:
            # a cloud account name: the camera's own user is tried next
            p2 = proto(("user@example.com", good[1]), False)
            k, r = await query(p2, "b")
            if k != "ok":
                w.fail("rejected", f"{kind}: account name with the camera's password: {k}: {str(r)[:200]}")
            await p2.close()
        await p.close()
    elif mode == "wrong":
        wrong = plan["wrong"] if not cam or plan["wrong"][1] != good[1] else ("admin", "nope")
        if cam and not plan["viahash"] and wrong[1] == "":
            wrong = ("admin", "nope")
        counts = []
        for n, rt in enumerate((0, retry)):
            d = Device(w, f"10.0.{j}.{10 + n}", make_app(kind), kind=kind, creds=good, latency=plan["latency"])
            p = proto(wrong, host=d.ip)
            k, r = await query(p, f"w{n}", rt)
            counts.append(len(d.xlog))
            if k != "auth":
                w.fail("not-rejected" if k == "ok" else "auth-class", f"{kind}: wrong credentials {wrong}: {k}: {str(r)[:200]}")
            if d.execs:
                w.fail("not-rejected", f"{kind}: a command was executed for a client with wrong credentials")
            # the same connection object, right password at the device now
            await p.close()
        if counts[0] != counts[1]:
            w.fail("auth-retried", f"{kind}: wrong credentials: {counts[0]} exchanges without retries, {counts[1]} with {retry}")
    elif mode == "default":
        which = plan["which"]
        if kind in ("aes", "aes2", "ssl"):
            which = "TAPO"
        if cam:
            which = "TAPOCAMERA"
        dev.creds = ("", "") if which == "blank" else DEFAULTS[which]
        nocreds = plan["nocreds"] or cam
        p = proto(None if nocreds else good, False)
        dev.arm(plan["faults"])
        k, r = await query(p, "d", max(retry, 2 * len(plan["faults"])))
        if k != "ok":
            w.fail("rejected", f"{kind}: device still has the {which} setup credentials, client {'without' if nocreds else 'with other'} "
                               f"credentials: {k}: {str(r)[:200]}")
        await p.close()
    elif mode == "changed":
        p = proto(good)
        k, r = await query(p, "a")
        if k != "ok":
            w.fail("rejected", f"{kind}: right credentials: {k}: {str(r)[:200]}")
        dev.creds = (good[0], "NewSecret2")
        dev.lose_sessions()
        n0 = len(dev.execs)
        k, r = await query(p, "b", max(retry, 1))
        if k != "auth":
            w.fail("not-rejected" if k == "ok" else "auth-class", f"{kind}: password changed at the device: {k}: {str(r)[:200]}")
        if len(dev.execs) > n0:
            w.fail("not-rejected", f"{kind}: a command was executed with the old password")
        dev.creds = good
        dev.lose_sessions()
        k, r = await query(p, "c", max(retry, 1))
        if k != "ok":
            w.fail("rejected", f"{kind}: password changed back at the device: {k}: {str(r)[:200]}")
        await p.close()
    elif mode == "impostor":
        rec = {}
        record(dev, rec)
        p = proto(good)
        k, r = await query(p, "a")
        if k != "ok":
            w.fail("rejected", f"{kind}: right credentials: {k}: {str(r)[:200]}")
        if not plan["same"]:
            await p.close()
            p = proto(good)
        dev.host.cut_all("rst")
        fake = Device(w, ip, None, kind=kind, name=ip + "x", latency=plan["latency"])
        h = Impostor(fake, kind, plan["forge"], rec, w.rng(f"imp{j}"))
        fake.host.tcp[fake.port] = lambda c: HttpConn(fake, c, h)
        k, r = await query(p, "b", max(3, retry))
        w.fault("impostor")
        if k == "ok" or h.accepted:
            w.fail("impostor", f"{kind}: peer without the credentials ({plan['forge']}) was accepted: outcome {k}, it got {h.accepted[:3]} after its handshake")
        malformed = plan["forge"] in ("short", "empty", "long") and kind.startswith("klap")
        if k != "auth" and not (malformed and k == "kasa"):
            w.fail("auth-class", f"{kind}: impostor ({plan['forge']}): {k}: {str(r)[:200]}")
        if k == "auth" and sum(1 for x in h.seen if x[0] == "handshake1") > 1:
            w.fail("auth-retried", f"{kind}: {[x[0] for x in h.seen]} sent to an impostor")
        secrets = secrets_of(good)
        for what, body in h.seen:
            for s in secrets:
                if s in body:
                    w.fail("leak", f"{kind}: {what} to an impostor contains the password or a hash of it: {body[:120]!r}")
        await p.close()
