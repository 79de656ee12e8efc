"""Simulated device: byte-level protocol servers in front of an application model.

Everything here is an independent implementation of the wire protocols; nothing
is imported from the code under test.
"""

from __future__ import annotations

import base64
import hashlib
import json
import struct
from urllib.parse import parse_qs, unquote, urlsplit

from cryptography.hazmat.primitives import padding as _pad
from cryptography.hazmat.primitives import serialization as _ser
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from .net import Host


def sha256(b):
    return hashlib.sha256(b).digest()


def sha1(b):
    return hashlib.sha1(b).digest()


def md5(b):
    return hashlib.md5(b).digest()


def b64(b):
    return base64.b64encode(b).decode()


def jd(o):
    return json.dumps(o, separators=(",", ":"))


def cbc_enc(key, iv, data):
    p = _pad.PKCS7(128).padder()
    data = p.update(data) + p.finalize()
    e = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
    return e.update(data) + e.finalize()


def cbc_dec(key, iv, data):
    d = Cipher(algorithms.AES(key), modes.CBC(iv)).decryptor()
    data = d.update(data) + d.finalize()
    u = _pad.PKCS7(128).unpadder()
    return u.update(data) + u.finalize()


def xor_enc(b):
    key = 171
    out = bytearray()
    for x in b:
        key ^= x
        out.append(key)
    return bytes(out)


def xor_dec(b):
    key = 171
    out = bytearray()
    for x in b:
        out.append(key ^ x)
        key = x
    return bytes(out)


# credential derivations -------------------------------------------------
def klap_v1_hash(un, pw):
    return md5(md5(un.encode()) + md5(pw.encode()))


def klap_v2_hash(un, pw):
    return sha256(sha1(un.encode()) + sha1(pw.encode()))


DEFAULTS = {  # documented setup credentials of the vendor
    "KASA": ("kasa@tp-link.net", "kasaSetup"),
    "KASACAMERA": ("admin", "21232f297a57a5a743894a0e4a801fc3"),
    "TAPO": ("test@tp-link.net", "test"),
    "TAPOCAMERA": ("admin", "admin"),
}

PRE_FAULTS = {
    "drop_req", "rst_before", "fin_before", "http_status", "outer_code",
    "garbage", "reboot", "hang_conn",
}


class Device:
    """A device on the network."""

    def __init__(self, world, ip, app, *, kind, name=None, creds=("user@example.com", "Secret1!"),
                 latency=(0.001, 0.02), port=None, think=(0.0, 0.03), session_timeout=86400,
                 close_each=False, announce_timeout=True, http_opts=None):
        self.w = world
        self.app = app
        self.kind = kind          # xor klap1 klap2 klap2s aes aes2 sslaes sslaes_plain ssl linkie
        self.creds = creds
        self.host = Host(world.net, ip, name or ip, latency)
        self.host.connect_hook = self._connect_hook
        self.ip = ip
        self.name = name or ip
        self.think = think
        self.session_timeout = session_timeout
        self.announce_timeout = announce_timeout
        self.close_each = close_each
        self.rng = world.rng(f"dev/{ip}")
        self.faults = []          # exchange faults (queue)
        self.conn_faults = []     # connection faults (queue)
        self.execs = []           # executed application requests
        self.xlog = []            # every complete request (t, info)
        self.sessions = {}
        self.seen_seeds = []
        self.retired = {}      # cookies and tokens superseded by a newer established session
        self.live_id = None
        self.overlaps = []
        self.bad = []             # protocol misuse noticed by the device
        self.reboots = 0
        self.xn = 0
        self.handshakes = 0
        self.logins = 0
        self.login_fail = 0
        self.default_seg = None   # segmentation policy for replies
        self.down_until = None
        self.opts = http_opts or {}
        self.on_exec = None
        self.choke = None         # request -> fault kind for its reply, or None
        self.choked = None
        if app is not None:
            app.device = self
        self.port = port or {
            "xor": 9999, "klap1": 80, "klap2": 80, "klap2s": 4433, "aes": 80, "aes2": 80,
            "sslaes": 443, "sslaes_md5": 443, "sslaes_plain": 443, "ssl": 4433, "linkie": 10443,
        }[kind]
        self.listen()

    # --- listeners -------------------------------------------------------
    def listen(self):
        k = self.kind
        self.host.tcp.clear()
        self.host.tls_ports.clear()
        if k == "xor":
            self.host.tcp[self.port] = lambda c: XorConn(self, c)
        else:
            handler = {
                "klap1": KlapServer, "klap2": KlapServer, "klap2s": KlapServer,
                "aes": AesServer, "aes2": AesServer,
                "sslaes": SslAesServer, "sslaes_md5": SslAesServer, "sslaes_plain": SslAesServer,
                "ssl": SslServer, "linkie": LinkieServer,
            }[k](self)
            self.http = handler
            self.host.tcp[self.port] = lambda c: HttpConn(self, c, handler)
            if k in ("klap2s", "sslaes", "sslaes_md5", "sslaes_plain", "ssl", "linkie"):
                self.host.tls_ports.add(self.port)

    # --- faults ------------------------------------------------------------
    def arm(self, faults=(), conn_faults=()):
        self.faults.extend(dict(f) for f in faults)
        self.conn_faults.extend(dict(f) for f in conn_faults)

    def disarm(self):
        self.faults.clear()
        self.conn_faults.clear()

    def _connect_hook(self, host, port, n):
        q = self.conn_faults
        if not q:
            return None
        if q[0].get("skip", 0) > 0:
            q[0]["skip"] -= 1
            return None
        return q.pop(0)

    def next_fault(self, info):
        q = self.faults
        if not q:
            return None
        f = q[0]
        if f.get("only") and f["only"] != info:
            return None
        if f.get("skip", 0) > 0:
            f["skip"] -= 1
            return None
        f = q.pop(0)
        self.w.fault(f["kind"])
        return f

    def reboot(self, down=2.0, how="rst"):
        self.w.log("reboot", dev=self.name, down=down)
        self.reboots += 1
        self.sessions.clear()
        self.host.cut_all(how)
        if down > 0:
            self.host.up = False
            self.w.loop.call_later(down, self._up)
        if self.app is not None and hasattr(self.app, "on_reboot"):
            self.app.on_reboot()

    def _up(self):
        self.host.up = True
        self.w.log("up", dev=self.name)

    def lose_sessions(self):
        self.w.log("session_lost", dev=self.name)
        self.sessions.clear()

    # --- request execution ---------------------------------------------------
    def execute(self, req, conn, sent_t, peer=None):
        m = req.get("method") if isinstance(req, dict) and isinstance(req.get("method"), str) else None
        if m is None and isinstance(req, dict):
            m = ",".join(sorted(map(str, req)))[:60]
        rec = {"t": self.w.now, "sent": sent_t, "req": req, "conn": conn.no, "m": m}
        self.execs.append(rec)
        self.w.log("exec", dev=self.name, m=m, conn=conn.no, req=req)
        if self.on_exec is not None:
            self.on_exec(rec)
        if self.choke is not None:
            self.choked = self.choke(req)
        resp = self.app.handle(req)
        rec["resp"] = resp
        return resp

    def arrived(self, conn):
        """A complete request arrived on conn."""
        if conn.awaiting and conn.client_open:
            self.overlaps.append((self.w.now, f"second request on connection {conn.no} before the first was answered"))
        conn.awaiting = True

    def established(self, sid):
        """A new session was established: everything older is history."""
        for i in self.live_id or ():
            if i not in sid:
                self.retired[i] = self.w.now
        self.live_id = sid

    def check_retired(self, ctx, *ids):
        for i in ids:
            if i is not None and i in self.retired and ctx["sent"] > self.retired[i]:
                self.misuse(f"{self.kind}: old session cookie or token sent after a newer session was established")

    def misuse(self, what):
        self.bad.append((self.w.now, what))
        self.w.log("misuse", dev=self.name, what=what)

    # --- reply shaping -----------------------------------------------------
    def seg_for(self, n, fault):
        seg = (fault or {}).get("seg") or self.default_seg
        if not seg:
            return None
        r = self.rng
        mode = seg.get("mode", "rand")
        gap = seg.get("gap", 0.005)
        if mode == "bytes":
            k = seg.get("k", 1)
            return [(k, gap * r.random()) for _ in range(min(n, seg.get("max", 64)))]
        if mode == "head":  # cut inside the header / length prefix
            a = r.randint(1, 5)
            return [(a, 0.0), (r.randint(1, max(1, n - a)), gap * r.random())]
        cuts = [(r.randint(1, max(1, n)), gap * r.random()) for _ in range(seg.get("n", 3))]
        return cuts

    def reply(self, conn, data, fault, *, close=False):
        """Send a complete reply, shaped by the fault."""
        kind = (fault or {}).get("kind")
        if self.choked:
            kind, self.choked = self.choked, None
            self.w.fault("choke_" + kind)
        if kind in ("drop_reply",):
            return
        if kind == "rst_after":
            conn.server_rst()
            return
        if kind == "fin_after":
            conn.server_fin()
            return
        if kind in ("stall_mid", "rst_mid", "fin_mid"):
            k = max(1, min(len(data) - 1, int(len(data) * fault.get("frac", 0.5))))
            conn.server_send(data[:k], self.seg_for(k, fault), final=False)
            if kind == "rst_mid":
                conn.server_rst()
            elif kind == "fin_mid":
                conn.server_fin()
            return
        delay = self.think[0] + (self.think[1] - self.think[0]) * self.rng.random()
        if kind == "delay":
            delay += fault.get("delay", 1.0)
        segs = self.seg_for(len(data), fault)
        if kind == "trickle":
            total = fault.get("total", 30.0)
            n = max(1, min(fault.get("n", 20), len(data)))
            step = max(1, len(data) // n)
            segs = [(step, total / n) for _ in range(n)]

        def go():
            conn.server_send(data, segs)
            if close or kind == "fin_then":
                conn.server_fin()

        if delay > 0:
            self.w.loop.call_later(delay, go)
        else:
            go()


def corrupt(data: bytes, fault, rng):
    """Damage a reply body in the way the fault says."""
    how = fault.get("how", "random")
    if how == "random":
        return rng.randbytes(fault.get("n", max(1, len(data))))
    if how == "trunc":
        return data[: int(len(data) * fault.get("frac", 0.5))]
    if how == "flip":
        if not data:
            return data
        b = bytearray(data)
        for _ in range(fault.get("n", 1)):
            i = rng.randrange(len(b))
            b[i] ^= 1 << rng.randrange(8)
        return bytes(b)
    if how == "empty":
        return b""
    if how == "text":
        return fault.get("text", "<html>error</html>").encode()
    return data


class _SrvConn:
    def __init__(self, dev, conn):
        self.dev = dev
        self.conn = conn
        self.buf = b""
        self.sent_t = 0.0
        self.plain_on_tls = False
        self.alive = True

    def client_closed(self):
        self.alive = False
        if self.conn in self.dev.host.conns:
            self.dev.host.conns.remove(self.conn)

    def killed(self):
        self.alive = False


class XorConn(_SrvConn):
    def data_received(self, data):
        self.buf += data
        while len(self.buf) >= 4:
            n = struct.unpack(">I", self.buf[:4])[0]
            if n > 1_000_000:
                self.dev.misuse("xor: absurd frame length")
                self.conn.server_rst()
                return
            if len(self.buf) < 4 + n:
                return
            frame, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
            self._frame(frame)

    def _frame(self, frame):
        dev, conn = self.dev, self.conn
        dev.xn += 1
        dev.arrived(conn)
        dev.xlog.append((dev.w.now, "request", conn.no, self.sent_t))
        fault = dev.next_fault("request")
        kind = (fault or {}).get("kind")
        dev.w.log("req", dev=dev.name, m="xor", conn=conn.no)
        if kind == "drop_req":
            return
        if kind == "rst_before":
            conn.server_rst()
            return
        if kind == "fin_before":
            conn.server_fin()
            return
        if kind == "reboot":
            dev.reboot(fault.get("down", 2.0), fault.get("how", "rst"))
            return
        try:
            req = json.loads(xor_dec(frame))
        except Exception:
            dev.misuse("xor: undecodable frame")
            conn.server_rst()
            return
        if kind == "replace":
            body = fault["text"].encode()
        else:
            body = jd(dev.execute(req, conn, self.sent_t)).encode()
        enc = xor_enc(body)
        if kind == "corrupt":
            if fault.get("how") == "len":
                data = struct.pack(">I", fault.get("len", 5)) + enc
            else:
                enc = corrupt(enc, fault, dev.rng)
                data = struct.pack(">I", len(enc)) + enc
        else:
            data = struct.pack(">I", len(enc)) + enc
        dev.reply(conn, data, fault, close=dev.close_each)


REASON = {200: "OK", 400: "Bad Request", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found",
          500: "Internal Server Error", 502: "Bad Gateway", 503: "Service Unavailable",
          302: "Found", 204: "No Content", 429: "Too Many Requests"}


class HttpConn(_SrvConn):
    def __init__(self, dev, conn, handler):
        super().__init__(dev, conn)
        self.handler = handler

    def data_received(self, data):
        if self.plain_on_tls:
            self.conn.server_rst()
            return
        self.buf += data
        while True:
            head, sep, rest = self.buf.partition(b"\r\n\r\n")
            if not sep:
                return
            lines = head.decode("latin1").split("\r\n")
            try:
                method, target, _ = lines[0].split(" ", 2)
            except ValueError:
                self.conn.server_rst()
                return
            headers = {}
            for ln in lines[1:]:
                k, _, v = ln.partition(":")
                headers[k.strip().lower()] = v.strip()
            if headers.get("transfer-encoding", "").lower() == "chunked":
                body, rest2 = self._chunked(rest)
                if body is None:
                    return
                self.buf = rest2
            else:
                n = int(headers.get("content-length", "0"))
                if len(rest) < n:
                    return
                body, self.buf = rest[:n], rest[n:]
            u = urlsplit(target)
            cookies = {}
            for part in headers.get("cookie", "").split(";"):
                k, _, v = part.strip().partition("=")
                if k:
                    cookies[k] = v
            self._request({"method": method, "path": u.path,
                           "query": {k: v[0] for k, v in parse_qs(u.query).items()},
                           "headers": headers, "cookies": cookies, "body": body})

    @staticmethod
    def _chunked(data):
        out = b""
        while True:
            ln, sep, rest = data.partition(b"\r\n")
            if not sep:
                return None, None
            n = int(ln.split(b";")[0], 16)
            if len(rest) < n + 2:
                return None, None
            out += rest[:n]
            data = rest[n + 2:]
            if n == 0:
                return out, data

    def _request(self, req):
        dev, conn = self.dev, self.conn
        dev.xn += 1
        dev.arrived(conn)
        what = self.handler.classify(req)
        dev.xlog.append((dev.w.now, what, conn.no, self.sent_t))
        dev.w.log("req", dev=dev.name, m=what, conn=conn.no)
        fault = dev.next_fault(what)
        kind = (fault or {}).get("kind")
        if kind == "drop_req":
            return
        if kind == "rst_before":
            conn.server_rst()
            return
        if kind == "fin_before":
            conn.server_fin()
            return
        if kind == "reboot":
            dev.reboot(fault.get("down", 2.0), fault.get("how", "rst"))
            return
        if kind == "session_lost":
            dev.lose_sessions()
        if kind == "http_status":
            self.send(fault["status"], {}, fault.get("body", "").encode(), fault)
            return
        ctx = {"conn": conn, "sent": self.sent_t, "fault": fault, "what": what}
        status, hdrs, body = self.handler.request(req, ctx)
        if kind == "corrupt":
            body = corrupt(body, fault, dev.rng)
        elif kind == "replace":
            body = fault["text"].encode()
            hdrs = {} if fault.get("nohdr") else hdrs
        self.send(status, hdrs, body, fault)

    def send(self, status, hdrs, body, fault):
        dev = self.dev
        n = len(body)
        kind = (fault or {}).get("kind")
        if kind == "badlen":
            n += fault.get("extra", 50)
        h = [f"HTTP/1.1 {status} {REASON.get(status, 'X')}",
             f"Content-Type: {hdrs.get('_ct', 'application/octet-stream')}"]
        if not (fault or {}).get("nolen"):
            h.append(f"Content-Length: {n}")
        for k, v in hdrs.items():
            if not k.startswith("_"):
                h.append(f"{k}: {v}")
        data = ("\r\n".join(h) + "\r\n\r\n").encode("latin1") + body
        if kind == "badhttp":
            data = fault.get("text", "\x00\x01garbage\r\n\r\n").encode("latin1")
        dev.reply(self.conn, data, fault,
                  close=dev.close_each or (fault or {}).get("nolen") or kind == "badlen")


# ----------------------------------------------------------------------------
class KlapServer:
    def __init__(self, dev):
        self.dev = dev
        self.v2 = dev.kind != "klap1"

    def auth_hash(self):
        un, pw = self.dev.creds
        return (klap_v2_hash if self.v2 else klap_v1_hash)(un, pw)

    def classify(self, req):
        return {"/app/handshake1": "handshake1", "/app/handshake2": "handshake2",
                "/app/request": "request"}.get(req["path"], "other:" + req["path"])

    def request(self, req, ctx):
        dev = self.dev
        p = req["path"]
        if req["method"] != "POST":
            return 404, {}, b""
        if p == "/app/handshake1":
            ls = req["body"]
            if len(ls) != 16:
                dev.misuse("klap: handshake1 seed length")
                return 400, {}, b""
            dev.handshakes += 1
            if ls in dev.seen_seeds:
                dev.misuse("klap: client seed reused in a new handshake")
            dev.seen_seeds.append(ls)
            rs = dev.rng.randbytes(16)
            ah = self.auth_hash()
            sid = dev.rng.randbytes(16).hex().upper()
            dev.sessions[sid] = {"ls": ls, "rs": rs, "ah": ah, "ok": False, "t": dev.w.now,
                                 "exp": dev.w.now + dev.session_timeout, "last": None}
            while len(dev.sessions) > 4:
                dev.sessions.pop(next(iter(dev.sessions)))
            proof = sha256(ls + rs + ah) if self.v2 else sha256(ls + ah)
            ck = f"TP_SESSIONID={sid}"
            if dev.announce_timeout:
                ck += f";TIMEOUT={dev.session_timeout}"
            return 200, {"Set-Cookie": ck, "_ct": "text/html"}, rs + proof
        dev.check_retired(ctx, req["cookies"].get("TP_SESSIONID"))
        s = dev.sessions.get(req["cookies"].get("TP_SESSIONID"))
        if s is None or s["exp"] <= dev.w.now:
            if s is not None and p == "/app/request":
                dev.w.log("expired_use", dev=dev.name)
            return 403, {}, b""
        if p == "/app/handshake2":
            ah = s["ah"]
            exp = sha256(s["rs"] + s["ls"] + ah) if self.v2 else sha256(s["rs"] + ah)
            if req["body"] != exp:
                dev.misuse("klap: bad handshake2 proof")
                return 403, {}, b""
            if s["ok"]:
                dev.misuse("klap: handshake2 repeated")
            s["ok"] = True
            dev.established((req["cookies"].get("TP_SESSIONID"),))
            k = s["ls"] + s["rs"] + ah
            s["key"] = sha256(b"lsk" + k)[:16]
            iv = sha256(b"iv" + k)
            s["iv"] = iv[:12]
            s["seq0"] = struct.unpack(">i", iv[-4:])[0]
            s["sig"] = sha256(b"ldk" + k)[:28]
            s["last"] = s["seq0"]
            return 200, {"_ct": "text/html"}, b""
        if p == "/app/request":
            if not s["ok"]:
                dev.misuse("klap: request in unconfirmed session")
                return 403, {}, b""
            try:
                seq = int(req["query"]["seq"])
                sb = struct.pack(">i", seq)
            except (KeyError, ValueError, struct.error):
                dev.misuse("klap: bad seq parameter")
                return 400, {}, b""
            body = req["body"]
            if sha256(s["sig"] + sb + body[32:]) != body[:32]:
                dev.misuse("klap: bad request signature")
                return 403, {}, b""
            if seq < s["last"] and ctx["sent"] < s["last_sent"]:
                return 403, {}, b""     # overtaken in the network
            if seq <= s["last"]:
                dev.misuse(f"klap: sequence number not increasing ({seq - s['last']})")
                return 403, {}, b""
            s["last"] = seq
            s["last_sent"] = ctx["sent"]
            try:
                plain = json.loads(cbc_dec(s["key"], s["iv"] + sb, body[32:]))
            except Exception:
                dev.misuse("klap: undecryptable request")
                return 400, {}, b""
            fault = ctx["fault"] or {}
            if fault.get("kind") == "outer_code":
                resp = {"error_code": fault["code"]}
                if isinstance(plain.get("method"), str) is False:
                    resp = {k: {"err_code": fault["code"], "err_msg": "x"} for k in plain}
            elif fault.get("kind") == "inner_replace":
                resp = None
            else:
                resp = dev.execute(plain, ctx["conn"], ctx["sent"])
            text = fault["text"].encode() if fault.get("kind") == "inner_replace" else jd(resp).encode()
            ct = cbc_enc(s["key"], s["iv"] + sb, text)
            sig = sha256(s["sig"] + sb + ct)
            return 200, {"_ct": "application/octet-stream"}, sig + ct
        return 404, {}, b""


class AesServer:
    def __init__(self, dev):
        self.dev = dev
        self.login_v2 = dev.kind == "aes2"

    def classify(self, req):
        b = req["body"]
        if b'"handshake"' in b[:60]:
            return "handshake"
        if b'"securePassthrough"' in b[:60]:
            return "request" if "token" in req["query"] else "login"
        return "other"

    def request(self, req, ctx):
        dev = self.dev
        ct = {"_ct": "application/json"}
        fault = ctx["fault"] or {}
        if req["path"] != "/app" or req["method"] != "POST":
            return 404, ct, b"{}"
        if fault.get("kind") == "outer_code":
            return 200, ct, jd({"error_code": fault["code"]}).encode()
        try:
            body = json.loads(req["body"])
        except Exception:
            dev.misuse("aes: bad json")
            return 200, ct, jd({"error_code": -1003}).encode()
        m = body.get("method")
        dev.check_retired(ctx, req["query"].get("token"), req["cookies"].get("TP_SESSIONID"))
        if m == "handshake":
            dev.handshakes += 1
            if "token" in req["query"]:
                dev.misuse("aes: token of a dropped session sent along with a handshake")
            try:
                pem = body["params"]["key"].encode()
                pub = _ser.load_pem_public_key(pem).public_numbers()
            except Exception:
                dev.misuse("aes: bad public key")
                return 200, ct, jd({"error_code": -1010}).encode()
            key = dev.rng.randbytes(16)
            iv = dev.rng.randbytes(16)
            klen = (pub.n.bit_length() + 7) // 8
            ps = bytes(dev.rng.randint(1, 255) for _ in range(klen - 3 - 32))
            mi = int.from_bytes(b"\0\2" + ps + b"\0" + key + iv, "big")
            c = pow(mi, pub.e, pub.n).to_bytes(klen, "big")
            sid = dev.rng.randbytes(16).hex().upper()
            dev.sessions[sid] = {"key": key, "iv": iv, "exp": dev.w.now + dev.session_timeout,
                                 "t": dev.w.now, "token": None, "dead": False}
            while len(dev.sessions) > 4:
                dev.sessions.pop(next(iter(dev.sessions)))
            cn = dev.opts.get("cookie", "TP_SESSIONID")
            ck = f"{cn}={sid}"
            if dev.announce_timeout:
                ck += f";TIMEOUT={dev.session_timeout}"
            return 200, {**ct, "Set-Cookie": ck}, jd({"error_code": 0, "result": {"key": b64(c)}}).encode()
        if m == "securePassthrough":
            sid = req["cookies"].get("TP_SESSIONID")
            s = dev.sessions.get(sid)
            if s is None or s["exp"] <= dev.w.now or s["dead"]:
                if s is not None and s["exp"] <= dev.w.now:
                    dev.w.log("expired_use", dev=dev.name)
                return 200, ct, jd({"error_code": 9999}).encode()
            try:
                plain = json.loads(cbc_dec(s["key"], s["iv"], base64.b64decode(body["params"]["request"])))
            except Exception:
                dev.misuse("aes: request not encrypted under the session key")
                return 200, ct, jd({"error_code": -1005}).encode()
            if plain.get("method") == "login_device":
                dev.logins += 1
                ok = self.check_login(plain.get("params") or {})
                if fault.get("kind") == "login_code":
                    resp = {"error_code": fault["code"]}
                elif ok:
                    s["token"] = dev.rng.randbytes(16).hex().upper()
                    dev.established((s["token"], sid))
                    resp = {"error_code": 0, "result": {"token": s["token"]}}
                else:
                    dev.login_fail += 1
                    s["dead"] = True
                    resp = {"error_code": -1501}
            else:
                if s["token"] is None or req["query"].get("token") != s["token"]:
                    if "token" in req["query"] and s["token"] is not None:
                        dev.misuse("aes: stale token used in a session")
                    return 200, ct, jd({"error_code": 9999}).encode()
                if fault.get("kind") == "inner_code":
                    resp = {"error_code": fault["code"]}
                elif fault.get("kind") == "inner_replace":
                    resp = None
                else:
                    resp = dev.execute(plain, ctx["conn"], ctx["sent"])
            text = fault["text"].encode() if fault.get("kind") == "inner_replace" else jd(resp).encode()
            if fault.get("kind") == "unencrypted":
                enc = text.decode()
            else:
                enc = b64(cbc_enc(s["key"], s["iv"], text))
            return 200, ct, jd({"error_code": 0, "result": {"response": enc}}).encode()
        return 200, ct, jd({"error_code": -1002}).encode()

    def check_login(self, p):
        un, pw = self.dev.creds
        if p.get("username") != b64(sha1(un.encode()).hex().encode()):
            return False
        if self.login_v2:
            return p.get("password2") == b64(sha1(pw.encode()).hex().encode())
        return p.get("password") == b64(pw.encode())


def hx(b):
    return sha256(b).hex().upper()


class SslAesServer:
    """Camera style login and secure passthrough."""

    def __init__(self, dev):
        self.dev = dev
        self.plain = dev.kind == "sslaes_plain"

    def pwd_hash(self):
        pw = self.dev.creds[1].encode()
        if self.dev.kind == "sslaes_md5":
            return md5(pw).hex().upper()
        return hx(pw)

    def classify(self, req):
        if "/stok=" in req["path"]:
            return "request"
        b = req["body"]
        if b'"digest_passwd"' in b:
            return "handshake2"
        if b'"hashed"' in b:
            return "login"
        if b'"cnonce"' in b:
            return "handshake1"
        return "other"

    def request(self, req, ctx):
        dev = self.dev
        ct = {"_ct": "application/json"}
        fault = ctx["fault"] or {}
        fk = fault.get("kind")
        if fk == "outer_code":
            return 200, ct, jd({"error_code": fault["code"]}).encode()

        def out(o, status=200):
            return status, ct, jd(o).encode()

        try:
            body = json.loads(req["body"])
        except Exception:
            dev.misuse("sslaes: bad json")
            return out({"error_code": -40210})
        if "/stok=" in req["path"]:
            stok = req["path"].split("/stok=")[1].split("/")[0]
            dev.check_retired(ctx, stok)
            s = dev.sessions.get(stok)
            if s is None or s["exp"] <= dev.w.now:
                return out({"error_code": -40401, "data": {"code": -40401}})
            if self.plain:
                if fk == "inner_code":
                    return out({"error_code": fault["code"]})
                return out(dev.execute(body, ctx["conn"], ctx["sent"]))
            hseq = req["headers"].get("seq", "")
            try:
                seq = int(hseq)
            except ValueError:
                dev.misuse("sslaes: bad seq header")
                return out({"error_code": -40401}, 500)
            tag = hx(hx(s["ph"].encode() + s["cn"].encode()).encode() + req["body"] + str(seq).encode())
            if tag != req["headers"].get("tapo_tag"):
                dev.misuse("sslaes: bad request tag")
                return out({"error_code": -40413})
            if seq < s["seq"] - 1 and ctx["sent"] < s.get("last_sent", 0):
                return out({"error_code": -40401}, 500)
            if seq < s["seq"]:
                dev.misuse(f"sslaes: sequence number not increasing ({seq - s['seq']})")
                return out({"error_code": -40401}, 500)
            s["seq"] = seq + 1
            s["last_sent"] = ctx["sent"]
            try:
                plain = json.loads(cbc_dec(s["key"], s["iv"], base64.b64decode(body["params"]["request"])))
            except Exception:
                dev.misuse("sslaes: request not encrypted under the session key")
                return out({"error_code": -40210})
            if fk == "inner_code":
                resp = {"error_code": fault["code"]}
            elif fk == "inner_replace":
                resp = None
            else:
                resp = dev.execute(plain, ctx["conn"], ctx["sent"])
            text = fault["text"].encode() if fk == "inner_replace" else jd(resp).encode()
            if fk == "unencrypted":
                return 200, ct, text
            return out({"seq": seq, "error_code": 0,
                        "result": {"response": b64(cbc_enc(s["key"], s["iv"], text))}})
        if body.get("method") != "login":
            return out({"error_code": -40401, "result": {"data": {"code": -40401}}})
        p = body.get("params", {})
        un = dev.creds[0]
        if dev.opts.get("blocked_until", 0) > dev.w.now:
            left = int(dev.opts["blocked_until"] - dev.w.now)
            return out({"error_code": -40401, "data": {"code": -40404, "sec_left": left}})
        if self.plain:
            if p.get("hashed"):
                dev.logins += 1
                if p.get("username") == un and p.get("password") == md5(dev.creds[1].encode()).hex().upper():
                    stok = dev.rng.randbytes(16).hex()
                    dev.established((stok,))
                    dev.sessions[stok] = {"exp": dev.w.now + dev.session_timeout, "t": dev.w.now}
                    return out({"error_code": 0, "result": {"stok": stok, "user_group": "root"}})
                dev.login_fail += 1
                return out({"error_code": -40401, "result": {"data": {"code": -40411, "encrypt_type": ["1", "2"]}}})
            code = -40401 if p.get("username") == un else -40411
            return out({"error_code": -40401, "result": {"data": {"code": code, "encrypt_type": ["1", "2"]}}})
        ph = self.pwd_hash()
        if "digest_passwd" in p:
            dev.logins += 1
            pend = dev.sessions.get(("pend", p.get("cnonce")))
            if pend is None:
                return out({"error_code": -40413, "result": {"data": {"code": -40413}}})
            dev.sessions.pop(("pend", p.get("cnonce")))
            cn, sn = pend["cn"], pend["sn"]
            want = hx(ph.encode() + cn.encode() + sn.encode()) + cn + sn
            if p["digest_passwd"] != want or p.get("username") != un:
                dev.login_fail += 1
                dev.misuse("sslaes: bad handshake2 digest")
                return out({"error_code": -40413, "result": {"data": {"code": -40413}}})
            stok = dev.rng.randbytes(16).hex()
            dev.established((stok,))
            hk = hx(cn.encode() + ph.encode() + sn.encode())
            dev.sessions[stok] = {
                "ph": ph, "cn": cn, "seq": (start := dev.rng.randint(1, 100000)),
                "key": sha256(b"lsk" + cn.encode() + sn.encode() + hk.encode())[:16],
                "iv": sha256(b"ivb" + cn.encode() + sn.encode() + hk.encode())[:16],
                "exp": dev.w.now + dev.session_timeout, "t": dev.w.now}
            return out({"error_code": 0, "result": {"stok": stok, "user_group": "root", "start_seq": start}})
        cn = p.get("cnonce")
        if cn is not None:
            dev.handshakes += 1
            if cn in dev.seen_seeds:
                dev.misuse("sslaes: client nonce reused in a new handshake")
            dev.seen_seeds.append(cn)
            if p.get("username") != un:
                return out({"error_code": -40401, "result": {"data": {"code": -40411, "encrypt_type": ["3"], "time": 0}}})
            sn = dev.rng.randbytes(8).hex().upper()
            dev.sessions[("pend", cn)] = {"cn": cn, "sn": sn, "exp": dev.w.now + 60}
            conf = hx(cn.encode() + ph.encode() + sn.encode()) + sn + cn
            return out({"error_code": -40413, "result": {"data": {
                "code": -40413, "encrypt_type": ["3"], "key": "x", "nonce": sn, "device_confirm": conf}}})
        return out({"error_code": -40401, "result": {"data": {"code": -40401, "encrypt_type": ["3"]}}})


class SslServer:
    """Robot vacuum: plain JSON over TLS with login token."""

    def __init__(self, dev):
        self.dev = dev

    def classify(self, req):
        return "login" if b'"login"' in req["body"][:40] else "request"

    def request(self, req, ctx):
        dev = self.dev
        ct = {"_ct": "application/json"}
        fault = ctx["fault"] or {}

        def out(o):
            return 200, ct, jd(o).encode()

        if fault.get("kind") in ("outer_code", "inner_code"):
            return out({"error_code": fault["code"]})
        if req["path"] != "/app":
            return 404, ct, b"{}"
        try:
            body = json.loads(req["body"])
        except Exception:
            return out({"error_code": -1003})
        dev.check_retired(ctx, req["query"].get("token"))
        if body.get("method") == "login":
            dev.logins += 1
            if "token" in req["query"]:
                dev.misuse("ssl: token of a dropped session sent along with a login")
            p = body.get("params", {})
            un, pw = dev.creds
            if p.get("username") == un and p.get("password") == md5(pw.encode()).hex().upper():
                tok = dev.rng.randbytes(16).hex()
                dev.established((tok,))
                dev.sessions[tok] = {"exp": dev.w.now + dev.session_timeout, "t": dev.w.now}
                return out({"error_code": 0, "result": {"token": tok}})
            dev.login_fail += 1
            return out({"error_code": -1501})
        s = dev.sessions.get(req["query"].get("token"))
        if s is None or s["exp"] <= dev.w.now:
            if s is not None:
                dev.w.log("expired_use", dev=dev.name)
            return out({"error_code": 9999})
        return out(dev.execute(body, ctx["conn"], ctx["sent"]))


class LinkieServer:
    def __init__(self, dev):
        self.dev = dev

    def classify(self, req):
        return "request"

    def request(self, req, ctx):
        dev = self.dev
        ct = {"_ct": "text/plain"}
        if req["path"] != "/data/LINKIE2.json":
            return 404, ct, b""
        un, pw = DEFAULTS["KASACAMERA"]
        if req["headers"].get("authorization") != "Basic " + b64(f"{un}:{pw}".encode()):
            return 401, ct, b""
        fault = ctx["fault"] or {}
        body = unquote(req["body"].decode())
        if not body.startswith("content="):
            return 400, ct, b""
        try:
            plain = json.loads(xor_dec(base64.b64decode(body[8:])))
        except Exception:
            dev.misuse("linkie: undecodable request")
            return 400, ct, b""
        if fault.get("kind") == "plain_error":
            return 200, ct, jd({"err_code": fault.get("code", -1)}).encode()
        if fault.get("kind") == "inner_replace":
            return 200, ct, base64.b64encode(xor_enc(fault["text"].encode()))
        resp = dev.execute(plain, ctx["conn"], ctx["sent"])
        return 200, ct, base64.b64encode(xor_enc(jd(resp).encode()))
