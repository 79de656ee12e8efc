"""Discovery responders: an independent model of what devices answer to probes."""

from __future__ import annotations

import base64
import functools
import glob
import hashlib
import json
import os

from .device import cbc_enc, jd, xor_dec, xor_enc
from .net import Host

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures")


@functools.cache
def fixtures(family):
    return sorted(glob.glob(f"{FIX}/{family}/*.json"))


@functools.cache
def _raw(path):
    with open(path) as f:
        return f.read()


def load(path):
    return json.loads(_raw(path))


@functools.cache
def legacy_paths():
    return [p for p in fixtures("iot") if "discovery_result" not in load(p)]


@functools.cache
def new_paths():
    return [p for fam in ("iot", "smart", "smartcam") for p in fixtures(fam) if "discovery_result" in load(p)]


def mac_of(n):
    return "50:C7:BF:%02X:%02X:%02X" % (n >> 16 & 255, n >> 8 & 255, n & 255)


def legacy_info(idx, n):
    """A legacy device's sysinfo with the identity n."""
    ps = legacy_paths()
    s = load(ps[idx % len(ps)])["system"]["get_sysinfo"]
    for k in ("mac", "mic_mac", "ethernet_mac"):
        if k in s:
            s[k] = mac_of(n) if k != "mic_mac" else mac_of(n).replace(":", "")
    if "alias" in s:
        s["alias"] = f"Device {n}"
    if "deviceId" in s:
        s["deviceId"] = hashlib.sha1(f"dev{n}".encode()).hexdigest().upper()
    return {"system": {"get_sysinfo": s}}


def new_info(idx, n, ip):
    """A newer device's discovery result with the identity n (camera data still unencrypted)."""
    ps = new_paths()
    r = load(ps[idx % len(ps)])["discovery_result"]["result"]
    r["ip"] = ip
    r["mac"] = mac_of(n).replace(":", "-")
    r["device_id"] = hashlib.md5(f"dev{n}".encode()).hexdigest()
    r.pop("decrypted_data", None)
    return r


def rsa_oaep(pem, data, rnd):
    """RSA-OAEP (SHA1) with chosen randomness."""
    from cryptography.hazmat.primitives.serialization import load_pem_public_key

    num = load_pem_public_key(pem.encode()).public_numbers()
    k = (num.n.bit_length() + 7) // 8

    def mgf(seed, n):
        out = b""
        i = 0
        while len(out) < n:
            out += hashlib.sha1(seed + i.to_bytes(4, "big")).digest()
            i += 1
        return out[:n]

    def xor(a, b):
        return bytes(x ^ y for x, y in zip(a, b))
    lh = hashlib.sha1(b"").digest()
    db = lh + b"\0" * (k - len(data) - 2 * 20 - 2) + b"\1" + data
    seed = rnd[:20]
    mdb = xor(db, mgf(seed, k - 21))
    ms = xor(seed, mgf(mdb, 20))
    return pow(int.from_bytes(b"\0" + ms + mdb, "big"), num.e, num.n).to_bytes(k, "big")


def new_answer(result, probe, rng, error_code=0):
    """The datagram a newer device answers to a probe."""
    r = json.loads(json.dumps(result))
    if "encrypt_info" in r:
        pem = json.loads(probe[16:])["params"]["rsa_key"]
        key, iv = rng.randbytes(16), rng.randbytes(16)
        data = {"device_id": r["device_id"], "http_port": 443, "connect_type": "wireless", "owner": r.get("owner", "")}
        r["encrypt_info"] = {"sym_schm": "AES", "key": base64.b64encode(rsa_oaep(pem, key + iv, rng.randbytes(20))).decode(),
                             "data": base64.b64encode(cbc_enc(key, iv, jd(data).encode())).decode()}
    return b"\x02\x00\x00\x01\x02\x00\x00\x00" + rng.randbytes(8) + jd({"error_code": error_code, "result": r}).encode()


def is_legacy_probe(data):
    try:
        return json.loads(xor_dec(data)) == {"system": {"get_sysinfo": {}}}
    except Exception:  # noqa: BLE001
        return False


def is_new_probe(data):
    import binascii
    if len(data) < 16 or data[0] != 2:
        return False
    head = bytearray(data)
    crc = bytes(head[12:16])
    head[12:16] = (0x5A6B7C8D).to_bytes(4, "big")
    return crc == binascii.crc32(head).to_bytes(4, "big") and int.from_bytes(data[4:6], "big") == len(data) - 16


# what a user may expect -------------------------------------------------
def legacy_expect(info):
    s = info["system"]["get_sysinfo"]
    t = s.get("mic_type", s.get("type"))
    tl = s.get("type", s.get("mic_type")).lower()
    dn = s.get("dev_name", "")
    if "Dimmer" in dn:
        cls = "IotDimmer"
    elif "smartplug" in tl:
        cls = "IotStrip" if "children" in s else "IotWallSwitch" if "light" in dn.lower() else "IotPlug"
    else:
        cls = "IotLightStrip" if "length" in s else "IotBulb"
    return {"cls": cls, "family": t, "enc": "XOR", "lv": None, "https": False, "http_port": None,
            "model": s["model"].split("(")[0], "alias": s.get("alias"), "mac": s.get("mac") or ":".join(
                s["mic_mac"][i:i + 2] for i in range(0, 12, 2)), "id": s["deviceId"], "transport": "XorTransport", "proto": "IotProtocol"}


KNOWN = {"IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG",
         "SMART.TAPOBULB", "SMART.TAPOSWITCH", "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.IPCAMERA", "SMART.TAPOROBOVAC",
         "SMART.TAPOCHIME", "SMART.TAPODOORBELL"}


def new_expect(r):
    """Expected device for a discovery result, or None when it is of no supported kind."""
    t = r["device_type"]
    m = r.get("mgt_encrypt_schm")
    if m is None:
        return None
    enc = m.get("encrypt_type") or (r.get("encrypt_info") or {}).get("sym_schm")
    lv = m.get("lv") or (max(int(x) for x in r["encrypt_type"]) if r.get("encrypt_type") else None)
    https = m["is_support_https"]
    if t not in KNOWN or enc not in ("KLAP", "AES", "XOR"):
        return None
    if t in ("SMART.IPCAMERA", "SMART.TAPODOORBELL"):
        cls, tr, pr = "SmartCamDevice", "SslAesTransport", "SmartCamProtocol"
        if not https:
            return None
    elif t == "SMART.TAPOROBOVAC":
        cls, pr = "SmartDevice", "SmartProtocol"
        tr = "SslTransport" if enc == "AES" else "KlapTransportV2"
    elif t.startswith("SMART."):
        cls, pr = "SmartDevice", "SmartProtocol"
        tr = {"AES": "AesTransport", "KLAP": "KlapTransportV2"}.get(enc)
        if https and enc == "AES":
            pr, tr = "SmartCamProtocol", "SslAesTransport"
            if t == "SMART.TAPOHUB":
                cls = "SmartCamDevice"
    else:
        cls = {"IOT.SMARTPLUGSWITCH": "IotPlug", "IOT.SMARTBULB": "IotBulb"}.get(t)
        pr = "IotProtocol"
        tr = {"XOR": "XorTransport", "KLAP": "KlapTransport"}.get(enc)
    if cls is None or tr is None:
        return None
    return {"cls": cls, "family": t, "enc": enc, "lv": lv, "https": https, "http_port": m.get("http_port"),
            "model": r["device_model"].split("(")[0], "alias": None, "mac": r["mac"].replace("-", ":"), "id": r["device_id"],
            "transport": tr, "proto": pr}


UNSUPPORTED = ["toaster", "ipcam", "no_schm", "enc_unknown", "no_enc", "missing_field", "ec60", "klap_https_iot"]
BROKEN_NEW = ["not_json", "short", "list", "no_result", "null", "empty", "error_only", "text_ids"]
BROKEN_LEGACY = ["not_json", "list", "empty_obj", "no_sysinfo", "sys_list", "sys_null", "no_type", "type_int", "children_int", "empty",
                 "unknown_type", "str"]


def make_unsupported(what, n, ip, idx):
    """(port, datagram factory payload) of a device the library does not support."""
    if what == "ec60":
        return 9999, {"system": {"get_sysinfo": {"err_code": 0, "system": {
            "type": "IOT.IPCAMERA", "model": "EC60(US)", "mac": mac_of(n).replace(":", ""), "deviceId": f"{n:040x}", "alias": f"Cam {n}",
            "sw_ver": "2.3.22", "hw_ver": "4.0", "a_type": 2, "is_cal": 1}}}}
    r = new_info(idx, n, ip)
    r.pop("encrypt_info", None)
    if what == "toaster":
        r["device_type"] = "SMART.TOASTER"
    elif what == "ipcam":
        r["device_type"] = "IOT.IPCAMERA"
        r["mgt_encrypt_schm"] = {"is_support_https": True, "encrypt_type": "AES", "http_port": 443, "lv": 2}
    elif what == "no_schm":
        r.pop("mgt_encrypt_schm", None)
    elif what == "enc_unknown":
        r["mgt_encrypt_schm"] = {"is_support_https": False, "encrypt_type": "TPAP", "http_port": 80, "lv": 2}
    elif what == "no_enc":
        r["mgt_encrypt_schm"] = {"is_support_https": False, "http_port": 80}
    elif what == "missing_field":
        r.pop(["device_type", "device_model", "device_id", "mac", "ip"][idx % 5])
    elif what == "klap_https_iot":
        r["device_type"] = "IOT.SMARTPLUGSWITCH"
        r["mgt_encrypt_schm"] = {"is_support_https": True, "encrypt_type": "KLAP", "http_port": 80, "lv": 2}
    return 20002, r


def broken_datagram(port, what, n, idx, rng):
    if port == 9999:
        s = legacy_info(idx, n)
        i = s["system"]["get_sysinfo"]
        if what == "not_json":
            return rng.randbytes(40)
        if what == "empty":
            return b""
        if what == "list":
            s = [1, 2]
        elif what == "str":
            s = "system"
        elif what == "empty_obj":
            s = {}
        elif what == "no_sysinfo":
            s = {"system": {}}
        elif what == "sys_list":
            s = {"system": []}
        elif what == "sys_null":
            s = {"system": {"get_sysinfo": None}}
        elif what == "no_type":
            i.pop("type", None)
            i.pop("mic_type", None)
            i.pop("dev_name", None)
        elif what == "type_int":
            i["type"] = i["mic_type"] = 3
        elif what == "children_int":
            s = {"system": {"get_sysinfo": 5}}
        elif what == "unknown_type":
            i["type"] = i["mic_type"] = "IOT.GADGET"
        return xor_enc(jd(s).encode())
    head = b"\x02\x00\x00\x01" + rng.randbytes(12)
    if what == "not_json":
        return head + rng.randbytes(30)
    if what == "short":
        return rng.randbytes(7)
    if what == "empty":
        return b""
    body = {"list": [1], "no_result": {"error_code": 0}, "null": None, "error_only": {"error_code": -1, "result": None},
            "text_ids": {"error_code": 0, "result": "x"}}[what]
    return head + jd(body).encode()


class Population:
    """Hosts of a plan, answering discovery probes; records every delivery."""

    def __init__(self, w, hosts, legacy_port=9999):
        self.w = w
        self.net = w.net
        self.legacy_port = legacy_port
        self.deliv = []       # (t, src ip, src port, kind)
        self.probes = []      # (t, ip, port, ok)
        self.hosts = hosts
        self.expect = {}      # (ip, port) -> expectation dict | "unsupported" | "broken"
        self.raw = {}         # (ip, port) -> parsed answer
        orig = w.net._udp_deliver

        def deliver(tr, data, addr, host):
            if tr in w.net.open_udp:
                self.deliv.append((w.now, addr[0], addr[1]))
            orig(tr, data, addr, host)
        w.net._udp_deliver = deliver
        for h in hosts:
            self.add(h)

    def add(self, h):
        w = self.w
        host = w.net.hosts.get(h["ip"]) or Host(w.net, h["ip"], h["ip"], h.get("lat", (0.001, 0.02)))
        rng = w.rng(f"disco/{h['ip']}")
        lp = self.legacy_port

        def answers(port, make):
            def on(data, tr):
                good = is_legacy_probe(data) if port == lp else is_new_probe(data)
                self.probes.append((w.now, h["ip"], port, good))
                if not good:
                    return
                for _ in range(h.get("odd", 0)):
                    w.fault("stray_packet")
                    w.net.udp_reply(host, port, rng.randbytes(20), tr, src_port=rng.choice([1024, 40000, 53]))
                w.net.udp_reply(host, port, make(data), tr)
            host.udp[port] = on
        if "legacy" in h:
            info = legacy_info(h["legacy"], h["n"])
            self.expect[h["ip"], lp] = legacy_expect(info)
            self.raw[h["ip"], lp] = info
            answers(lp, lambda d: xor_enc(jd(info).encode()))
        if "new" in h:
            r = new_info(h["new"], h["n"], h["ip"])
            self.expect[h["ip"], 20002] = new_expect(r)
            self.raw[h["ip"], 20002] = {"error_code": 0, "result": r}
            answers(20002, lambda d: new_answer(r, d, rng))
        if "unsupported" in h:
            port, r = make_unsupported(h["unsupported"], h["n"], h["ip"], h.get("idx", 0))
            if port == 9999:
                port = lp
                answers(port, lambda d: xor_enc(jd(r).encode()))
                self.raw[h["ip"], port] = r
            else:
                answers(port, lambda d: new_answer(r, d, rng))
                self.raw[h["ip"], port] = {"error_code": 0, "result": r}
            self.expect[h["ip"], port] = "unsupported"
        if "broken" in h:
            port = lp if h["broken"][0] == 9999 else 20002
            self.expect[h["ip"], port] = "broken"
            answers(port, lambda d: broken_datagram(h["broken"][0], h["broken"][1], h["n"], h.get("idx", 0), rng))

    def first(self, ip):
        """First delivery of an answer port of ip: (t, port) or None."""
        for t, i, port in self.deliv:
            if i == ip and port in (self.legacy_port, 20002):
                return t, port
        return None


def compare(dev, e, ip, creds, timeout, port, host=None):
    """Differences between a reported device and the answer it was made from."""
    c = dev.config
    ct = c.connection_type
    got = {"cls": type(dev).__name__, "family": ct.device_family.value, "enc": ct.encryption_type.value, "lv": ct.login_version,
           "https": ct.https, "http_port": ct.http_port, "model": dev.model, "mac": dev.mac, "id": dev.device_id,
           "transport": type(dev.protocol._transport).__name__, "proto": type(dev.protocol).__name__}
    if e["alias"] is not None:
        got["alias"] = dev.alias
    if e["family"].startswith("IOT."):
        got.pop("id")     # these are identified by their MAC
    got["mac"] = got["mac"].upper()
    out = [f"{k}: {v!r} instead of {e[k]!r}" for k, v in got.items() if v != e[k]]
    if dev.host != (host or ip) or (c.host != (host or ip)):
        out.append(f"host {dev.host}/{c.host} instead of {host or ip}")
    cc = (c.credentials.username, c.credentials.password) if c.credentials else None
    if cc != creds:
        out.append(f"credentials {cc} instead of {creds}")
    if c.timeout != (timeout or 5):
        out.append(f"timeout {c.timeout} instead of {timeout or 5}")
    if c.port_override != port:
        out.append(f"port override {c.port_override} instead of {port}")
    return out


def announce(w, dev, model, kind, path, fam, n=3):
    """The simulated device answers discovery probes as the device it is."""
    from .client import CTYPE

    host = dev.host
    rng = w.rng("udp")
    if kind in ("xor",):
        host.udp[9999] = lambda d, tr: w.net.udp_reply(host, 9999, xor_enc(jd({"system": {"get_sysinfo": model.sys}}).encode()), tr) \
            if is_legacy_probe(d) else None
        return
    _, enc, lv, https = CTYPE[kind]
    raw = load(path)
    r = raw.get("discovery_result", {}).get("result") or {"device_model": "X100(EU)", "owner": "00", "factory_default": False, "is_support_iot_cloud": True}
    r = json.loads(json.dumps(r))
    r.pop("decrypted_data", None)
    r.update(ip=dev.ip, mac=mac_of(n).replace(":", "-"), device_id=f"{n:032x}",
             device_type=fam or r.get("device_type") or CTYPE[kind][0])
    r["mgt_encrypt_schm"] = {"is_support_https": https, "encrypt_type": enc, "http_port": dev.port, **({"lv": lv} if lv else {})}
    if not kind.startswith("sslaes"):
        r.pop("encrypt_info", None)
    if lv is None:
        r.pop("encrypt_type", None)
    host.udp[20002] = lambda d, tr: w.net.udp_reply(host, 20002, new_answer(r, d, rng), tr) if is_new_probe(d) else None
