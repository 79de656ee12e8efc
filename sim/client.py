"""Helpers around the code under test: configs, protocols, guarded calls."""

from __future__ import annotations

import asyncio

KINDS = ["xor", "klap1", "klap2", "klap2s", "aes", "aes2", "sslaes", "sslaes_md5", "sslaes_plain", "ssl", "linkie"]
CTYPE = {
    "xor": ("IOT.SMARTPLUGSWITCH", "XOR", None, False),
    "klap1": ("IOT.SMARTPLUGSWITCH", "KLAP", None, False),
    "klap2": ("SMART.TAPOPLUG", "KLAP", 2, False),
    "klap2s": ("SMART.TAPOROBOVAC", "KLAP", 2, True),
    "aes": ("SMART.TAPOPLUG", "AES", None, False),
    "aes2": ("SMART.TAPOBULB", "AES", 2, False),
    "sslaes": ("SMART.IPCAMERA", "AES", None, True),
    "sslaes_md5": ("SMART.IPCAMERA", "AES", None, True),
    "sslaes_plain": ("SMART.IPCAMERA", "AES", None, True),
    "ssl": ("SMART.TAPOROBOVAC", "AES", None, True),
    "linkie": ("IOT.IPCAMERA", "XOR", None, True),
}
ENCRYPTED = [k for k in KINDS if k.startswith(("klap", "aes", "sslaes"))]
HTTP = [k for k in KINDS if k != "xor"]


def make_config(kind, host, creds=None, *, timeout=5, credentials_hash=None, port=None, batch_size=None,
                http_port=None, family=None, http_client=None):
    from kasa import Credentials, DeviceConfig
    from kasa.deviceconfig import DeviceConnectionParameters

    fam, enc, lv, https = CTYPE[kind]
    return DeviceConfig(
        host=host, timeout=timeout, port_override=port, batch_size=batch_size,
        credentials=Credentials(*creds) if creds else None, credentials_hash=credentials_hash,
        http_client=http_client,
        connection_type=DeviceConnectionParameters.from_values(
            family or fam, enc, login_version=lv, https=https, http_port=http_port))


def make_protocol(kind, host, creds=None, **kw):
    from kasa.device_factory import get_protocol

    p = get_protocol(config=make_config(kind, host, creds, **kw))
    assert p is not None
    return p


def default_creds(kind):
    if kind.startswith("sslaes"):
        return ("admin", "Secret1!")
    return ("user@example.com", "Secret1!")


def exc_kind(ex):
    """Stable description of an outcome."""
    from kasa.exceptions import AuthenticationError, DeviceError, KasaException, TimeoutError as KT, UnsupportedDeviceError

    if isinstance(ex, asyncio.CancelledError):
        return "cancelled"
    if isinstance(ex, AuthenticationError):
        return "auth"
    if isinstance(ex, KT):
        return "timeout"
    if isinstance(ex, UnsupportedDeviceError):
        return "unsupported"
    if isinstance(ex, DeviceError):
        return "device"
    if isinstance(ex, KasaException):
        return "kasa"
    return "raw:" + type(ex).__name__


async def outcome(w, coro, op, **kw):
    """Await coro; log and return (kind, value)."""
    w.log("call", op=op, **kw)
    try:
        r = await coro
    except asyncio.CancelledError:
        w.log("ret", op=op, out="cancelled")
        return "cancelled", None
    except Exception as ex:  # noqa: BLE001
        k = exc_kind(ex)
        w.log("ret", op=op, out=k, msg=str(ex)[:160])
        return k, ex
    w.log("ret", op=op, out="ok")
    return "ok", r


# seeded generators used by several checks --------------------------------------
TRANSIENT_X = ["drop_req", "drop_reply", "rst_before", "rst_after", "fin_before", "fin_after", "stall_mid",
               "rst_mid", "fin_mid"]


def gen_fault(rng, kinds):
    k = rng.choice(kinds)
    f = {"kind": k}
    if k in ("stall_mid", "rst_mid", "fin_mid"):
        f["frac"] = round(rng.random(), 3)
    if k == "delay":
        f["delay"] = round(rng.choice([0.3, 1, 3, 4.9, 5.5, 7, 12]) + rng.random() * 0.3, 3)
    if rng.random() < 0.3:
        f["seg"] = gen_seg(rng)
    if rng.random() < 0.5:
        f["skip"] = rng.randint(0, 4)
    if k == "reboot":
        f["down"] = round(rng.choice([0.0, 0.5, 2, 8]) + rng.random(), 3)
        f["how"] = rng.choice(["rst", "fin", "mute"])
    return f


def gen_seg(rng):
    m = rng.choice(["rand", "bytes", "head"])
    return {"mode": m, "n": rng.randint(1, 6), "k": rng.choice([1, 2, 3, 7]), "gap": rng.choice([0, 0.001, 0.05]),
            "max": rng.choice([8, 40])}


def gen_latency(rng):
    return rng.choice([[0.0005, 0.002], [0.001, 0.02], [0.02, 0.2], [0.3, 0.9]])


def cancel_at(w, task, rel_steps):
    """Cancel task after rel_steps more scheduler steps."""
    def fire():
        if not task.done():
            w.fault("cancel")
            task.cancel()
    w.at_step(w.steps + rel_steps, fire)


def _at_step(self, step, fn):
    self.loop.at_step(step, fn)


from .world import World  # noqa: E402

World.at_step = _at_step
