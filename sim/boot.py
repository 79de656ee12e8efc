"""Process bootstrap: put every source of nondeterminism behind the simulator.

Must be imported before kasa, aiohttp and friends.  The patched functions fall
back to the real ones while no simulated world is active, so that imports and
the runner itself are unaffected.
"""

from __future__ import annotations

import os
import random
import sys
import time as _time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

real_time = _time.time
real_monotonic = _time.monotonic
real_perf_counter = _time.perf_counter
real_urandom = os.urandom


class _Cur:
    world = None


CUR = _Cur()


def _sim_time():
    w = CUR.world
    return real_time() if w is None else w.wall()


def _sim_monotonic():
    w = CUR.world
    return real_monotonic() if w is None else w.now


def _sim_perf_counter():
    w = CUR.world
    return real_perf_counter() if w is None else w.now


def _sim_urandom(n):
    w = CUR.world
    return real_urandom(n) if w is None else w.entropy(n)


_time.time = _sim_time
_time.monotonic = _sim_monotonic
_time.perf_counter = _sim_perf_counter
_time.time_ns = lambda: int(_sim_time() * 1e9)
os.urandom = _sim_urandom
random._urandom = _sim_urandom  # secrets.token_bytes / SystemRandom

import logging  # noqa: E402

logging.disable(logging.NOTSET)
logging.getLogger().addHandler(logging.NullHandler())
logging.lastResort = None

# logging uses time.time()/time_ns and thread ids only in formatted records.

import datetime as _dt  # noqa: E402

real_datetime = _dt.datetime


class _SimDTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real_datetime)


class SimDatetime(real_datetime, metaclass=_SimDTMeta):
    """datetime whose now() is the simulated host clock."""

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_sim_time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_sim_time(), _dt.UTC).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


_KEYPOOL_CACHE: dict = {}


def _patch_rsa():
    """RSA key generation from a committed pool (OpenSSL's RNG is not seedable)."""
    from cryptography.hazmat.primitives import serialization
    from cryptography.hazmat.primitives.asymmetric import rsa

    real_gen = rsa.generate_private_key
    pool_dir = os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys")

    def load(size, idx):
        k = _KEYPOOL_CACHE.get((size, idx))
        if k is None:
            with open(os.path.join(pool_dir, f"rsa{size}_{idx}.der"), "rb") as f:
                k = serialization.load_der_private_key(f.read(), None)
            _KEYPOOL_CACHE[(size, idx)] = k
        return k

    def gen(public_exponent, key_size, backend=None):
        w = CUR.world
        if w is None:
            return real_gen(public_exponent=public_exponent, key_size=key_size)
        return load(key_size, w.next_key(key_size))

    rsa.generate_private_key = gen
    for size in (1024, 2048):
        for i in range(4):
            if os.path.exists(os.path.join(pool_dir, f"rsa{size}_{i}.der")):
                load(size, i)


def boot():
    """Import the code under test and install the seams."""
    if getattr(boot, "done", False):
        return
    boot.done = True
    _patch_rsa()
    import aiohappyeyeballs  # noqa: F401
    import aiohttp  # noqa: F401
    import asyncclick  # noqa: F401

    import kasa  # noqa: F401
    import kasa.cli.main  # noqa: F401
    import importlib
    import pkgutil

    if not kasa.__file__.startswith(REPO + "/"):
        raise RuntimeError(f"kasa imported from {kasa.__file__}, not {REPO}")
    for m in pkgutil.walk_packages(kasa.__path__, "kasa."):
        if m.name.endswith("__main__"):
            continue
        importlib.import_module(m.name)
    for name, mod in list(sys.modules.items()):
        if name == "kasa" or name.startswith("kasa."):
            for k, v in list(vars(mod).items()):
                if v is real_datetime:
                    setattr(mod, k, SimDatetime)
    _dt.datetime = SimDatetime
    import aiohttp.connector  # noqa: F401

    from . import net

    aiohappyeyeballs.start_connection = net.sim_start_connection
    # pre-import lazily imported pieces so that forked runs do not pay for it
    import encodings.idna  # noqa: F401
    import zoneinfo

    for z in ("Europe/Berlin", "UTC", "America/New_York", "Asia/Tokyo"):
        try:
            zoneinfo.ZoneInfo(z)
        except Exception:
            pass
