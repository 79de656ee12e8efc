"""Commands of the library's API: arguments, allowed effects, required outcome."""

from __future__ import annotations

import datetime as _dt
import zoneinfo

from . import features as ft
from .features import INFO, LIGHT, NOEFF, STATE
from .models import b64s, iot_tz


class Op:
    """when(p, v), args(rng, p, v), do(kd, a), check(v, a, execs, before) -> bool, paths."""

    def __init__(self, styles, when, args, do, check, paths=(), dep=False, record=()):
        self.styles, self.when, self.args, self.do, self.check = styles, when, args, do, check
        self.paths = [tuple(p) for p in paths]
        self.dep = dep
        self.record = [tuple(p) for p in record]


def mod(kd, name):
    from kasa import Module

    return kd.modules.get(getattr(Module, name, name))


def has(name, *need):
    def when(p, v):
        m = mod(p.kd, name)
        return m is not None and all(p.kd.features.get(f) is not None for f in need)
    return when


def commands(execs):
    """[(name, params)] of what the device executed."""
    return [(e[1], e[2]) if not isinstance(e, tuple) else (f"{e[1]}.{e[2]}", e[3]) for e in execs]


def only(name, params):
    def check(v, a, execs, before):
        return [(c, q or None) for c, q in commands(execs)] == [(name, (params(a) if callable(params) else params) or None)]
    return check


# ------------------------------------------------------------------ light -----
def light_caps(p, v):
    f = p.kd.features
    return "brightness" in f, "hsv" in f, "color_temperature" in f


def gen_light(rng, p, v):
    dim, col, temp = light_caps(p, v)
    a = {}
    if rng.random() < 0.5:
        a["light_on"] = rng.random() < 0.7
    if dim and rng.random() < 0.6:
        a["brightness"] = rng.choice([0, 1, 50, 99, 100, rng.randint(1, 100)])
    if a.get("light_on") is not False and a.get("brightness") != 0:
        if col and rng.random() < 0.4:
            a["hue"], a["saturation"], a["color_temp"] = rng.randint(0, 360), rng.randint(0, 100), 0 if temp or rng.random() < 0.5 else None
        elif temp and rng.random() < 0.4:
            a["color_temp"] = gen_temp(rng, p)
    if rng.random() < 0.3:
        a["transition"] = rng.choice([0, 1, 500, 2000])
    return {k: x for k, x in a.items() if x is not None}


def gen_temp(rng, p):
    lo, hi = p.kd.features["color_temperature"].range
    return rng.choice([lo, hi, rng.randint(lo, hi)])


async def do_light(kd, a):
    from kasa import LightState

    return await mod(kd, "Light").set_state(LightState(**a))


def lit(v):
    """Current light values of a device: (on, dict)."""
    i = v.info()
    if v.node.style == "iot":
        if v.node.bulb:
            s = dict(ft.lstate(v))
            s["brightness"] = ft.i_brightness(v)
            return bool(s["on_off"]), s
        return bool(i["relay_state"]), i
    return bool(i["device_on"]), i


def chk_light(v, a, execs, before):
    on, s = lit(v)
    if a.get("brightness") == 0 or a.get("light_on") is False:
        return not on
    return on and all(s.get(k) == x for k, x in a.items() if k in ("brightness", "hue", "saturation", "color_temp"))


LP = [(INFO, k) for k in ("device_on", "brightness", "hue", "saturation", "color_temp")] + NOEFF


def hsv_args(rng, p, v):
    return [rng.randint(0, 360), rng.randint(0, 100), rng.choice([None, None, 1, 100, rng.randint(1, 100)])]


def chk_hsv(v, a, execs, before):
    on, s = lit(v)
    return (s["hue"], s["saturation"]) == (a[0], a[1]) and (a[2] is None or s["brightness"] == a[2]) and s.get("color_temp", 0) == 0


def chk_temp(v, a, execs, before):
    on, s = lit(v)
    return s["color_temp"] == a[0] and (not a[1] or s["brightness"] == a[1])


def preset_args(rng, p, v):
    names = list(dict(ft.presets(v) if v.node.style == "smart" else ft.ipresets(v)))
    if not names:
        return None
    dim, col, temp = light_caps(p, v)
    st = {"brightness": rng.randint(1, 100)}
    if v.node.style == "iot" or any("hue" in s or "color_temp" in s for _, s in ft.presets(v)):
        if col:
            st.update(hue=rng.randint(0, 360), saturation=rng.randint(0, 100))
        if temp:
            st["color_temp"] = 0 if col and rng.random() < 0.5 else gen_temp(rng, p)
    return [rng.choice(names), st]


async def do_preset(kd, a):
    from kasa import LightState

    return await mod(kd, "LightPreset").save_preset(a[0], LightState(**a[1]))


def preset_values(v):
    return dict(ft.presets(v) if v.node.style == "smart" else ft.ipresets(v))


def all_states(v):
    """Every stored preset slot, effect presets included."""
    i = v.info()
    if v.node.style == "iot":
        return [{k: x for k, x in s.items() if k != "index"} for s in i["preferred_state"]]
    if "preset_state" in i:
        return i["preset_state"]
    r = v.get("get_preset_rules")
    return r.get("states") or [{"brightness": b} for b in r.get("brightness", [])]


def chk_preset(v, a, execs, before):
    name, st = a
    got = preset_values(v).get(name)
    if got is None or any(got.get(k) != x for k, x in st.items()):
        return False
    changed = sum(1 for x, y in zip(before["slots"], all_states(v)) if x != y)
    return changed <= 1


def effects_of(v, p):
    if v.node.style == "iot":
        from kasa.iot.effects import EFFECT_NAMES_V1
        return list(EFFECT_NAMES_V1)
    if "light_effect" in v.comps:
        return [ft.scene(r) for r in v.get("get_dynamic_light_effect_rules")["rule_list"]]
    return ft.strip_names()


def effect_args(rng, p, v):
    return [rng.choice(effects_of(v, p)), rng.choice([None, 1, 55, 100, rng.randint(1, 100)])]


async def do_effect(kd, a):
    return await mod(kd, "LightEffect").set_effect(a[0], brightness=a[1])


def chk_effect(v, a, execs, before):
    e = ft.i_effect(v) if v.node.style == "iot" else ft.s_effect(v)
    b = ft.i_brightness(v) if v.node.style == "iot" else ft.s_brightness(v)
    return e == a[0] and (a[1] is None or b == a[1])


# ------------------------------------------------------------------- time -----
ZONES = ["Europe/Berlin", "America/New_York", "Asia/Tokyo", "UTC"]


def time_args(rng, p, v):
    z = rng.choice([None, *ZONES])
    t = p.node.w.wall() + rng.choice([0, 3600, -86400, rng.randint(-10 ** 6, 10 ** 6)])
    dt = _dt.datetime.fromtimestamp(int(t), zoneinfo.ZoneInfo(z) if z else None)
    return [dt.replace(tzinfo=None).isoformat(), z]


def mkdt(a):
    dt = _dt.datetime.fromisoformat(a[0])
    return dt.replace(tzinfo=zoneinfo.ZoneInfo(a[1])) if a[1] else dt


async def do_time(kd, a):
    return await mod(kd, "Time").set_time(mkdt(a))


def chk_time(v, a, execs, before):
    dt = mkdt(a)
    if dt.tzinfo is None:
        dt = dt.replace(tzinfo=before["tz"])
    return abs(v.node.clock.utc() - dt.timestamp()) < 30 + v.node.w.now - before["now"]


# ------------------------------------------------------------------ rules -----
RULEMODS = {"schedule": "IotSchedule", "anti_theft": "IotAntitheft", "countdown": "IotCountdown"}


def rule_args(rng, p, v):
    k = rng.choice(list(RULEMODS))
    m = mod(p.kd, RULEMODS[k])
    if m is None or not m.is_supported:
        return None
    what = rng.choice(["delete", "delete", "all", "enable"])
    if what == "delete":
        try:
            ids = [r.id for r in m.rules]
        except Exception:  # noqa: BLE001
            ids = []
        return [k, what, rng.choice(ids)] if ids else None
    return [k, what, rng.random() < 0.5]


async def do_rule(kd, a):
    m = mod(kd, RULEMODS[a[0]])
    if a[1] == "delete":
        return await m.delete_rule(next(r for r in m.rules if r.id == a[2]))
    if a[1] == "all":
        return await m.delete_all_rules()
    return await m.set_enabled(a[2])


def outlet(v):
    return v.node.kids[v.child] if v.child is not None else v.node.main


def rules_now(v, k):
    t = next(t for t in outlet(v).rules if k in t and (t.startswith("smartlife") == v.node.bulb or (k == "countdown" and t == "countdown")))
    return outlet(v).rules[t]["get_rules"]


def chk_rule(v, a, execs, before):
    r = rules_now(v, a[0])
    was = before["rules"][a[0]]
    ids = [x["id"] for x in r["rule_list"]]
    if a[1] == "delete":
        return ids == [x for x in was if x != a[2]]
    if a[1] == "all":
        return ids == []
    return bool(r["enable"]) == a[2] and ids == was


# ------------------------------------------------------------------ table -----
def alias_args(rng, p, v):
    return rng.choice(["Lampe", "Küche 2", "a" * 30, "x", "灯"])


def pt_args(rng, p, v):
    return [rng.choice([-30, 10, 45]), rng.choice([-10, 0, 20])]


def alarm_args(rng, p, v):
    a = {}
    if rng.random() < 0.6:
        a["duration"] = rng.randint(1, 600)
    if rng.random() < 0.6:
        a["volume"] = rng.choice(["mute", "low", "normal", "high", 0, 1, 2, 3])
    if rng.random() < 0.6:
        a["sound"] = rng.choice(v.get("get_support_alarm_type_list")["alarm_type_list"])
    return a


def alarm_params(a):
    out = {}
    if "duration" in a:
        out["alarm_duration"] = a["duration"]
    if "volume" in a:
        out["alarm_volume"] = a["volume"] if isinstance(a["volume"], str) else ft.LEVELS[a["volume"]]
    if "sound" in a:
        out["alarm_type"] = a["sound"]
    return out


def clean_args(rng, p, v):
    return rng.choice(["start", "pause", "resume", "return_home"])


CLEAN_START = {"clean_mode": 0, "clean_on": True, "clean_order": True, "force_clean": False}


def chk_clean(v, a, execs, before):
    st = before["status"]
    want = {"start": ("setRobotPause", {"pause": False}) if st == "Paused" else ("setSwitchClean", CLEAN_START),
            "pause": ("setSwitchCharge", {"switch_charge": False}) if st == "GoingHome" else ("setRobotPause", {"pause": True}),
            "resume": ("setRobotPause", {"pause": False}), "return_home": ("setSwitchCharge", {"switch_charge": True})}[a]
    return commands(execs) == [want]


def call(name, meth):
    async def do(kd, a):
        m = mod(kd, name)
        return await getattr(m, meth or a)(**(a if isinstance(a, dict) else {}))
    return do


def light_when(p, v):
    return mod(p.kd, "Light") is not None and (p.node.style != "iot" or p.child is None)


ILIGHT = [*LIGHT, ("sys", "brightness")]
RULEPATHS = [("rules",)]


def cons_args(rng, p, v):
    ids = [c for c, (k, _) in ft.CONS.items() if k in v.get("getConsumablesInfo")]
    return rng.choice(ids)


OPS = {
    "alias": Op("iot smart cam", lambda p, v: p.node.style != "smart" or "nickname" in p.node.dev, alias_args, lambda kd, a: kd.set_alias(a),
                lambda v, a, e, b: v.info().get("alias", v.info().get("device_alias")) == a if v.node.style != "smart"
                else v.info()["nickname"] == b64s(a),
                paths=[(INFO, "nickname"), ("sys", "alias"),
                       ("getDeviceInfo", "device_info", "basic_info", "device_alias")]),
    "turn_on": Op("iot smart", lambda p, v: "state" in p.kd.features and "temp_control" not in getattr(p.node, "components", ()),
                  lambda r, p, v: None, lambda kd, a: kd.turn_on(), lambda v, a, e, b: is_on(v, True),
                  paths=[(INFO, "device_on"), *STATE, *ft.ALLKIDS]),
    "turn_off": Op("iot smart", lambda p, v: "state" in p.kd.features and "temp_control" not in getattr(p.node, "components", ()),
                   lambda r, p, v: None, lambda kd, a: kd.turn_off(), lambda v, a, e, b: is_on(v, False),
                   paths=[(INFO, "device_on"), *STATE, *ft.ALLKIDS]),
    "light_state": Op("iot smart", light_when, gen_light, do_light, chk_light, paths=[*LP, *ILIGHT]),
    "hsv": Op("iot smart", lambda p, v: light_when(p, v) and "hsv" in p.kd.features, hsv_args,
              lambda kd, a: mod(kd, "Light").set_hsv(*a), chk_hsv, paths=[*LP[1:], *ILIGHT]),
    "color_temp": Op("iot smart", lambda p, v: light_when(p, v) and "color_temperature" in p.kd.features,
                     lambda r, p, v: [gen_temp(r, p), r.choice([None, 1, 70, 100])],
                     lambda kd, a: mod(kd, "Light").set_color_temp(a[0], brightness=a[1]), chk_temp, paths=[*LP[1:], *ILIGHT]),
    "save_preset": Op("iot smart", lambda p, v: mod(p.kd, "LightPreset") is not None, preset_args, do_preset, chk_preset,
                      paths=[(INFO, "preset_state"), ("get_preset_rules",), ("sys", "preferred_state")], dep=True),
    "effect": Op("iot smart", lambda p, v: mod(p.kd, "LightEffect") is not None, effect_args, do_effect, chk_effect,
                 paths=[*ft.DYN, ft.RULEB, (INFO, "lighting_effect"), ("get_lighting_effect",), ("sys", "lighting_effect_state")],
                 record=[("get_dynamic_light_effect_rules", "rule_list")], dep=True),
    "alarm_play": Op("smart", has("Alarm"), alarm_args, call("Alarm", "play"), only("play_alarm", alarm_params)),
    "alarm_stop": Op("smart", has("Alarm"), lambda r, p, v: {}, call("Alarm", "stop"), lambda v, a, e, b: [c[0] for c in commands(e)] == ["stop_alarm"]),
    "time": Op("iot smart cam", lambda p, v: p.child is None and not p.parent and mod(p.kd, "Time") is not None, time_args, do_time, chk_time,
               paths=[("clock",), ("tz_index",), ("getTimezone",)], dep=True),
    "rule": Op("iot", lambda p, v: any(mod(p.kd, m) is not None for m in RULEMODS.values()), rule_args, do_rule, chk_rule,
               paths=RULEPATHS, dep=True),
    "energy_erase": Op("iot", lambda p, v: mod(p.kd, "Energy") is not None and not (p.node.kids and p.child is None),
                       lambda r, p, v: {}, call("Energy", "erase_stats"), lambda v, a, e, b: not outlet(v).energy.days,
                       paths=[("energy",)]),
    "usage_erase": Op("iot", lambda p, v: mod(p.kd, "IotUsage") is not None and (p.child is not None or not p.node.kids),
                      lambda r, p, v: {}, call("IotUsage", "erase_stats"), lambda v, a, e, b: not outlet(v).usage.days,
                      paths=[("usage",)]),
    "cold_time": Op("iot", lambda p, v: "pir_enabled" in p.kd.features, lambda r, p, v: r.choice([1000, 60000, 3600000]),
                    lambda kd, a: mod(kd, "IotMotion").set_inactivity_timeout(a), lambda v, a, e, b: v.node.pir["cold_time"] == a,
                    paths=[("pir", "cold_time")]),
    "dim_on": Op("iot", lambda p, v: bool(p.node.style == "iot" and "brightness" in p.node.sys and not p.node.bulb),
                 lambda r, p, v: r.choice([0, 1, 900]), lambda kd, a: kd.turn_on(transition=a), lambda v, a, e, b: is_on(v, True),
                 paths=[*STATE, ("sys", "brightness")], dep=True),
    "dim_off": Op("iot", lambda p, v: bool(p.node.style == "iot" and "brightness" in p.node.sys and not p.node.bulb),
                  lambda r, p, v: r.choice([0, 1, 900]), lambda kd, a: kd.turn_off(transition=a), lambda v, a, e, b: is_on(v, False), paths=STATE),
    "dim_set": Op("iot", lambda p, v: bool(p.node.style == "iot" and "brightness" in p.node.sys and not p.node.bulb),
                  lambda r, p, v: [r.randint(1, 100), r.choice([0, 10, 2000])],
                  lambda kd, a: mod(kd, "Light").set_brightness(a[0], transition=a[1]),
                  lambda v, a, e, b: v.info()["brightness"] == a[0], paths=[*STATE, ("sys", "brightness")]),
    "bulb_fade": Op("iot", lambda p, v: p.node.bulb, lambda r, p, v: [r.random() < 0.5, r.choice([0, 100, 3000])],
                    lambda kd, a: kd.turn_on(transition=a[1]) if a[0] else kd.turn_off(transition=a[1]),
                    lambda v, a, e, b: is_on(v, a[0]) and commands(e)[0][1].get("transition_period") == a[1], paths=STATE),
    "pantilt": Op("cam", lambda p, v: mod(p.kd, "PanTilt") is not None, pt_args, lambda kd, a: mod(kd, "PanTilt").move(pan=a[0], tilt=a[1]),
                  lambda v, a, e, b: [c[1]["motor"]["move"] for c in commands(e)] == [{"x_coord": str(a[0]), "y_coord": str(a[1])}]),
    "clean": Op("smart", has("Clean"), clean_args, call("Clean", None), chk_clean, dep=True),
    "locate": Op("smart", has("Speaker"), lambda r, p, v: {}, call("Speaker", "locate"), only("playSelectAudio", {"audio_type": "seek_me"})),
    "empty_bin": Op("smart", has("Dustbin"), lambda r, p, v: {}, call("Dustbin", "start_emptying"),
                    only("setSwitchDustCollection", {"switch_dust_collection": True})),
    "reset_consumable": Op("smart", has("Consumables"), cons_args, lambda kd, a: mod(kd, "Consumables").reset_consumable(a),
                           lambda v, a, e, b: commands(e) == [("resetConsumablesTime", {"reset_list": [ft.CONS[a][0].removesuffix("_time")]})]),
    "power_limit": Op("smart", has("PowerProtection"), lambda r, p, v: [r.random() < 0.6, r.choice([None, r.randint(1, v.get("get_max_power")["max_power"])])],
                      lambda kd, a: mod(kd, "PowerProtection").set_enabled(a[0], threshold=a[1]),
                      lambda v, a, e, b: v.get("get_protection_power")["enabled"] is a[0]
                      and (a[1] is None or v.get("get_protection_power")["protection_power"] == a[1]),
                      paths=[("get_protection_power", "enabled"), ("get_protection_power", "protection_power")], record=[("get_protection_power",)]),
    "power_threshold": Op("smart", has("PowerProtection"), lambda r, p, v: r.randint(0, v.get("get_max_power")["max_power"]),
                          lambda kd, a: mod(kd, "PowerProtection").set_protection_threshold(a),
                          lambda v, a, e, b: v.get("get_protection_power")["protection_power"] == a,
                          paths=[("get_protection_power", "protection_power")], record=[("get_protection_power",)]),
    "alarm_volume_str": Op("smart", has("Alarm"), lambda r, p, v: r.choice([*ft.LEVELS, 0, 1, 2, 3]),
                           lambda kd, a: mod(kd, "Alarm").set_alarm_volume(a),
                           lambda v, a, e, b: v.get(ft.ALARM)["volume"] == (a if isinstance(a, str) else ft.LEVELS[a]),
                           paths=[(ft.ALARM, "volume")], record=[(ft.ALARM,)]),
    "reboot": Op("iot smart", lambda p, v: p.parent is None, lambda r, p, v: None, lambda kd, a: kd.reboot(), lambda v, a, e, b: reboots(e) == 1),
}


def reboots(execs):
    return sum("reboot" in str(c).lower() for c in commands(execs))


def is_on(v, on):
    if v.node.style == "iot":
        if v.node.kids and v.child is None:
            return all(o.power.on is on for o in v.node.kids.values())
        return v.node.is_on(v.child) is on
    return bool(v.info()["device_on"]) is on


def before(p, v):
    """Facts the outcome checks need from before the command."""
    out = {"now": p.node.w.now, "tz": None}
    try:
        out["tz"] = zoneinfo.ZoneInfo(p.node.clock.tz)
    except (zoneinfo.ZoneInfoNotFoundError, ValueError):
        pass
    if p.node.style == "cam" and p.child is None and "getTimezone" in p.node.info:
        z = p.node.info["getTimezone"]["system"]["basic"]
        try:
            out["tz"] = zoneinfo.ZoneInfo(z["zone_id"])
        except (zoneinfo.ZoneInfoNotFoundError, ValueError):
            out["tz"] = _dt.datetime.strptime(z["timezone"][-6:], "%z").tzinfo
    if p.node.style == "smart":
        t = p.node.info.get("get_device_time")
        if t and not t.get("region"):
            out["tz"] = _dt.timezone(_dt.timedelta(minutes=t["time_diff"]))
    if p.node.style == "iot":
        out["rules"] = {k: [r["id"] for r in rules_now(v, k)["rule_list"]] for k in RULEMODS
                        if any(k in t for t in outlet(v).rules)}
    try:
        out["slots"] = [dict(s) for s in all_states(v)]
    except (ft.Skip, KeyError):
        pass
    try:
        if v.node.style == "smart":
            out["status"] = ft.vac_status(v)
    except (ft.Skip, KeyError):
        pass
    return out
