"""Application models of IOT, SMART and SMARTCAM devices, built from fixtures.

They answer like devices do: static data from a recorded device, live clocks,
on-times and energy records, setters that change the state, children with a
state of their own, paged lists, scripted errors.
"""

from __future__ import annotations

import base64
import copy
import datetime as _dt
import functools
import hashlib
import os
import zoneinfo

from .disco import FIX, fixtures, load, mac_of

UTC = _dt.UTC


@functools.cache
def _tz(name):
    return zoneinfo.ZoneInfo(name)


def b64s(s):
    return base64.b64encode(s.encode()).decode()


class Clock:
    """The device's own clock."""

    def __init__(self, w, tz="UTC", skew=0.0):
        self.w, self.tz, self.skew = w, tz, skew

    def utc(self):
        return self.w.wall() + self.skew

    def local(self):
        return _dt.datetime.fromtimestamp(int(self.utc()), _tz(self.tz))

    def set_utc(self, ts):
        self.skew = ts - self.w.wall()


def path_get(o, path):
    for p in path:
        o = o[p]
    return o


def path_set(o, path, v):
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v


def diff(a, b, path=()):
    """Paths at which two JSON-like values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                out.append(path + (k,))
            else:
                out += diff(a[k], b[k], path + (k,))
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, path + (i,))
        return out
    return [] if a == b and type(a) is type(b) or a == b and not isinstance(a, bool) and not isinstance(b, bool) else [path]


class Power:
    """Switch state with its on-time."""

    def __init__(self, w, on, on_for=0.0):
        self.w = w
        self.on = bool(on)
        self.since = w.now - on_for

    def set(self, on):
        if on and not self.on:
            self.since = self.w.now
        self.on = bool(on)

    def reboot(self):
        self.since = self.w.now

    def on_time(self):
        return int(self.w.now - self.since) if self.on else 0


class Records:
    """Energy (Wh) or run time (min) recorded per day."""

    def __init__(self):
        self.days = {}       # (y, m, d) -> value

    def add(self, date, v):
        k = (date.year, date.month, date.day)
        self.days[k] = self.days.get(k, 0) + v

    def day(self, date):
        return self.days.get((date.year, date.month, date.day))

    def month(self, date):
        v = [x for (y, m, d), x in self.days.items() if (y, m) == (date.year, date.month)]
        return sum(v) if v else None

    def days_of(self, y, m):
        return [(d, v) for (yy, mm, d), v in sorted(self.days.items()) if (yy, mm) == (y, m)]

    def months_of(self, y):
        out = {}
        for (yy, mm, d), v in sorted(self.days.items()):
            if yy == y:
                out[mm] = out.get(mm, 0) + v
        return list(out.items())


# ---------------------------------------------------------------- IOT ---------
CLOUD = {"username": "", "server": "devs.tplinkcloud.com", "binded": 0, "cld_connection": 0, "illegalType": -1, "tcspStatus": -1,
         "fwDlPage": "", "tcspInfo": "", "stopConnect": 0, "fwNotifyType": 0}
EMETERS = ("emeter", "smartlife.iot.common.emeter")
SCHEDULES = ("schedule", "smartlife.iot.common.schedule")
TIMES = ("time", "smartlife.iot.common.timesetting")
CLOUDS = ("cnCloud", "smartlife.iot.common.cloud")
RULES = ("anti_theft", "smartlife.iot.common.anti_theft", "countdown")
LIGHTS = ("smartlife.iot.smartbulb.lightingservice", "smartlife.iot.lightStrip")
PIR = {"enable": 0, "version": "1.0", "trigger_index": 2, "cold_time": 60000, "min_adc": 0, "max_adc": 4095, "array": [80, 50, 20, 0]}
LAS = {"devs": [{"hw_id": 0, "enable": 0, "dark_index": 1, "min_adc": 0, "max_adc": 2450, "level_array": [
    {"name": "cloudy", "adc": 490, "value": 20}, {"name": "custom", "adc": 2400, "value": 97}]}], "ver": "1.0"}
DIMMER = {"minThreshold": 11, "fadeOnTime": 1000, "fadeOffTime": 1000, "gentleOnTime": 3000, "gentleOffTime": 10000, "rampRate": 30,
          "bulb_type": 1}

IOT_TZ = None


def iot_tz(index):
    global IOT_TZ
    if IOT_TZ is None:
        from kasa.iot.iottimezone import TIMEZONE_INDEX
        IOT_TZ = TIMEZONE_INDEX
    return IOT_TZ.get(index, "Etc/GMT")


class IotOutlet:
    """What exists once per outlet: switch, energy and usage records, rules."""

    def __init__(self, w, rng, rt, on, on_for):
        self.power = Power(w, on, on_for)
        self.energy = Records()
        self.usage = Records()
        self.realtime = rt
        self.rules = {k: {"get_rules": {"enable": 1, "rule_list": []}, "get_next_action": {"type": -1}}
                      for k in RULES + SCHEDULES}


class IotModel:
    style = "iot"

    def __init__(self, w, path, n=1, rng=None, tz_index=None):
        self.w = w
        rng = rng or w.rng(f"model/{n}")
        self.rng = rng
        raw = load(path)
        self.path = path
        self.model_name = os.path.basename(path)[:-5]
        s = self.sys = raw["system"]["get_sysinfo"]
        for k in ("mac", "ethernet_mac"):
            if k in s:
                s[k] = mac_of(n)
        if "mic_mac" in s:
            s["mic_mac"] = mac_of(n).replace(":", "")
        if "alias" in s:
            s["alias"] = f"Device {n}"
        s["deviceId"] = hashlib.sha1(f"dev{n}".encode()).hexdigest().upper()
        self.bulb = "light_state" in s
        self.tz_index = tz_index if tz_index is not None else 39
        self.clock = Clock(w, iot_tz(self.tz_index))
        self.has_emeter = self.bulb or "ENE" in s.get("feature", "")
        self.kwh = not any("energy_wh" in str(v) for k, v in raw.items() if k in EMETERS) and any(
            k in raw and isinstance(raw[k], dict) and "get_realtime" in raw[k] and "power" in raw[k]["get_realtime"] for k in EMETERS)
        rt = None
        for k in EMETERS:
            if isinstance(raw.get(k), dict) and isinstance(raw[k].get("get_realtime"), dict) and "err_code" in raw[k]["get_realtime"] \
                    and raw[k]["get_realtime"]["err_code"] == 0:
                rt = {a: b for a, b in raw[k]["get_realtime"].items() if a != "err_code"}
        if rt is None:
            rt = {"power_mw": 1500} if self.bulb else {"voltage_mv": 121302, "current_ma": 23, "power_mw": 1510, "total_wh": 1200}
        self.rt0 = rt
        self.unsupported = {k for k, v in raw.items() if isinstance(v, dict) and v.get("err_code", 0) != 0}
        if "children" in s:
            self.kids = {}
            for i, c in enumerate(s["children"]):
                c["id"] = s["deviceId"] + f"{i:02d}" if len(c["id"]) > 4 else f"{i:02d}"
                c["alias"] = f"Outlet {n}/{i}"
                self.kids[c["id"]] = IotOutlet(w, rng, {k: (v + 1000 * (i + 1) if isinstance(v, int) else v) for k, v in rt.items()},
                                               c["state"], rng.randint(10, 90000))
        else:
            self.kids = None
        on = s["light_state"]["on_off"] if self.bulb else s.get("relay_state", 0)
        self.main = IotOutlet(w, rng, rt, on, rng.randint(10, 90000))
        self.cloud = dict(CLOUD)
        self.pir = copy.deepcopy(PIR)
        self.las = copy.deepcopy(LAS)
        self.dimmer = dict(DIMMER)
        for t, store in (("smartlife.iot.PIR", self.pir), ("smartlife.iot.LAS", self.las)):
            if isinstance(raw.get(t), dict) and "get_config" in raw[t]:
                store.update({k: v for k, v in raw[t]["get_config"].items() if k != "err_code"})
        if isinstance(raw.get("smartlife.iot.dimmer"), dict):
            self.dimmer.update({k: v for k, v in raw["smartlife.iot.dimmer"].get("get_dimmer_parameters", {}).items() if k != "err_code"})
        self.pir_adc = 50
        self.behavior = {"soft_on": {"mode": "last_status"}, "hard_on": {"mode": "last_status"}}
        self.fail = {}            # target or (target, cmd) -> err_code | None (no answer)
        self.malformed = {}       # (target, cmd) -> dict answered with err_code 0
        self.execs = []           # (t, target, cmd, args, child_ids)
        self.queries = []         # (t, target, cmd)
        self.answered = {}        # (target, cmd, child) -> (t, result) last answered
        self.reboots = 0
        self.factory_resets = 0

    # ---- state for oracles
    def snap(self):
        sysinfo = self.sysinfo()
        sysinfo.pop("on_time", None)
        for c in sysinfo.get("children", []):
            c.pop("on_time", None)
        st = sysinfo.pop("light_state", None)
        if st is not None:
            sysinfo["light"] = {"on": st["on_off"], **{k: v for k, v in (st if st["on_off"] else st["dft_on_state"]).items()
                                                      if k not in ("on_off", "dft_on_state")}}
        out = {"sys": sysinfo, "cloud": dict(self.cloud), "pir": copy.deepcopy(self.pir), "las": copy.deepcopy(self.las),
               "dimmer": dict(self.dimmer), "behavior": copy.deepcopy(self.behavior), "tz_index": self.tz_index, "power": self.main.power.on,
               "rules": copy.deepcopy(self.main.rules), "energy": dict(self.main.energy.days), "usage": dict(self.main.usage.days)}
        if self.kids:
            out["kids"] = {k: {"on": o.power.on, "rules": copy.deepcopy(o.rules), "energy": dict(o.energy.days),
                               "usage": dict(o.usage.days)} for k, o in self.kids.items()}
        return out

    def set_on(self, on, child=None):
        o = self.kids[child] if child is not None else self.main
        o.power.set(on)
        if self.bulb and child is None:
            self.light({"on_off": int(on)})

    def is_on(self, child=None):
        if child is not None:
            return self.kids[child].power.on
        if self.kids:
            return any(o.power.on for o in self.kids.values())
        return self.main.power.on

    def child(self, cid):
        return next(c for c in self.sys["children"] if c["id"] == cid)

    def sysinfo(self):
        s = self.sys
        if self.kids:
            for c in s["children"]:
                o = self.kids[c["id"]]
                c["state"] = int(o.power.on)
                c["on_time"] = o.power.on_time()
        else:
            if "relay_state" in s:
                s["relay_state"] = int(self.main.power.on)
            if "on_time" in s:
                s["on_time"] = self.main.power.on_time()
        return copy.deepcopy(s)

    def light(self, ch):
        """Bulb state change as bulbs do it."""
        st = self.sys["light_state"]
        eff = self.sys.get("lighting_effect_state")
        ch = {k: v for k, v in ch.items() if k not in ("ignore_default", "transition_period")}
        if eff is not None:
            if {"hue", "saturation", "color_temp"} & set(ch):
                eff["enable"] = 0
            elif eff.get("enable") and ch.get("on_off", 1) and ch.get("brightness"):
                eff["brightness"] = ch["brightness"]
                ch = {k: v for k, v in ch.items() if k != "brightness"}
        on = ch.get("on_off", st["on_off"])
        cur = {k: v for k, v in (st if st["on_off"] else st.get("dft_on_state", {})).items() if k not in ("on_off", "dft_on_state")}
        cur.update({k: v for k, v in ch.items() if k in ("hue", "saturation", "brightness", "color_temp", "mode")})
        extra = {k: v for k, v in st.items() if k not in ("on_off", "dft_on_state", "hue", "saturation", "brightness", "color_temp", "mode")}
        if on:
            self.sys["light_state"] = {"on_off": 1, **extra, **cur}
        else:
            self.sys["light_state"] = {"on_off": 0, "dft_on_state": cur}
        self.main.power.set(bool(on))

    # ---- requests
    def handle(self, req):
        if not isinstance(req, dict):
            return {"err_code": -1}
        ids = (req.get("context") or {}).get("child_ids")
        out = {}
        for target, cmds in req.items():
            if target == "context":
                continue
            f = self.fail.get(target)
            if f is not None:
                self.queries += [(self.w.now, target, cmd, tuple(ids or ())) for cmd in cmds or {}]
                out[target] = {"err_code": f, "err_msg": "module not support"}
                continue
            if target in self.unsupported or not self.known_target(target):
                out[target] = {"err_code": -1, "err_msg": "module not support"}
                continue
            o = {}
            for cmd, arg in (cmds or {}).items():
                self.queries.append((self.w.now, target, cmd, tuple(ids or ())))
                f = self.fail.get((target, cmd))
                if (target, cmd) in self.malformed:
                    r = {"err_code": 0, **self.malformed[target, cmd]}
                    o[cmd] = r
                    continue
                if f is not None:
                    r = {"err_code": f, "err_msg": "failed"}
                else:
                    r = self.command(target, cmd, arg or {}, ids)
                    if r is None:
                        r = {"err_code": -2, "err_msg": "member not support"}
                    elif "err_code" not in r:
                        r = {**r, "err_code": 0}
                if not cmd.startswith("get_"):
                    self.execs.append((self.w.now, target, cmd, copy.deepcopy(arg), tuple(ids or ()), r["err_code"]))
                elif r["err_code"] == 0:
                    self.answered[target, cmd, ids[0] if ids else None] = (self.w.now, copy.deepcopy(r))
                o[cmd] = r
            out[target] = o
        return out

    def known_target(self, t):
        if t == "system":
            return True
        if self.bulb:
            lt = LIGHTS[1] if "length" in self.sys else LIGHTS[0]
            return t in ("smartlife.iot.common.emeter", "smartlife.iot.common.schedule", "smartlife.iot.common.timesetting",
                         "smartlife.iot.common.cloud", "smartlife.iot.common.anti_theft", "smartlife.iot.common.system",
                         "smartlife.iot.common.softaponboarding", lt) or (
                t == "smartlife.iot.lighting_effect" and "lighting_effect_state" in self.sys)
        if t == "emeter":
            return self.has_emeter
        if t in ("smartlife.iot.PIR", "smartlife.iot.LAS"):
            return "PIR" in self.sys.get("dev_name", "")
        if t == "smartlife.iot.dimmer":
            return "Dimmer" in self.sys.get("dev_name", "")
        return t in ("schedule", "time", "cnCloud", "anti_theft", "countdown", "netif")

    def outlets(self, ids):
        if ids and self.kids:
            return [self.kids[i] for i in ids if i in self.kids]
        return [self.main]

    def command(self, t, cmd, a, ids):
        s = self.sys
        outs = self.outlets(ids)
        if not outs:
            return {"err_code": -10, "err_msg": "invalid child"}
        first = outs[0]
        if t in ("system", "smartlife.iot.common.system"):
            if cmd == "get_sysinfo":
                return self.sysinfo()
            if cmd == "set_relay_state":
                if self.kids and not ids:
                    for o in self.kids.values():
                        o.power.set(a["state"])
                    return {}
                for o in outs:
                    o.power.set(a["state"])
                return {}
            if cmd == "set_dev_alias":
                if ids and self.kids:
                    for i in ids:
                        self.child(i)["alias"] = a["alias"]
                else:
                    s["alias"] = a["alias"]
                return {}
            if cmd == "set_led_off" and "led_off" in s:
                s["led_off"] = a["off"]
                return {}
            if cmd == "reboot":
                self.reboots += 1
                return {}
            if cmd == "reset":
                self.factory_resets += 1
                return {}
            if cmd == "set_mac_addr":
                s["mac"] = a["mac"]
                return {}
            return None
        if t in EMETERS:
            return self.meter(cmd, a, first.energy, first.realtime, "energy" if self.kwh else "energy_wh", first)
        if t in SCHEDULES:
            if cmd in ("get_daystat", "get_monthstat", "erase_runtime_stat"):
                return self.meter(cmd, a, first.usage, None, "time", first)
            return self.rule(first.rules[t], cmd, a)
        if t in RULES:
            return self.rule(first.rules[t], cmd, a)
        if t in TIMES:
            if cmd == "get_time":
                n = self.clock.local()
                return {"year": n.year, "month": n.month, "mday": n.day, "hour": n.hour, "min": n.minute, "sec": n.second}
            if cmd == "get_timezone":
                return {"index": self.tz_index}
            if cmd in ("set_time", "set_timezone"):
                if cmd == "set_timezone":
                    self.tz_index = a["index"]
                    self.clock.tz = iot_tz(self.tz_index)
                n = _dt.datetime(a["year"], a["month"], a["mday"], a["hour"], a["min"], a["sec"], tzinfo=_tz(self.clock.tz))
                self.clock.set_utc(n.timestamp())
                return {}
            return None
        if t in CLOUDS:
            if cmd == "get_info":
                return dict(self.cloud)
            return None
        if t in LIGHTS:
            return self.lamp(cmd, a)
        if t == "smartlife.iot.lighting_effect" and cmd == "set_lighting_effect":
            e = s["lighting_effect_state"]
            for k in ("brightness", "custom", "enable", "id", "name"):
                if k in a:
                    e[k] = a[k]
            return {}
        if t == "smartlife.iot.dimmer":
            if cmd == "get_dimmer_parameters":
                return dict(self.dimmer)
            if cmd == "set_brightness":
                s["brightness"] = a["brightness"]
                return {}
            if cmd == "set_dimmer_transition":
                if a["brightness"] == 0:
                    self.main.power.set(False)
                else:
                    s["brightness"] = a["brightness"]
                    self.main.power.set(True)
                return {}
            if cmd == "set_switch_state":
                self.main.power.set(a["state"])
                return {}
            if cmd == "get_default_behavior":
                return {**copy.deepcopy(self.behavior), "long_press": {"mode": "instant_on_off"},
                        "double_click": {"mode": "gentle_on_off"}}
            keys = {"calibrate_brightness": ("minThreshold", "minThreshold"), "set_fade_on_time": ("fadeTime", "fadeOnTime"),
                    "set_fade_off_time": ("fadeTime", "fadeOffTime"), "set_gentle_on_time": ("duration", "gentleOnTime"),
                    "set_gentle_off_time": ("duration", "gentleOffTime"), "set_button_ramp_rate": ("rampRate", "rampRate")}
            if cmd in keys:
                k, d = keys[cmd]
                self.dimmer[d] = a[k]
                return {}
            return None
        if t == "smartlife.iot.PIR":
            if cmd == "get_config":
                return copy.deepcopy(self.pir)
            if cmd == "get_adc_value":
                return {"value": self.pir_adc}
            if cmd == "set_enable":
                self.pir["enable"] = a["enable"]
                return {}
            if cmd == "set_trigger_sens":
                self.pir["trigger_index"] = a["index"]
                if "value" in a:
                    self.pir["array"][a["index"]] = a["value"]
                return {}
            if cmd == "set_cold_time":
                self.pir["cold_time"] = a["cold_time"]
                return {}
            return None
        if t == "smartlife.iot.LAS":
            if cmd == "get_config":
                return copy.deepcopy(self.las)
            if cmd == "get_current_brt":
                return {"value": 30}
            if cmd == "set_enable":
                self.las["devs"][0]["enable"] = a["enable"]
                return {}
            return None
        if t in ("netif", "smartlife.iot.common.softaponboarding"):
            if cmd == "get_scaninfo":
                return {"ap_list": [{"ssid": "net", "key_type": 3}]}
            if cmd == "set_stainfo":
                return {}
        return None

    def rule(self, r, cmd, a):
        if cmd in r:
            return copy.deepcopy(r[cmd])
        if cmd == "set_overall_enable":
            r["get_rules"]["enable"] = a["enable"]
            return {}
        if cmd == "delete_rule":
            r["get_rules"]["rule_list"] = [x for x in r["get_rules"]["rule_list"] if x["id"] != a["id"]]
            return {}
        if cmd == "delete_all_rules":
            r["get_rules"]["rule_list"] = []
            return {}
        return None

    def meter(self, cmd, a, rec, rt, key, outlet):
        conv = (lambda v: v / 1000) if key == "energy" else (lambda v: v)
        if cmd == "get_realtime":
            return copy.deepcopy(rt)
        if cmd == "get_daystat":
            return {"day_list": [{"year": a["year"], "month": a["month"], "day": d, key: conv(v)} for d, v in rec.days_of(a["year"], a["month"])]}
        if cmd == "get_monthstat":
            return {"month_list": [{"year": a["year"], "month": m, key: conv(v)} for m, v in rec.months_of(a["year"])]}
        if cmd in ("erase_emeter_stat", "erase_runtime_stat"):
            rec.days.clear()
            return {}
        return None

    def lamp(self, cmd, a):
        s = self.sys
        if cmd in ("transition_light_state", "set_light_state"):
            if cmd != ("set_light_state" if "length" in s else "transition_light_state"):
                return None
            if "brightness" in a and not 0 <= a["brightness"] <= 100:
                return {"err_code": -10000, "err_msg": "Invalid input argument"}
            self.light(a)
            return copy.deepcopy(s["light_state"])
        if cmd == "get_light_state":
            return copy.deepcopy(s["light_state"])
        if cmd == "set_preferred_state":
            if not 0 <= a["index"] < len(s["preferred_state"]):
                return {"err_code": -10000, "err_msg": "Invalid input argument"}
            s["preferred_state"][a["index"]] = copy.deepcopy(a)
            return {}
        if cmd == "get_light_details":
            return {"lamp_beam_angle": 150, "min_voltage": 110, "max_voltage": 120, "wattage": 10, "incandescent_equivalent": 60,
                    "max_lumens": 800, "color_rendering_index": 80}
        if cmd == "get_default_behavior":
            return copy.deepcopy(self.behavior)
        if cmd == "set_default_behavior":
            new = copy.deepcopy(self.behavior) | copy.deepcopy(a)
            if set(new) != set(self.behavior) or not all(x["mode"] in ("last_status", "circadian") or x["mode"] == "customize_preset" and isinstance(x.get("index"), int) and
                       0 <= x["index"] < max(1, len(s.get("preferred_state", []))) for x in new.values()):
                return {"err_code": -10000, "err_msg": "Invalid input argument"}
            self.behavior = new
            return {}
        return None


# -------------------------------------------------------------- SMART ---------
MISSING = {
    "get_wireless_scan_info": (("wireless", 0), {"ap_list": [], "wep_supported": False}),
    "get_auto_off_config": (("auto_off", 0), {"delay_min": 10, "enable": False}),
    "get_led_info": (("led", 0), {"led_rule": "never", "led_status": False, "night_mode": {
        "end_time": 420, "night_mode_type": "sunrise_sunset", "start_time": 1140, "sunrise_offset": 0, "sunset_offset": 0}}),
    "get_latest_fw": (("firmware", 0), {"fw_size": 0, "fw_ver": "1.0.5 Build 230801 Rel.095702", "hw_id": "", "need_to_upgrade": False,
                                        "oem_id": "", "release_date": "", "release_note": "", "type": 0}),
    "get_homekit_info": (("homekit", 0), {"mfi_setup_code": "000-00-000", "mfi_setup_id": "0000", "mfi_token_token": "0",
                                          "mfi_token_uuid": "00000000-0000-0000-0000-000000000000"}),
    "get_auto_update_info": (("firmware", 2), {"enable": True, "random_range": 120, "time": 180}),
    "get_alarm_configure": (("alarm", 0), {"duration": 10, "type": "Doorbell Ring 2", "volume": "low"}),
    "get_support_alarm_type_list": (("alarm", 0), {"alarm_type_list": ["Doorbell Ring 1", "Doorbell Ring 2"]}),
    "get_device_usage": (("device", 0), {}),
    "get_connect_cloud_state": (("cloud_connect", 0), {"status": 0}),
    "get_emeter_data": (("energy_monitoring", 0), {"current_ma": 33, "energy_wh": 971, "power_mw": 1003, "voltage_mv": 121215}),
    "get_current_power": (("energy_monitoring", 0), {"current_power": 1}),
    "get_emeter_vgain_igain": (("energy_monitoring", 0), {"igain": 10861, "vgain": 118657}),
    "get_protection_power": (("power_protection", 0), {"enabled": False, "protection_power": 0}),
    "get_max_power": (("power_protection", 0), {"max_power": 3904}),
    "get_matter_setup_info": (("matter", 0), {"setup_code": "00000000000", "setup_payload": "00:0000000-0000.00.000"}),
    "get_support_child_device_category": (("child_quick_setup", 0), {"device_category_list": [{"category": "subg.trv"}]}),
    "get_scan_child_device_list": (("child_quick_setup", 0), {"child_device_list": [], "scan_status": "idle"}),
    "get_device_time": (("time", 0), {"region": "UTC", "time_diff": 0, "timestamp": 0}),
    "get_fw_download_state": (("firmware", 0), {"auto_upgrade": False, "download_progress": 0, "reboot_time": 5, "status": 0, "upgrade_time": 5}),
}
OK_ONLY = {"set_qs_info", "play_alarm", "stop_alarm", "playSelectAudio", "resetConsumablesTime",
           "setRobotPause", "setSwitchClean", "setSwitchCharge", "setSwitchDustCollection"}


class SmartNode:
    """One SMART (child) device."""

    style = "smart"

    def __init__(self, w, raw, name, *, did, nick, clock=None, child=False, rng=None):
        self.w = w
        self.name = name
        self.id = did
        self.rng = rng or w.rng(f"node/{did}")
        self.child = child
        self.info = {k: v for k, v in raw.items() if k not in ("discovery_result", "child_devices", "get_child_device_list",
                                                               "get_child_device_component_list", "child_info_from_parent")}
        self.components = {c["id"]: c["ver_code"] for c in self.info["component_nego"]["component_list"]}
        i = self.dev = self.info["get_device_info"]
        i["device_id"] = did
        i["nickname"] = b64s(nick)
        if "mac" in i and not child:
            i["mac"] = nick
        for m, ((comp, ver), res) in MISSING.items():
            if m not in self.info and comp in self.components and self.components[comp] >= ver:
                self.info[m] = copy.deepcopy(res)
        if "on_off_gradually" in self.components and "get_on_off_gradually_info" not in self.info:
            self.info["get_on_off_gradually_info"] = {"enable": True} if self.components["on_off_gradually"] == 1 else {
                "off_state": {"duration": 5, "enable": False, "max_duration": 60},
                "on_state": {"duration": 5, "enable": False, "max_duration": 60}}
        for m in [m for m, v in self.info.items() if isinstance(v, int)]:   # a recorded error code
            del self.info[m]
        self.clock = clock or Clock(w, "UTC")
        t = self.info.get("get_device_time")
        if t and not clock and t.get("region"):
            try:
                _tz(t["region"])
                self.clock.tz = t["region"]
            except Exception:  # noqa: BLE001
                t["region"] = "UTC"
        self.power = Power(w, i.get("device_on", False), self.rng.randint(10, 90000)) if "device_on" in i else None
        self.energy = Records()
        self.usage = Records()
        self.fail = {}        # method -> error code
        self.execs = []
        self.queries = []
        self.answered = {}    # method -> (t, result) last answered
        self.page = 10
        self.hook = {}        # method -> fn(params) -> response dict (overrides)
        self.reboots = 0

    def snap(self):
        self.live()
        o = copy.deepcopy(self.info)
        o["get_device_info"].pop("on_time", None)
        for m in ("get_device_time", "get_energy_usage"):
            o.pop(m, None)
        if "get_device_time" in self.info and not self.child:
            o["clock"] = (round(self.clock.skew), self.clock.tz)
        return o

    def live(self):
        i = self.dev
        if self.power is not None:
            if i["device_on"] is not self.power.on and bool(i["device_on"]) != self.power.on:
                i["device_on"] = self.power.on
            if "on_time" in i:
                i["on_time"] = self.power.on_time()
        t = self.info.get("get_device_time")
        if t is not None and "timestamp" in t:
            t["timestamp"] = int(self.clock.utc())
            t["region"] = self.clock.tz if t.get("region") else t.get("region")
            if t.get("region"):
                t["time_diff"] = int(self.clock.local().utcoffset().total_seconds() // 60)
        e = self.info.get("get_energy_usage")
        if e is not None and self.energy.days:
            d = self.clock.local().date()
            e["today_energy"] = self.energy.day(d) or 0
            e["month_energy"] = self.energy.month(d) or 0
            e["local_time"] = self.clock.local().strftime("%Y-%m-%d %H:%M:%S")

    def set_on(self, on):
        self.power.set(on)
        self.dev["device_on"] = bool(on)

    def h(self, method, params):
        """Answer one method."""
        if method == "multipleRequest":
            res = []
            for r in (params or {}).get("requests", []):
                a = dict(self.h(r["method"], r.get("params")))
                a["method"] = r["method"]
                res.append(a)
                if a["error_code"] != 0 and self.stop_on_error:
                    break
            return {"error_code": 0, "result": {"responses": res}}
        self.queries.append((self.w.now, method))
        read = method.startswith("get") or "component_nego" in method
        if not read:
            code = self.fail.get(method) or 0
            rec = [self.w.now, method, copy.deepcopy(params), code]
            self.execs.append(rec)
        if self.fail.get(method):
            return {"error_code": self.fail[method]}
        if method in self.hook:
            return self.hook[method](params)
        if read:
            if method not in self.info:
                return {"error_code": -1008}
            self.live()
            self.answered[method] = (self.w.now, copy.deepcopy(self.info[method]))
            return {"error_code": 0, "result": self.paged(copy.deepcopy(self.info[method]), params)}
        r = self.setter(method, params or {})
        rec[3] = r["error_code"]
        return r

    stop_on_error = True

    def paged(self, r, params):
        if isinstance(r, dict) and "start_index" in r and "sum" in r:
            k = next((k for k in r if isinstance(r[k], list)), None)
            if k is not None:
                st = (params or {}).get("start_index", 0) or 0
                full = r[k]
                r["sum"] = len(full)
                r["start_index"] = st
                r[k] = full[st:st + self.page]
        return r

    def setter(self, m, p):
        info, dev = self.info, self.dev
        ok = {"error_code": 0}
        if m in OK_ONLY:
            return ok
        if m == "device_reboot":
            self.reboots += 1
            return ok
        if m == "set_device_info":
            for k, v in p.items():
                if k == "device_on" and self.power is not None:
                    self.set_on(v)
                elif k not in ("light_on", "transition"):    # ignored by devices
                    dev[k] = v
            if ({"hue", "saturation", "color_temp"} & set(p)) and "lighting_effect" in dev:
                dev["lighting_effect"]["enable"] = 0
            if ({"hue", "saturation", "color_temp"} & set(p)) and dev.get("dynamic_light_effect_enable"):
                dev["dynamic_light_effect_enable"] = False
                dev.pop("dynamic_light_effect_id", None)
                if "get_dynamic_light_effect_rules" in info:
                    info["get_dynamic_light_effect_rules"]["enable"] = False
                    info["get_dynamic_light_effect_rules"].pop("current_rule_id", None)
            return ok
        if m == "set_dynamic_light_effect_rule_enable":
            r = info["get_dynamic_light_effect_rules"]
            dev["dynamic_light_effect_enable"] = r["enable"] = p["enable"]
            if p["enable"]:
                dev["dynamic_light_effect_id"] = r["current_rule_id"] = p["id"]
            else:
                dev.pop("dynamic_light_effect_id", None)
                r.pop("current_rule_id", None)
            return ok
        if m == "edit_dynamic_light_effect_rule":
            for r in info["get_dynamic_light_effect_rules"]["rule_list"]:
                if r["id"] == p["id"]:
                    r.update(copy.deepcopy(p))
                    return ok
            return {"error_code": -1008}
        if m == "set_lighting_effect":
            e = dev["lighting_effect"]
            for k in ("brightness", "enable", "name", "id", "custom"):
                if p.get(k) is not None:
                    e[k] = p[k]
            if "enable" in p:
                info["get_lighting_effect"] = copy.deepcopy(p)
            return ok
        if m == "set_led_info":
            info["get_led_info"]["led_status"] = p["led_rule"] != "never"
            info["get_led_info"].update(copy.deepcopy({k: v for k, v in p.items() if k != "led_status"}))
            return ok
        if m == "set_preset_rules":
            if "brightness" in info.get("get_preset_rules", {}):
                info["get_preset_rules"]["brightness"] = list(p["brightness"])
            elif "preset_state" not in dev:
                return {"error_code": -1008}
            if "preset_state" in dev:
                dev["preset_state"] = [{"brightness": b} for b in p["brightness"]]
            return ok
        if m == "edit_preset_rules":
            info["get_preset_rules"]["states"][p["index"]] = copy.deepcopy(p["state"])
            return ok
        if m == "set_temperature_unit":
            if "temp_unit" not in dev:
                return {"error_code": -1002}
            dev["temp_unit"] = p["temp_unit"]
            return ok
        if m == "set_on_off_gradually_info":
            g = info.get("get_on_off_gradually_info")
            if self.components.get("on_off_gradually") == 1:
                g["enable"] = p["enable"]
                return ok
            for st, mode, fade in (("on_state", "gradually_on_mode", "fade_on_time"), ("off_state", "gradually_off_mode", "fade_off_time")):
                if st in p:
                    if mode in dev:
                        dev[mode] = 1 if p[st].get("enable") else 0
                        if "duration" in p[st]:
                            dev[fade] = p[st]["duration"]
                    if g is not None:
                        g[st].update(p[st])
            return ok
        if m == "set_child_protection":
            dev["child_protection"] = p["enable"]
            return ok
        if m == "set_device_time":
            if p.get("region"):
                try:
                    _tz(p["region"])
                    self.clock.tz = p["region"]
                except Exception:  # noqa: BLE001
                    pass
            self.clock.set_utc(p["timestamp"])
            return ok
        if m.startswith("set"):
            g = "get" + m[3:]
            if g not in info or not isinstance(info[g], dict):
                return {"error_code": -1008}
            info[g].update(copy.deepcopy(p))
            return ok
        return {"error_code": -1002}


class Hub:
    """Common to models with child devices."""

    def kid(self, did):
        return next((k for k in self.kids or () if k.id == did), None)

    bad_components = ()
    dead = ()

    def comps(self, k, full):
        c = {"device_id": k.id, "component_list": copy.deepcopy(full)}
        if k.id in self.bad_components:
            c.update(self.bad_components[k.id])
            c = {a: b for a, b in c.items() if b != "<absent>"}
        return c

    def listed(self, resp):
        """Remember what was reported about the children on one page."""
        for d in resp["result"]["child_device_list"]:
            self.kid(d["device_id"]).answered["parent"] = (self.w.now, copy.deepcopy(d))
        return resp


class SmartModel(Hub, SmartNode):
    """A SMART device with optional children."""

    def __init__(self, w, path, n=1, rng=None, kids=None, page=10):
        raw = load(path)
        self.path = path
        self.model_name = os.path.basename(path)[:-5]
        super().__init__(w, raw, self.model_name, did=hashlib.sha1(f"dev{n}".encode()).hexdigest().upper(), nick=f"Device {n}", rng=rng)
        if "mac" in self.dev:
            self.dev["mac"] = mac_of(n).replace(":", "-")
        self.page = page
        self.kids = None
        self.components_of = {}
        self.missing_components = set()
        if "child_device" in self.components:
            self.kids = []
            if kids is None:
                kids = default_kids(path)
            for j, kraw in enumerate(kids):
                self.add_kid(copy.deepcopy(kraw), f"{n}/{j}")

    def add_kid(self, kraw, tag, at=None):
        did = "8022" + hashlib.sha1(f"kid{tag}".encode()).hexdigest().upper()[:36]
        k = SmartNode(self.w, kraw, f"kid{tag}", did=did, nick=f"Child {tag}", clock=self.clock, child=True, rng=self.rng)
        k.dev["parent_device_id"] = self.id
        self.kids.insert(len(self.kids) if at is None else at, k)
        return k

    def h(self, method, params):
        if self.kids is not None and method in ("get_child_device_list", "get_child_device_component_list", "control_child",
                                                "remove_child_device_list"):
            self.queries.append((self.w.now, method))
            if self.fail.get(method):
                return {"error_code": self.fail[method]}
            if method == "get_child_device_list":
                for k in self.kids:
                    k.live()
                r = {"child_device_list": [copy.deepcopy(k.dev) for k in self.kids], "start_index": 0, "sum": 0}
                return self.listed({"error_code": 0, "result": self.paged(r, params)})
            if method == "get_child_device_component_list":
                r = {"child_component_list": [self.comps(k, k.info["component_nego"]["component_list"])
                                              for k in self.kids if k.id not in self.missing_components], "start_index": 0, "sum": 0}
                return {"error_code": 0, "result": self.paged(r, params)}
            if method == "remove_child_device_list":
                ids = {d["device_id"] for d in params["child_device_list"]}
                self.execs.append([self.w.now, method, copy.deepcopy(params), 0])
                self.kids = [k for k in self.kids if k.id not in ids]
                return {"error_code": 0}
            k = self.kid(params["device_id"])
            if k is None:
                return {"error_code": -1}
            if k.id in self.dead:
                return {"error_code": self.dead[k.id]}
            d = params["requestData"]
            return {"error_code": 0, "result": {"responseData": k.h(d["method"], d.get("params"))}}
        return super().h(method, params)

    def handle(self, req):
        return self.h(req.get("method"), req.get("params"))

    def snap(self):
        o = super().snap()
        if self.kids is not None:
            o["kids"] = {k.id: k.snap() for k in self.kids}
        return o


@functools.cache
def child_templates():
    """category -> list of child fixtures."""
    out = {}
    for p in fixtures("smart/child"):
        d = load(p)
        out.setdefault(d["get_device_info"]["category"], []).append(p)
    return out


def template(path):
    d = load(path)
    d["get_device_info"] = {k: v for k, v in d["get_device_info"].items()}
    return d


@functools.cache
def _inline_pool():
    """category/model -> embedded child fixture."""
    out = {}
    for p in fixtures("smart"):
        for d in load(p).get("child_devices", {}).values():
            i = d["get_device_info"]
            out.setdefault((i["category"], i["model"]), d)
            out.setdefault((i["category"], None), d)
    return out


def default_kids(path):
    raw = load(path)
    out = []
    for c in raw.get("get_child_device_list", {}).get("child_device_list", []):
        d = raw.get("child_devices", {}).get(c["device_id"])
        if d is None:
            pool = _inline_pool()
            d = pool.get((c["category"], c["model"])) or pool.get((c["category"], None))
        if d is None and c["category"] in child_templates():
            cands = child_templates()[c["category"]]
            d = template(next((p for p in cands if os.path.basename(p).startswith(c["model"])), cands[0]))
        if d is None:
            continue
        d = copy.deepcopy(d)
        if "component_nego" not in d:
            for cc in raw["get_child_device_component_list"]["child_component_list"]:
                if cc["device_id"] == c["device_id"]:
                    d["component_nego"] = {"component_list": cc["component_list"]}
        out.append(d)
    return out


# ----------------------------------------------------------- SMARTCAM ---------
CAM_MISSING = {
    "getMatterSetupInfo": ("matter", {"setup_code": "00000000000", "setup_payload": "00:0000000-0000.00.000"}),
    "getSupportChildDeviceCategory": ("childQuickSetup", {"device_category_list": [{"category": "ipcamera"}, {"category": "subg.trv"}]}),
    "getScanChildDeviceList": ("childQuickSetup", {"child_device_list": [], "scan_wait_time": 55, "scan_status": "scanning"}),
}


class CamNode:
    style = "cam"
    stop_on_error = True

    def __init__(self, w, raw, name, *, did, nick, clock=None, child=False, rng=None):
        self.w, self.name, self.id, self.child = w, name, did, child
        self.rng = rng or w.rng(f"node/{did}")
        self.info = {k: v for k, v in raw.items() if k not in ("discovery_result", "getChildDeviceList", "getChildDeviceComponentList",
                                                               "child_info_from_parent")}
        self.cifp = raw.get("child_info_from_parent")
        self.components = {c["name"]: c["version"] for c in self.info["getAppComponentList"]["app_component"]["app_component_list"]}
        self.basic = self.info["getDeviceInfo"]["device_info"]["basic_info"]
        self.basic["dev_id"] = did
        self.basic["device_alias"] = nick
        if self.cifp is not None:
            self.cifp["device_id"] = did
            self.cifp["alias"] = nick
        for m, (comp, res) in CAM_MISSING.items():
            if m not in self.info and comp in self.components:
                self.info[m] = copy.deepcopy(res)
        for m in [m for m, v in self.info.items() if isinstance(v, int)]:
            del self.info[m]
        tz = self.info.get("getTimezone", {}).get("system", {}).get("basic", {}).get("zone_id", "UTC")
        self.clock = clock or Clock(w, tz)
        self.power = None
        self.fail = {}
        self.execs = []
        self.queries = []
        self.hook = {}
        self.answered = {}
        self.page = 10
        self.reboots = 0

    def live(self):
        c = self.info.get("getClockStatus")
        if c:
            st = c["system"]["clock_status"]
            st["seconds_from_1970"] = int(self.clock.utc())
            st["local_time"] = self.clock.local().strftime("%Y-%m-%d %H:%M:%S")

    def snap(self):
        o = copy.deepcopy(self.info)
        o.pop("getClockStatus", None)
        if not self.child:
            o["clock"] = round(self.clock.skew)
        return o

    def h(self, method, params, raw=None):
        if method == "multipleRequest":
            res = []
            for r in (params or {}).get("requests", []):
                a = dict(self.h(r["method"], r.get("params"), r))
                a["method"] = r["method"]
                res.append(a)
                if a["error_code"] != 0 and self.stop_on_error:
                    break
            return {"error_code": 0, "result": {"responses": res}}
        self.queries.append((self.w.now, method))
        if not method.startswith("get"):
            rec = [self.w.now, method, copy.deepcopy(params if params is not None else raw), 0]
            self.execs.append(rec)
        if self.fail.get(method):
            if not method.startswith("get"):
                rec[3] = self.fail[method]
            return {"error_code": self.fail[method]}
        if method in self.hook:
            return self.hook[method](params)
        if method == "get":
            mod = next(k for k in raw if k != "method")
            g = self.info.get("get_" + mod)
            return {**copy.deepcopy(g["get"]), "error_code": 0} if g else {"error_code": -1}
        if method.startswith("set"):
            p = params if params is not None else {k: v for k, v in raw.items() if k != "method"}
            r = self.set(method, p)
            rec[3] = r["error_code"]
            return r
        if method == "do":
            return {"error_code": 0}
        if method in ("addScanChildDeviceList", "startScanChildDevice"):
            return {"error_code": 0, "result": {}}
        if method == "getDeviceInfo" and self.cifp is not None:
            pass
        if method in self.info:
            self.live()
            self.answered[method] = (self.w.now, copy.deepcopy(self.info[method]))
            return {"error_code": 0, "result": copy.deepcopy(self.info[method])}
        return {"error_code": -1}

    def set(self, method, p):
        """{module: {section: {key: value}}} written to the matching getter."""
        getter = "g" + method[1:]
        module = next(iter(p))
        body = p[module]
        if method == "setDeviceAlias":
            self.basic["device_alias"] = body["sys"]["dev_alias"]
            if self.cifp is not None:
                self.cifp["alias"] = body["sys"]["dev_alias"]
            return {"error_code": 0}
        if method == "setTimezone" and "clock_status" in body:
            self.clock.set_utc(body["clock_status"]["seconds_from_1970"])
            return {"error_code": 0}
        section = next(iter(body))
        if not isinstance(body[section], dict):
            g = self.info.get(getter)
            if g is None or any(k not in g for k in body):
                return {"error_code": -1}
            g.update(copy.deepcopy(body))
            return {"error_code": 0}
        for section, vals in body.items():
            g = self.info.get(getter, {}).get(module, {}).get(section)
            if g is None or any(k not in g for k in vals):
                return {"error_code": -1}
        for section, vals in body.items():
            self.info[getter][module][section].update(copy.deepcopy(vals))
            if method == "setTimezone" and "zone_id" in vals:
                self.clock.tz = vals["zone_id"]
        return {"error_code": 0}


class CamModel(Hub, CamNode):
    def __init__(self, w, path, n=1, rng=None, kids=None, page=10):
        raw = load(path)
        self.path = path
        self.model_name = os.path.basename(path)[:-5]
        super().__init__(w, raw, self.model_name, did=hashlib.sha1(f"dev{n}".encode()).hexdigest().upper(), nick=f"Device {n}", rng=rng)
        self.basic["mac"] = mac_of(n).replace(":", "-")
        self.page = page
        self.kids = None
        self.missing_components = set()
        if "childControl" in self.components:
            self.kids = []
            if kids is None:
                kids = cam_kids(path)
            for j, kraw in enumerate(kids):
                self.add_kid(copy.deepcopy(kraw), f"{n}/{j}")

    def add_kid(self, kraw, tag, at=None):
        did = "8022" + hashlib.sha1(f"kid{tag}".encode()).hexdigest().upper()[:36]
        cls = CamNode if "getAppComponentList" in kraw else SmartNode
        k = cls(self.w, kraw, f"kid{tag}", did=did, nick=f"Child {tag}", clock=self.clock, child=True, rng=self.rng)
        if cls is SmartNode:
            k.dev["parent_device_id"] = self.id
        self.kids.insert(len(self.kids) if at is None else at, k)
        return k

    def page_of(self, key, full, params):
        st = ((params or {}).get("childControl") or {}).get("start_index", 0) or 0
        return {"error_code": 0, "result": {key: full[st:st + self.page], "start_index": st, "sum": len(full)}}

    def h(self, method, params, raw=None):
        if self.kids is not None and method in ("getChildDeviceList", "getChildDeviceComponentList", "controlChild", "removeChildDeviceList"):
            self.queries.append((self.w.now, method))
            if self.fail.get(method):
                return {"error_code": self.fail[method]}
            if method == "getChildDeviceList":
                for k in self.kids:
                    k.live()
                return self.listed(self.page_of("child_device_list", [copy.deepcopy(k.cifp if k.style == "cam" else k.dev)
                                                                      for k in self.kids], params))
            if method == "getChildDeviceComponentList":
                return self.page_of("child_component_list", [
                    self.comps(k, k.info["getAppComponentList"]["app_component"]["app_component_list"] if k.style == "cam"
                               else k.info["component_nego"]["component_list"]) for k in self.kids if k.id not in self.missing_components], params)
            if method == "removeChildDeviceList":
                ids = {d["device_id"] for d in params["childControl"]["child_device_list"]}
                self.execs.append([self.w.now, method, copy.deepcopy(params), 0])
                self.kids = [k for k in self.kids if k.id not in ids]
                return {"error_code": 0, "result": {}}
            c = params["childControl"]
            k = self.kid(c["device_id"])
            if k is None:
                return {"error_code": -40210}
            if k.id in self.dead:
                return {"error_code": self.dead[k.id]}
            d = c["request_data"]
            a = k.h(d["method"], d.get("params"), d) if k.style == "cam" else k.h(d["method"], d.get("params"))
            return {"error_code": 0, "result": {"response_data": a}}
        return super().h(method, params, raw)

    def handle(self, req):
        return self.h(req.get("method"), req.get("params"), req)

    def snap(self):
        o = super().snap()
        if self.kids is not None:
            o["kids"] = {k.id: k.snap() for k in self.kids}
        return o


def cam_kids(path):
    raw = load(path)
    out = []
    for c in raw.get("getChildDeviceList", {}).get("child_device_list", []):
        if c.get("category") == "camera":
            out.append(load(fixtures("smartcam/child")[0]))
        elif c.get("category") in child_templates():
            cands = child_templates()[c["category"]]
            out.append(template(next((p for p in cands if os.path.basename(p).startswith(c["model"])), cands[0])))
    return out


# ------------------------------------------------------------- devices --------
def smart_conn(path):
    """(simulated connection kind, family) of a fixture."""
    raw = load(path)
    fam = os.path.basename(os.path.dirname(path))
    dr = raw.get("discovery_result", {}).get("result")
    if fam == "iot":
        return ("klap1" if dr else "xor"), None
    if fam == "smartcam":
        return "sslaes", (dr or {}).get("device_type", "SMART.IPCAMERA")
    typ = (dr or {}).get("device_type") or raw["get_device_info"]["type"]
    m = (dr or {}).get("mgt_encrypt_schm", {})
    if typ == "SMART.TAPOROBOVAC":
        return ("klap2s" if m.get("encrypt_type") == "KLAP" else "ssl"), typ
    if m.get("encrypt_type") == "KLAP":
        return "klap2", typ
    return ("aes2" if m.get("lv") == 2 else "aes"), typ


def make_model(w, path, n=1, **kw):
    fam = os.path.basename(os.path.dirname(path))
    return {"iot": IotModel, "smart": SmartModel, "smartcam": CamModel}[fam](w, path, n, **kw)


def all_models():
    return fixtures("iot") + fixtures("smart") + fixtures("smartcam")


def put(w, path, n, ip, creds=None, kind=None, latency=(0.0005, 0.003), model=None, **kw):
    """A simulated device running a model: (model, device, config factory)."""
    from .client import default_creds, make_config
    from .device import Device

    k, fam = smart_conn(path)
    if kind and kind != k:
        k, fam = kind, None if kind == "xor" else fam
    m = model or make_model(w, path, n)
    creds = creds or default_creds(k)
    dev = Device(w, ip, m, kind=k, creds=creds, latency=list(latency), **kw)

    def cfg(creds=creds, **ckw):
        return make_config(k, ip, creds, family=fam, **ckw)
    return m, dev, cfg
