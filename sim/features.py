"""What every feature of every device family must show, from device data alone.

Independent of the library's modules: each entry reads the value a user has to
see from the data the (simulated) device reported, says which parts of the
device a command on the feature may touch, and how the feature changes at the
device itself.
"""

from __future__ import annotations

import base64
import copy
import datetime as _dt
import zoneinfo

from .models import EMETERS, _tz, b64s, iot_tz

OFF = "Off"
NOT_SET = "Not set"


class Skip(Exception):
    """No statement about this value."""


class View:
    """Data of one (child) device: as last reported, or as it is now."""

    def __init__(self, node, kd, data=None, parent=None, child=None):
        self.node, self.kd, self.data, self.parent, self.child = node, kd, data, parent, child
        self.live = data is None
        self.used = {}       # getter -> time it was reported
        if self.live and node.style != "iot":
            node.live()

    def get(self, *getter):
        """Data of a getter: (method,) or for IOT (target, cmd)."""
        n = self.node
        if n.style == "iot":
            return self.iot(*getter)
        m = getter[0]
        if m == "info":
            return self.info()
        if self.live:
            if m not in n.info:
                raise Skip(m)
            return n.info[m]
        if m not in self.data:
            raise Skip(m)
        self.used[m] = self.data[m][0]
        return self.data[m][1]

    def has(self, m):
        return m in (self.node.info if self.live else self.data)

    def info(self):
        n = self.node
        if n.style == "iot":
            s = self.iot("system", "get_sysinfo", None)
            if self.child is not None:
                return next(c for c in s["children"] if c["id"] == self.child)
            return s
        if n.style == "smart":
            if self.live:
                return n.dev
            best = max((self.data[k] for k in ("parent", "get_device_info") if k in self.data), key=lambda a: a[0])
            self.used["info"] = best[0]
            return best[1]
        if n.cifp is not None:
            if self.live:
                return n.cifp
            self.used["info"] = self.data["parent"][0]
            return self.data["parent"][1]
        d = self.get("getDeviceInfo")["device_info"]["basic_info"]
        return d

    def iot(self, target, cmd, child="own"):
        n = self.node
        c = self.child if child == "own" and (target, cmd) != ("system", "get_sysinfo") else None
        if self.live:
            return n.command(target, cmd, {}, [c] if c else None)
        k = (target, cmd, c)
        if k not in self.data:
            raise Skip(k)
        self.used[k] = self.data[k][0]
        return self.data[k][1]

    @property
    def comps(self):
        return self.node.components

    def feat(self, fid):
        return fid in self.kd.features


class F:
    """One feature: read(view); paths a command may touch; mut(node, rng)."""

    def __init__(self, read, paths=(), mut=None, want=None, val=None, check=None, dep=False, record=(), after=None):
        self.read = read
        self.paths = [tuple(p) for p in paths]
        self.record = [tuple(p) for p in record]     # siblings may be restored to the reported values
        self.mut = mut
        self.want = want or (lambda v: v)
        self.val = val                               # value generator (rng, view) -> value
        self.check = check                           # check(live view, value) -> bool
        self.dep = dep                               # command depends on reported state being current
        self.after = after
        self.tol = 0


def dig(o, path):
    for p in path:
        o = o[p]
    return o


# ------------------------------------------------------------------ SMART -----
INFO = "get_device_info"


def ik(key, conv=None, gen=None, settable=False, also=(), **kw):
    """A value of the device info."""
    c = conv or (lambda x: x)

    def mut(n, rng):
        n.dev[key] = gen(rng)
    return F(lambda v: c(v.info()[key]), paths=[(INFO, key), *also] if settable else (), mut=mut if gen else None, **kw)


def gk(getter, *path, conv=None, gen=None, settable=False, also=(), **kw):
    c = conv or (lambda x: x)

    def mut(n, rng):
        dig(n.info[getter], path[:-1])[path[-1]] = gen(rng)
    return F(lambda v: c(dig(v.get(getter), path)), paths=[(getter, *path), *also] if settable else (), mut=mut if gen else None, **kw)


def rnd(a, b):
    return lambda rng: rng.randint(a, b)


def pick(*xs):
    return lambda rng: rng.choice(xs)


flag = pick(True, False)
DYN = [(INFO, "dynamic_light_effect_enable"), (INFO, "dynamic_light_effect_id"), ("get_dynamic_light_effect_rules", "enable"),
       ("get_dynamic_light_effect_rules", "current_rule_id")]
RULEB = ("get_dynamic_light_effect_rules", "rule_list", "*", "color_status_list", "*", 0)
NOEFF = [(INFO, "lighting_effect", "enable"), *DYN]
STRIP_NAMES = None


def strip_names():
    global STRIP_NAMES
    if STRIP_NAMES is None:
        from kasa.smart.effects import EFFECT_NAMES
        STRIP_NAMES = list(EFFECT_NAMES)
    return STRIP_NAMES


def dyn_rule(v):
    """Active rule of a bulb with dynamic effects, or None."""
    i = v.info()
    if "light_effect" in v.comps and i.get("dynamic_light_effect_enable"):
        rules = v.get("get_dynamic_light_effect_rules")["rule_list"]
        return next(r for r in rules if r["id"] == i["dynamic_light_effect_id"])
    return None


def strip_effect(v):
    i = v.info()
    if "light_strip_lighting_effect" in v.comps and "lighting_effect" in i:
        return i["lighting_effect"]
    return None


def s_brightness(v):
    if (r := dyn_rule(v)) is not None:
        return r["color_status_list"][0][0]
    e = strip_effect(v)
    if e and e["enable"] and e["name"] in [OFF, *strip_names()]:
        return e["brightness"]
    return v.info()["brightness"]


def scene(r):
    name = r["scene_name"]
    if not name:
        return {"L1": "Party", "L2": "Relax"}[r["id"]]
    try:
        return base64.b64decode(name).decode()
    except ValueError:
        return name


def s_effect(v):
    e = strip_effect(v)
    if e is not None:
        if e["enable"] and e["name"] in [OFF, *strip_names()]:
            return e["name"]
        if e["enable"] and e["custom"]:
            return e["name"] or "Custom"
        return OFF
    r = dyn_rule(v)
    return scene(r) if r else OFF


def m_effect(n, rng):
    i = n.dev
    if "light_strip_lighting_effect" in n.components:
        e = i["lighting_effect"]
        e["enable"] = rng.choice([0, 1])
        e["name"] = rng.choice(strip_names())
        e["brightness"] = rng.randint(1, 100)
        return
    r = n.info["get_dynamic_light_effect_rules"]
    on = rng.random() < 0.6
    n.setter("set_dynamic_light_effect_rule_enable", {"enable": on, **({"id": rng.choice(r["rule_list"])["id"]} if on else {})})


def m_brightness(n, rng):
    n.dev["brightness"] = rng.randint(1, 100)
    if "lighting_effect" in n.dev and "light_strip_lighting_effect" in n.components:
        n.dev["lighting_effect"]["brightness"] = rng.randint(1, 100)


def m_color(n, rng):
    if rng.random() < 0.5 and "color_temp" in n.dev:
        n.setter("set_device_info", {"color_temp": rng.choice([2700, 3500, 5000, 6500])})
    else:
        n.setter("set_device_info", {"hue": rng.randint(0, 360), "saturation": rng.randint(0, 100), "color_temp": 0})


def presets(v):
    """[(name, state)] of a SMART light."""
    i = v.info()
    out = []
    states = None
    if "preset_state" in i:
        states = i["preset_state"]
    elif v.has("get_preset_rules"):
        r = v.get("get_preset_rules")
        states = r.get("states")
        if not states:
            return [(f"Brightness preset {j + 1}", {"brightness": b}) for j, b in enumerate(r.get("brightness", []))]
    for st in states or []:
        if "brightness" in st:
            out.append((f"Light preset {len(out) + 1}", st))
    return out


def s_preset(v):
    b = s_brightness(v)
    i = v.info()
    color, temp = "hue" in i and "color" in v.comps, v.feat("color_temperature")
    for name, st in presets(v):
        if st["brightness"] == b and (not temp or st.get("color_temp") == i["color_temp"]) and \
                (st.get("hue"), st.get("saturation")) == ((i.get("hue", 0), i.get("saturation", 0)) if v.feat("hsv") else (None, None)):
            return name
    return NOT_SET


def preset_reached(v, name):
    i = v.info()
    st = dict(presets(v)).get(name) if name != NOT_SET else {"brightness": 100, **({"hue": 0, "saturation": 0} if v.feat("hsv") else {})}
    return i["device_on"] and all(i[k] == x for k, x in st.items() if x is not None and k in ("brightness", "hue", "saturation", "color_temp"))


def m_preset(n, rng):
    i = n.dev
    if "preset_state" in i:
        for st in i["preset_state"]:
            if "brightness" in st and rng.random() < 0.5:
                st["brightness"] = rng.randint(1, 100)
    elif "get_preset_rules" in n.info:
        r = n.info["get_preset_rules"]
        if r.get("states"):
            for st in r["states"]:
                if "brightness" in st and rng.random() < 0.5:
                    st["brightness"] = rng.randint(1, 100)
        elif r.get("brightness"):
            r["brightness"] = [rng.randint(1, 100) for _ in r["brightness"]]


def s_state(v):
    if "temp_control" in v.comps and "frost_protection_on" in v.info():
        return v.info()["frost_protection_on"] is False
    return bool(v.info()["device_on"])


def m_state(n, rng):
    if n.power is not None:
        n.set_on(rng.random() < 0.5)
    else:
        n.dev["frost_protection_on"] = rng.random() < 0.5


def thermostat_mode(v):
    i = v.info()
    if i.get("frost_protection_on", False):
        return "off"
    st = set(i["trv_states"])
    if not st:
        return "idle"
    for s in ("off", "idle", "heating", "progress_calibration", "calibrating"):
        if s in st:
            return s
    st.discard("low_battery")
    if not st:
        raise Skip("low battery only")
    return "unknown"


def fan_on(v):
    i = v.info()
    return 0 if i["device_on"] is False else i["fan_speed_level"]


def s_power(v):
    if v.has("get_energy_usage") and (p := v.get("get_energy_usage").get("current_power")) is not None:
        return p / 1000
    if v.has("get_emeter_data") and "power_mw" in v.get("get_emeter_data"):
        return v.get("get_emeter_data")["power_mw"] / 1000
    if v.has("get_current_power"):
        return v.get("get_current_power").get("current_power")
    return None


def m_energy(n, rng):
    if "get_energy_usage" in n.info:
        e = n.info["get_energy_usage"]
        if "current_power" in e:
            e["current_power"] = rng.randint(0, 3000000)
        e["today_energy"] = rng.randint(0, 9000)
        e["month_energy"] = rng.randint(9000, 90000)
    if "get_emeter_data" in n.info:
        n.info["get_emeter_data"].update(power_mw=rng.randint(0, 3000000), voltage_mv=rng.randint(90000, 250000), current_ma=rng.randint(0, 16000))
    if "get_current_power" in n.info:
        n.info["get_current_power"]["current_power"] = rng.randint(0, 3000)


def wanted(conv):
    return conv


def tdm(x):
    return _dt.timedelta(minutes=x)


def s_time(v):
    d = v.get("get_device_time")
    return _dt.datetime.fromtimestamp(d["timestamp"], _dt.UTC)


VAC = {0: "Idle", 1: "Cleaning", 2: "Mapping", 4: "GoingHome", 5: "Charging", 6: "Charged", 7: "Paused", 8: "Undocked", 100: "Error"}
VACERR = {0: "Ok", 2: "SideBrushStuck", 3: "MainBrushStuck", 4: "WheelBlocked", 6: "Trapped", 7: "TrappedCliff", 14: "DustBinRemoved",
          15: "UnableToMove", 16: "LidarBlocked", 21: "UnableToFindDock", 22: "BatteryLow"}


def vac_error(v):
    e = v.get("getVacStatus").get("err_status")
    return VACERR.get(e[0], "UnknownInternal") if e else "Ok"


def vac_status(v):
    if vac_error(v) != "Ok":
        return "Error"
    return VAC.get(v.get("getVacStatus")["status"], "UnknownInternal")


def m_vac(n, rng):
    s = n.info["getVacStatus"]
    s["status"] = rng.choice([*VAC, 55])
    s["err_status"] = rng.choice([[], [], [0], [2], [14], [3, 4], [77]])
    n.info["getCleanInfo"].update(clean_area=rng.randint(0, 80), clean_time=rng.randint(0, 100), clean_percent=rng.randint(0, 100))
    n.info["getBatteryInfo"]["battery_percentage"] = rng.randint(1, 100)


def m_records(n, rng):
    r = n.info["getCleanRecords"]
    r["total_time"] = rng.randint(1, 10000)
    r["total_area"] = rng.randint(1, 10000)
    r["total_number"] = rng.randint(1, 900)
    r["lastest_day_record"] = [1736797545 + rng.randint(0, 10 ** 6), rng.randint(1, 90), rng.randint(1, 90), rng.random() < 0.5]


def m_consumables(n, rng):
    c = n.info["getConsumablesInfo"]
    for k in c:
        if k.endswith("_time") and rng.random() < 0.6:
            c[k] = rng.randint(0, 1700)


CONS = {"main_brush": ("roll_brush_time", 400), "side_brush": ("edge_brush_time", 200), "filter": ("filter_time", 200),
        "sensor": ("sensor_time", 30), "charging_contacts": ("charge_contact_time", 30)}


def trans(side):
    on, fade = ("gradually_on_mode", "fade_on_time") if side == "on" else ("gradually_off_mode", "fade_off_time")

    def read(v):
        i = v.info()
        if on in i:
            return i[fade] if i[on] else 0
        s = v.get("get_on_off_gradually_info")[f"{side}_state"]
        return s["duration"] if s["enable"] else 0

    def mut(n, rng):
        en, d = rng.random() < 0.6, rng.randint(1, 60)
        if on in n.dev:
            n.dev[on], n.dev[fade] = int(en), d
        elif "get_on_off_gradually_info" in n.info:
            n.info["get_on_off_gradually_info"][f"{side}_state"].update(enable=en, duration=d)
    return F(read, paths=[(INFO, on), (INFO, fade), ("get_on_off_gradually_info", f"{side}_state", "enable"),
                          ("get_on_off_gradually_info", f"{side}_state", "duration")], mut=mut,
             record=[("get_on_off_gradually_info", f"{side}_state", "duration"), (INFO, fade)])


ALARM = "get_alarm_configure"
LEVELS = ["mute", "low", "normal", "high"]


def m_led(n, rng):
    r = rng.choice(["always", "never", "night_mode"])
    n.info["get_led_info"].update(led_rule=r, led_status=r != "never")


def pp_read(v):
    p = v.get("get_protection_power")
    return p.get("protection_power", 0) if p["enabled"] else 0


def m_pp(n, rng):
    n.info["get_protection_power"].update(enabled=rng.random() < 0.5, protection_power=rng.randint(1, n.info["get_max_power"]["max_power"]))
    n.dev["power_protection_status"] = rng.choice(["normal", "overloaded"])


def m_alarm_state(n, rng):
    if "in_alarm" in n.dev:
        n.dev["in_alarm"] = rng.random() < 0.5
        n.dev["in_alarm_source"] = rng.choice(["", "sensor"])


def m_trv(n, rng):
    n.dev["trv_states"] = rng.choice([[], ["heating"], ["low_battery"], ["heating", "low_battery"], ["progress_calibration"]])


def mode_read(v):
    return dust_mode(v)


def dust_mode(v):
    s = v.get("getDustCollectionInfo")
    return OFF if s["auto_dust_collection"] is False else ["Smart", "Light", "Balanced", "Max"][s["dust_collection_mode"]]


def m_dust(n, rng):
    n.info["getDustCollectionInfo"].update(auto_dust_collection=rng.random() < 0.6, dust_collection_mode=rng.randint(0, 3))


def hsv_read(v):
    i = v.info()
    return (i.get("hue", 0), i.get("saturation", 0), i.get("brightness", 0))


def auto_off_at(v):
    i = v.info()
    if i["auto_off_status"] != "on":
        return None
    pv = v if v.has("get_device_time") else v.parent
    return s_time(pv) + _dt.timedelta(seconds=i["auto_off_remain_time"])


def m_auto_off(n, rng):
    if "auto_off_status" in n.dev:
        n.dev["auto_off_status"] = rng.choice(["on", "off"])
        n.dev["auto_off_remain_time"] = rng.randint(1, 7000)
    n.info["get_auto_off_config"].update(enable=rng.random() < 0.5, delay_min=rng.randint(1, 1000))


def ssid(v):
    s = v.info().get("ssid")
    return base64.b64decode(s).decode() if s else "No SSID"


def child_lock(v):
    if "button_and_led" in v.comps:
        return v.get("getChildLockInfo")["child_lock_status"]
    return v.info()["child_protection"]


def m_child_lock(n, rng):
    b = rng.random() < 0.5
    if "button_and_led" in n.components:
        n.info["getChildLockInfo"]["child_lock_status"] = b
    else:
        n.dev["child_protection"] = b


def batt_low(v):
    i = v.info()
    return i.get("at_low_battery", i.get("is_low"))


def m_batt(n, rng):
    i = n.dev
    for k, g in (("at_low_battery", flag), ("is_low", flag), ("battery_percentage", rnd(1, 100))):
        if k in i:
            i[k] = g(rng)


def gset(*keys):
    return keys


SMART = {
    "device_id": F(lambda v: v.info()["device_id"]),
    "state": F(s_state, paths=[(INFO, "device_on"), (INFO, "frost_protection_on")], mut=m_state),
    "rssi": ik("rssi", gen=rnd(-90, -20)),
    "signal_level": ik("signal_level", gen=rnd(0, 3)),
    "ssid": F(ssid, mut=lambda n, rng: n.dev.update(ssid=b64s(rng.choice(["home", "cafe", "x"]))) if "ssid" in n.dev else None),
    "overheated": F(lambda v: v.info()["overheat_status"] != "normal" if v.info().get("overheat_status") is not None
                    else v.info()["overheated"],
                    mut=lambda n, rng: n.dev.update(overheat_status=rng.choice(["normal", "cooldown", "overheated"]))
                    if "overheat_status" in n.dev else n.dev.update(overheated=rng.random() < 0.5)),
    "brightness": F(s_brightness, paths=[(INFO, "brightness"), (INFO, "lighting_effect", "brightness"),
                                         ("get_lighting_effect",), (INFO, "device_on"), RULEB],
                    record=[("get_dynamic_light_effect_rules", "rule_list")], mut=m_brightness, dep=("light_effect", "light_strip_lighting_effect"),
                    check=lambda v, x: not v.info()["device_on"] if x == 0 else s_brightness(v) == x),
    "color_temperature": ik("color_temp", settable=True, also=NOEFF, mut=None) if False else
    F(lambda v: v.info()["color_temp"], paths=[(INFO, "color_temp"), *NOEFF], mut=m_color),
    "hsv": F(hsv_read, paths=[(INFO, "hue"), (INFO, "saturation"), (INFO, "brightness"), (INFO, "color_temp"), *NOEFF], mut=m_color),
    "light_effect": F(s_effect, paths=[*DYN, RULEB, (INFO, "lighting_effect"), ("get_lighting_effect",)],
                      record=[("get_dynamic_light_effect_rules", "rule_list")], mut=m_effect, dep=True),
    "light_preset": F(s_preset, paths=[(INFO, "brightness"), (INFO, "device_on"), (INFO, "hue"), (INFO, "saturation"), (INFO, "color_temp"), *NOEFF],
                      check=preset_reached, mut=m_preset, dep=True),
    "smooth_transitions": gk("get_on_off_gradually_info", "enable", gen=flag, settable=True),
    "smooth_transition_on": trans("on"),
    "smooth_transition_off": trans("off"),
    "led": F(lambda v: v.get("get_led_info")["led_rule"] != "never", paths=[("get_led_info", "led_rule"), ("get_led_info", "led_status")],
             record=[("get_led_info",)], mut=m_led),
    "cloud_connection": F(lambda v: v.get("get_connect_cloud_state")["status"] == 0,
                          mut=lambda n, rng: n.info["get_connect_cloud_state"].update(status=rng.choice([0, 0, 1, 2]))
                          if "get_connect_cloud_state" in n.info else None),
    "auto_update_enabled": F(lambda v: v.get("get_auto_update_info").get("enable", False), paths=[("get_auto_update_info", "enable")],
                             record=[("get_auto_update_info",)],
                             mut=lambda n, rng: n.info["get_auto_update_info"].update(enable=rng.random() < 0.5, time=rng.randint(0, 1439))),
    "current_firmware_version": F(lambda v: v.info()["fw_ver"]),
    "matter_setup_code": gk("get_matter_setup_info", "setup_code"),
    "matter_setup_payload": gk("get_matter_setup_info", "setup_payload"),
    "homekit_setup_code": gk("get_homekit_info", "mfi_setup_code"),
    "device_time": F(s_time),
    "current_consumption": F(s_power, mut=m_energy),
    "consumption_today": F(lambda v: v.get("get_energy_usage")["today_energy"] / 1000),
    "consumption_this_month": F(lambda v: v.get("get_energy_usage")["month_energy"] / 1000),
    "current": F(lambda v: v.get("get_emeter_data")["current_ma"] / 1000),
    "voltage": F(lambda v: v.get("get_emeter_data")["voltage_mv"] / 1000),
    "overloaded": F(lambda v: v.info()["power_protection_status"] == "overloaded"),
    "power_protection_threshold": F(pp_read, paths=[("get_protection_power", "enabled"), ("get_protection_power", "protection_power")],
                                    record=[("get_protection_power",)], mut=m_pp),
    "auto_off_enabled": gk("get_auto_off_config", "enable", settable=True, record=[("get_auto_off_config",)]),
    "auto_off_minutes": gk("get_auto_off_config", "delay_min", settable=True, record=[("get_auto_off_config",)]),
    "auto_off_at": F(auto_off_at, mut=m_auto_off),
    "alarm": F(lambda v: v.info()["in_alarm"], mut=m_alarm_state),
    "alarm_source": F(lambda v: v.info()["in_alarm_source"] or None),
    "alarm_sound": F(lambda v: v.get(ALARM)["type"], paths=[(ALARM, "type")], record=[(ALARM,)],
                     mut=lambda n, rng: n.info[ALARM].update(type=rng.choice(n.info["get_support_alarm_type_list"]["alarm_type_list"]))),
    "alarm_volume": F(lambda v: v.get(ALARM)["volume"], paths=[(ALARM, "volume")], record=[(ALARM,)],
                      mut=lambda n, rng: n.info[ALARM].update(volume=rng.choice(LEVELS))),
    "alarm_volume_level": F(lambda v: LEVELS.index(v.get(ALARM)["volume"]), paths=[(ALARM, "volume")], record=[(ALARM,)]),
    "alarm_duration": F(lambda v: v.get(ALARM)["duration"], paths=[(ALARM, "duration")], record=[(ALARM,)],
                        mut=lambda n, rng: n.info[ALARM].update(duration=rng.randint(1, 600))),
    "child_lock": F(child_lock, paths=[("getChildLockInfo", "child_lock_status"), (INFO, "child_protection")], mut=m_child_lock),
    "fan_speed_level": F(fan_on, paths=[(INFO, "fan_speed_level"), (INFO, "device_on")],
                         mut=lambda n, rng: n.dev.update(fan_speed_level=rng.randint(1, 4))),
    "fan_sleep_mode": ik("fan_sleep_mode_on", gen=flag, settable=True),
    "battery_low": F(batt_low, mut=m_batt),
    "battery_level": F(lambda v: v.get("getBatteryInfo")["battery_percentage"] if "clean" in v.comps else v.info()["battery_percentage"]),
    "humidity": ik("current_humidity", gen=rnd(0, 100)),
    "humidity_warning": ik("current_humidity_exception", conv=lambda x: x != 0, gen=pick(0, 0, 5, -3)),
    "temperature": ik("current_temp", gen=lambda rng: rng.randint(-200, 400) / 10),
    "temperature_warning": F(lambda v: v.info().get("current_temp_exception", 0) != 0,
                             mut=lambda n, rng: n.dev.update(current_temp_exception=rng.choice([0, 0, 2.5, -1]))),
    "temperature_unit": ik("temp_unit", gen=pick("celsius", "fahrenheit"), settable=True),
    "target_temperature": F(lambda v: v.info()["target_temp"], paths=[(INFO, "target_temp"), (INFO, "frost_protection_on")],
                            val=lambda rng, v: rng.randint(v.info()["min_control_temp"] * 2, v.info()["max_control_temp"] * 2) / 2,
                            check=lambda v, x: v.info()["target_temp"] == x and not v.info().get("frost_protection_on", False),
                            mut=lambda n, rng: n.dev.update(target_temp=rng.randint(10, 60) / 2)),
    "temperature_offset": ik("temp_offset", gen=rnd(-10, 10), settable=True),
    "thermostat_mode": F(thermostat_mode, mut=m_trv),
    "report_interval": ik("report_interval", gen=pick(8, 16, 32)),
    "is_open": ik("open", gen=flag),
    "motion_detected": ik("detected", gen=flag),
    "water_leak": ik("water_leak_status", gen=pick("normal", "water_leak", "water_dry")),
    "water_alert": F(lambda v: v.info()["in_alarm"], mut=lambda n, rng: n.dev.update(in_alarm=rng.random() < 0.5)),
    "water_alert_timestamp": F(lambda v: _dt.datetime.fromtimestamp(v.info()["trigger_timestamp"], _dt.UTC)
                               if "trigger_timestamp" in v.info() else None),
    # vacuum
    "vacuum_status": F(vac_status, mut=m_vac),
    "vacuum_error": F(vac_error),
    "vacuum_fan_speed": F(lambda v: ["", "Quiet", "Standard", "Turbo", "Max", "Ultra"][v.get("getCleanAttr")["suction"]],
                          paths=[("getCleanAttr", "suction"), ("getCleanAttr", "type")],
                          mut=lambda n, rng: n.info["getCleanAttr"].update(suction=rng.randint(1, 5))),
    "clean_count": gk("getCleanAttr", "clean_number", gen=rnd(1, 3), settable=True, also=[("getCleanAttr", "type")]),
    "mop_waterlevel": F(lambda v: ["Disable", "Low", "Medium", "High"][int(v.get("getCleanAttr")["cistern"])],
                        paths=[("getCleanAttr", "cistern"), ("getCleanAttr", "type")], record=[("getCleanAttr",)],
                        mut=lambda n, rng: n.info["getCleanAttr"].update(cistern=rng.randint(0, 3))),
    "mop_attached": gk("getMopState", "mop_state", gen=flag),
    "carpet_boost": F(lambda v: v.get("getCarpetClean")["carpet_clean_prefer"] == "boost", paths=[("getCarpetClean", "carpet_clean_prefer")],
                      mut=lambda n, rng: n.info["getCarpetClean"].update(carpet_clean_prefer=rng.choice(["boost", "normal"]))),
    "clean_area": gk("getCleanInfo", "clean_area"),
    "clean_time": gk("getCleanInfo", "clean_time", conv=tdm),
    "clean_progress": gk("getCleanInfo", "clean_percent"),
    "dustbin_mode": F(dust_mode, paths=[("getDustCollectionInfo", "auto_dust_collection"), ("getDustCollectionInfo", "dust_collection_mode")],
                      record=[("getDustCollectionInfo",)], mut=m_dust),
    "dustbin_autocollection_enabled": gk("getDustCollectionInfo", "auto_dust_collection", settable=True, record=[("getDustCollectionInfo",)]),
    "volume": gk("getVolume", "volume", gen=rnd(0, 100), settable=True),
    "total_clean_area": F(lambda v: v.get("getCleanRecords")["total_area"], mut=m_records),
    "total_clean_time": gk("getCleanRecords", "total_time", conv=tdm),
    "total_clean_count": gk("getCleanRecords", "total_number"),
    "last_clean_area": F(lambda v: v.get("getCleanRecords")["lastest_day_record"][2]),
    "last_clean_time": F(lambda v: tdm(v.get("getCleanRecords")["lastest_day_record"][1])),
    "last_clean_timestamp": F(lambda v: _dt.datetime.fromtimestamp(v.get("getCleanRecords")["lastest_day_record"][0], _dt.UTC)),
    # not features of their own
    "x:alias": F(lambda v: base64.b64decode(v.info()["nickname"]).decode() if v.info().get("nickname") else None,
                 mut=lambda n, rng: n.dev.update(nickname=b64s(rng.choice(["Lamp", "Büro", "x y"])))),
    "x:mac": F(lambda v: str(v.info().get("mac")).replace("-", ":")),
    "x:model": F(lambda v: v.info()["model"]),
    "x:is_on": F(lambda v: bool(v.info().get("device_on"))),
    "x:rssi": F(lambda v: int(v.info()["rssi"]) if v.info().get("rssi") else None),
    "x:hw": F(lambda v: {"sw_ver": v.info().get("fw_ver"), "hw_ver": v.info().get("hw_ver"), "mac": v.info().get("mac"),
                         "type": v.info().get("type"), "hwId": v.info().get("device_id"),
                         "dev_name": base64.b64decode(v.info()["nickname"]).decode() if v.info().get("nickname") else None,
                         "oemId": v.info().get("oem_id")}),
}
for _c, (_k, _life) in CONS.items():
    SMART[f"{_c}_used"] = F(lambda v, k=_k: tdm(v.get("getConsumablesInfo")[k]), mut=m_consumables)
    SMART[f"{_c}_remaining"] = F(lambda v, k=_k, h=_life: _dt.timedelta(hours=h) - tdm(v.get("getConsumablesInfo")[k]))


# -------------------------------------------------------------------- CAM -----
def onoff(getter, module, section, inverse=False):
    def read(v):
        return (v.get(getter)[module][section]["enabled"] == "on") is not inverse

    def mut(n, rng):
        n.info[getter][module][section]["enabled"] = rng.choice(["on", "off"])
    return F(read, paths=[(getter, module, section, "enabled")], mut=mut)


SIREN = "getSirenConfig"


def conn(v):
    return v.get("getConnectionType")


def m_conn(n, rng):
    c = n.info.get("getConnectionType")
    if c and "rssiValue" in c:
        c["rssiValue"] = -rng.randint(20, 90)
        c["rssi"] = str(rng.randint(0, 4))


def m_siren(n, rng):
    n.info["getSirenStatus"]["status"] = rng.choice(["on", "off"])


def cam_time(v):
    pv = v
    return _dt.datetime.fromtimestamp(pv.get("getClockStatus")["system"]["clock_status"]["seconds_from_1970"], _dt.UTC)


def cam_state(v):
    if "lensMask" not in v.comps:
        return True
    return v.get("getLensMaskConfig")["lens_mask"]["lens_mask_info"]["enabled"] != "on"


def m_lens(n, rng):
    if "getLensMaskConfig" in n.info:
        n.info["getLensMaskConfig"]["lens_mask"]["lens_mask_info"]["enabled"] = rng.choice(["on", "off"])


def ci(n):
    return n.cifp if n.cifp is not None else n.basic


def ckey(key, conv=None, gen=None):
    c = conv or (lambda x: x)

    def mut(n, rng):
        ci(n)[key] = gen(rng)
    return F(lambda v: c(v.info()[key]), mut=mut if gen else None)


CAM = {
    "device_id": F(lambda v: v.info().get("device_id", v.info().get("dev_id"))),
    "state": F(cam_state, paths=[("getLensMaskConfig", "lens_mask", "lens_mask_info", "enabled")], mut=m_lens),
    "rssi": F(lambda v: conn(v).get("rssiValue"), mut=m_conn),
    "signal_level": F(lambda v: conn(v).get("rssi")),
    "led": onoff("getLedStatus", "led", "config"),
    "motion_detection": onoff("getDetectionConfig", "motion_detection", "motion_det"),
    "person_detection": onoff("getPersonDetectionConfig", "people_detection", "detection"),
    "pet_detection": onoff("getPetDetectionConfig", "pet_detection", "detection"),
    "tamper_detection": onoff("getTamperDetectionConfig", "tamper_detection", "tamper_det"),
    "baby_cry_detection": onoff("getBCDConfig", "sound_detection", "bcd"),
    "alarm": F(lambda v: v.get("getSirenStatus")["status"] != "off", mut=m_siren),
    "alarm_sound": F(lambda v: v.get(SIREN)["siren_type"], paths=[(SIREN, "siren_type")],
                     mut=lambda n, rng: n.info[SIREN].update(siren_type=rng.choice(n.info["getSirenTypeList"]["siren_type_list"]))),
    "alarm_volume": F(lambda v: int(v.get(SIREN)["volume"]), paths=[(SIREN, "volume")],
                      mut=lambda n, rng: n.info[SIREN].update(volume=str(rng.randint(0, 10)))),
    "alarm_duration": F(lambda v: v.get(SIREN)["duration"], paths=[(SIREN, "duration")],
                        mut=lambda n, rng: n.info[SIREN].update(duration=rng.randint(0, 6000))),
    "device_time": F(cam_time),
    "matter_setup_code": F(lambda v: v.get("getMatterSetupInfo")["setup_code"]),
    "matter_setup_payload": F(lambda v: v.get("getMatterSetupInfo")["setup_payload"]),
    "battery_low": ckey("low_battery", gen=flag),
    "battery_level": ckey("battery_percent", gen=rnd(1, 100)),
    "battery_temperature": ckey("battery_temperature", gen=rnd(-10, 50)),
    "battery_voltage": ckey("battery_voltage", conv=lambda x: x / 1000, gen=rnd(3000, 4300)),
    "battery_charging": ckey("battery_charging", conv=lambda x: x != "NO", gen=pick("NO", "AC", "SOLAR")),
    "x:alias": F(lambda v: v.info().get("alias", v.info().get("device_alias")),
                 mut=lambda n, rng: n.set("setDeviceAlias", {"system": {"sys": {"dev_alias": rng.choice(["Porch", "Küche"])}}})),
    "x:model": F(lambda v: v.info()["device_model"]),
    "x:is_on": F(cam_state),
}


# -------------------------------------------------------------------- IOT -----
def lstate(v):
    st = v.info()["light_state"]
    return st if st["on_off"] else {**st["dft_on_state"], "on_off": 0}


def ieffect(v):
    return v.info().get("lighting_effect_state") if v.child is None else None


def i_brightness(v):
    if not v.node.bulb:
        return v.info()["brightness"]
    e = ieffect(v)
    if e and e["enable"]:
        return e["brightness"]
    return lstate(v)["brightness"]


def i_on(v):
    if v.node.bulb:
        return bool(v.info()["light_state"]["on_off"])
    if v.child is not None:
        return bool(v.info()["state"])
    if v.node.kids:
        return any(c["state"] for c in v.info()["children"])
    return bool(v.info()["relay_state"])


def m_ion(n, rng):
    if n.kids:
        for c in n.kids:
            if rng.random() < 0.5:
                n.set_on(rng.random() < 0.5, c)
    else:
        n.set_on(rng.random() < 0.5)


LIGHT = [("sys", "light"), ("power",), ("sys", "lighting_effect_state", "enable"), ("sys", "lighting_effect_state", "brightness"), ("sys", "relay_state")]


def m_ibright(n, rng):
    b = rng.randint(1, 100)
    if n.bulb:
        n.light({"brightness": b})
    else:
        n.sys["brightness"] = b


def m_icolor(n, rng):
    if rng.random() < 0.5 and n.sys.get("is_variable_color_temp"):
        n.light({"color_temp": rng.choice([2700, 3000, 4000, 5000])})
    elif n.sys.get("is_color"):
        n.light({"hue": rng.randint(0, 360), "saturation": rng.randint(0, 100), "color_temp": 0})


def i_effect(v):
    e = ieffect(v)
    return (e["name"] or "Custom") if e["enable"] else OFF


def m_ieffect(n, rng):
    from kasa.iot.effects import EFFECT_NAMES_V1
    e = n.sys["lighting_effect_state"]
    e["enable"] = rng.choice([0, 1])
    e["name"] = rng.choice([*EFFECT_NAMES_V1, ""])
    e["brightness"] = rng.randint(1, 100)


def ipresets(v):
    return [(f"Light preset {j + 1}", st) for j, st in enumerate(v.info()["preferred_state"]) if "id" not in st]


def i_preset(v):
    b, s = i_brightness(v), lstate(v)
    i = v.info()
    for name, st in ipresets(v):
        if st["brightness"] == b and (not i["is_variable_color_temp"] or st.get("color_temp") == s["color_temp"]) and \
                (not i["is_color"] or (st.get("hue"), st.get("saturation")) == (s["hue"], s["saturation"])):
            return name
    return NOT_SET


def i_preset_reached(v, name):
    s = lstate(v)
    st = dict(ipresets(v)).get(name) if name != NOT_SET else {"brightness": 100, **({"hue": 0, "saturation": 0} if v.info()["is_color"] else {})}
    return s["on_off"] and all(s[k] == x for k, x in st.items() if x is not None and k in ("brightness", "hue", "saturation", "color_temp") and k in s)


def m_ipreset(n, rng):
    for st in n.sys["preferred_state"]:
        if rng.random() < 0.5 and "id" not in st:
            st["brightness"] = rng.randint(1, 100)


def ihsv(v):
    s = lstate(v)
    return (s["hue"], s["saturation"], i_brightness(v))


def emeter(v):
    t = EMETERS[1] if v.node.bulb else EMETERS[0]
    return v.get(t, "get_realtime")


def unit(rt, key, small, factor=1000):
    if key in rt:
        return rt[key]
    return rt[small] / factor if small in rt else None


def kids_of(v):
    return [View(v.node, v.kd, v.data, v, c["id"]) for c in v.info()["children"]]


def meter(key, small, total=sum, tol=0):
    def read(v):
        if v.node.kids and v.child is None:
            return total([unit(emeter(k), key, small) or 0 for k in kids_of(v)])
        return unit(emeter(v), key, small)
    f = F(read, mut=m_imeter)
    f.tol = tol
    return f


def m_imeter(n, rng):
    for o in (n.kids.values() if n.kids else [n.main]):
        for k in o.realtime:
            if isinstance(o.realtime[k], int):
                o.realtime[k] = rng.randint(0, 250000)
            elif isinstance(o.realtime[k], float):
                o.realtime[k] = round(rng.random() * 240, 3)


def volts(vals):
    return int(sum(vals) * 1000 / len(vals)) / 1000


def ikey(key, conv=None, gen=None, settable=False):
    c = conv or (lambda x: x)

    def mut(n, rng):
        n.sys[key] = gen(rng)
    return F(lambda v: c(v.info()[key]), paths=[("sys", key)] if settable else (), mut=mut if gen else None)


PIR, LAS, DIM = "smartlife.iot.PIR", "smartlife.iot.LAS", "smartlife.iot.dimmer"
RANGES = ["Far", "Mid", "Near", "Custom"]


def pir(fn):
    def read(v):
        c = v.get(PIR, "get_config")
        lo, hi = int(c["min_adc"]), int(c["max_adc"])
        mid = abs(hi - lo) // 2
        adc = v.get(PIR, "get_adc_value")["value"]
        th = int(c["array"][c["trigger_index"]])
        val = mid - adc
        pct = val / ((mid - lo) if val < 0 else (hi - mid)) * 100
        return fn(dict(c=c, lo=lo, hi=hi, mid=mid, adc=adc, th=th, val=val, pct=pct))
    return read


def m_pir(n, rng):
    n.pir["enable"] = rng.choice([0, 1])
    n.pir["trigger_index"] = rng.randint(0, 3)
    n.pir["array"][3] = rng.randint(0, 100)
    n.pir_adc = rng.randint(n.pir["min_adc"], n.pir["max_adc"])


def dimkey(key, ms=True):
    return F(lambda v: _dt.timedelta(milliseconds=v.get(DIM, "get_dimmer_parameters")[key]) if ms else v.get(DIM, "get_dimmer_parameters")[key],
             paths=[("dimmer", key)], want=(lambda x: _dt.timedelta(milliseconds=x)) if ms else None,
             mut=lambda n, rng: n.dimmer.update({key: rng.randint(1, 50)}))


def i_cloud(v):
    return bool(v.get("smartlife.iot.common.cloud" if v.node.bulb else "cnCloud", "get_info")["cld_connection"])


def m_icloud(n, rng):
    n.cloud["cld_connection"] = n.cloud["binded"] = rng.choice([0, 1])


def rules_of(kind):
    def read(v):
        t = kind
        if v.node.bulb:
            t = {"schedule": "smartlife.iot.common.schedule", "anti_theft": "smartlife.iot.common.anti_theft"}.get(kind, kind)
        return [r["id"] for r in v.get(t, "get_rules")["rule_list"]]

    def mut(n, rng):
        for o in (n.kids.values() if n.kids else [n.main]):
            for t in o.rules:
                if kind in t and rng.random() < 0.6:
                    o.rules[t]["get_rules"]["rule_list"] = [mkrule(rng) for _ in range(rng.randint(0, 3))]
    return F(read, mut=mut)


def mkrule(rng):
    return {"id": "".join(rng.choice("0123456789ABCDEF") for _ in range(8)), "name": "rule", "enable": 1, "wday": [1, 0, 0, 0, 0, 0, 1], "repeat": 1,
            "sact": rng.choice([0, 1]), "stime_opt": 0, "smin": rng.randint(0, 1439), "eact": -1, "etime_opt": -1, "emin": 0}


def i_time(v):
    t = "smartlife.iot.common.timesetting" if v.node.bulb else "time"
    r = v.get(t, "get_time")
    z = v.get(t, "get_timezone")["index"]
    return _dt.datetime(r["year"], r["month"], r["mday"], r["hour"], r["min"], r["sec"], tzinfo=_tz(iot_tz(z)))


def i_alias(v):
    return v.info()["alias"]


def m_ialias(n, rng):
    n.sys["alias"] = rng.choice(["Lamp", "Büro", "x"])
    for c in n.sys.get("children", []):
        if rng.random() < 0.5:
            c["alias"] = "Outlet " + rng.choice("abcdef")


STATE = [("power",), ("sys", "relay_state"), ("sys", "light")]
ALLKIDS = [("kids", "*", "on"), ("sys", "children", "*", "state")]      # a strip switches all its outlets
IOT = {
    "state": F(i_on, paths=[*STATE, *ALLKIDS], mut=m_ion),
    "brightness": F(i_brightness, paths=[*LIGHT, ("sys", "brightness")], mut=m_ibright,
                    check=lambda v, x: not i_on(v) if x == 0 else i_brightness(v) == x and i_on(v), dep=True),
    "color_temperature": F(lambda v: lstate(v)["color_temp"], paths=LIGHT, mut=m_icolor),
    "hsv": F(ihsv, paths=LIGHT, mut=m_icolor),
    "light_effect": F(i_effect, paths=[("sys", "lighting_effect_state")], mut=m_ieffect),
    "light_preset": F(i_preset, paths=LIGHT, check=i_preset_reached, mut=m_ipreset, dep=True),
    "rssi": ikey("rssi", gen=rnd(-90, -20)),
    "led": F(lambda v: not v.info()["led_off"], paths=[("sys", "led_off")], mut=lambda n, rng: n.sys.update(led_off=rng.choice([0, 1]))),
    "cloud_connection": F(i_cloud, mut=m_icloud),
    "ambient_light": F(lambda v: int(v.get(LAS, "get_current_brt")["value"])),
    "ambient_light_enabled": F(lambda v: bool(v.get(LAS, "get_config")["devs"][0]["enable"]), paths=[("las", "devs", 0, "enable")],
                               mut=lambda n, rng: n.las["devs"][0].update(enable=rng.choice([0, 1]))),
    "current_consumption": meter("power", "power_mw"),
    "consumption_total": meter("total", "total_wh"),
    "current": meter("current", "current_ma"),
    "voltage": meter("voltage", "voltage_mv", total=volts, tol=0.0011),
    "pir_enabled": F(pir(lambda p: bool(p["c"]["enable"])), paths=[("pir", "enable")], mut=m_pir),
    "pir_range": F(pir(lambda p: RANGES[p["c"]["trigger_index"]]), paths=[("pir", "trigger_index")]),
    "pir_threshold": F(pir(lambda p: p["th"]), paths=[("pir", "trigger_index"), ("pir", "array", 3)]),
    "pir_triggered": F(pir(lambda p: bool(p["c"]["enable"]) and abs(p["pct"]) > 100 - p["th"])),
    "pir_value": F(pir(lambda p: p["val"])),
    "pir_adc_value": F(pir(lambda p: p["adc"])),
    "pir_adc_min": F(pir(lambda p: p["lo"])),
    "pir_adc_mid": F(pir(lambda p: p["mid"])),
    "pir_adc_max": F(pir(lambda p: p["hi"])),
    "pir_percent": F(pir(lambda p: p["pct"])),
    "dimmer_fade_on_time": dimkey("fadeOnTime"),
    "dimmer_fade_off_time": dimkey("fadeOffTime"),
    "dimmer_gentle_on_time": dimkey("gentleOnTime"),
    "dimmer_gentle_off_time": dimkey("gentleOffTime"),
    "dimmer_ramp_rate": dimkey("rampRate", ms=False),
    "dimmer_threshold_min": dimkey("minThreshold", ms=False),
    "x:alias": F(i_alias, mut=m_ialias),
    "x:is_on": F(i_on),
    "x:model": F(lambda v: v.info()["model"].partition("(")[0] if v.child is None else "Socket for " + v.iot("system", "get_sysinfo", None)["model"]),
    "x:time": F(i_time),
    "x:rules:schedule": rules_of("schedule"),
    "x:rules:anti_theft": rules_of("anti_theft"),
    "x:rules:countdown": rules_of("countdown"),
}
TABLE = {"iot": IOT, "smart": SMART, "cam": CAM}
INTERVAL = {"get_connect_cloud_state": 60, "get_trigger_logs": 3600, "get_on_off_gradually_info": 60, "get_auto_update_info": 86400,
            "get_led_info": 3600, "get_support_child_device_category": 86400, "getSupportChildDeviceCategory": 86400, "get_preset_rules": 60,
            "get_dynamic_light_effect_rules": 86400}


def x_value(kd, fid):
    """Value of a pseudo feature of the library's device object."""
    from kasa import Module

    if fid == "x:alias":
        return kd.alias
    if fid == "x:mac":
        return kd.mac
    if fid == "x:model":
        return kd.model
    if fid == "x:is_on":
        return kd.is_on
    if fid == "x:rssi":
        return kd.rssi
    if fid == "x:hw":
        return kd.hw_info
    if fid == "x:time":
        return kd.time
    if fid.startswith("x:rules:"):
        mod = {"schedule": Module.IotSchedule, "anti_theft": Module.IotAntitheft, "countdown": Module.IotCountdown}[fid[8:]]
        m = kd.modules.get(mod)
        if m is None or "err_code" in m.data:
            raise Skip(fid)
        return [r.id for r in m.rules]
    raise Skip(fid)


def same(a, b, tol=0):
    """Whether a shown value equals the expected one."""
    import enum

    if isinstance(a, _dt.datetime) and isinstance(b, _dt.datetime):
        return a.timestamp() == b.timestamp()
    if isinstance(a, enum.Enum) and isinstance(b, str) and not isinstance(a, str):
        return b in (a.name, a.value)
    if isinstance(a, enum.Enum):
        a = a.value if not isinstance(b, str) or a.value == b else a.name
    if isinstance(a, bool) != isinstance(b, bool) and not (isinstance(a, int) and isinstance(b, int)):
        return False
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None:
            return a is b
        return abs(a - b) <= tol + 1e-9 * max(abs(a), abs(b), 1)
    if isinstance(b, tuple) and isinstance(a, tuple):
        return tuple(a) == b
    return a == b


def applicable(kd, node):
    """Feature ids of the table the library's object shows."""
    t = TABLE[node.style]
    ids = [f for f in kd.features if f in t]
    ids += [f for f in t if f.startswith("x:")]
    return ids


def snapshot(kd):
    """All values the object shows now."""
    out = {}
    for fid, f in kd.features.items():
        if f.type.name == "Action":
            continue
        try:
            out[fid] = copy.deepcopy(f.value)
        except Exception as ex:  # noqa: BLE001
            out[fid] = f"{type(ex).__name__}: {ex}"
    return out
