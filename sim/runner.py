"""Runs plans in forked children, searches seeds in parallel, minimises, replays."""

from __future__ import annotations

import collections
import copy
import importlib
import json
import os
import random
import re
import resource
import select
import signal
import subprocess
import sys
import time as _t

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = 8
HASHSEEDS = 4
RUN_WALL = 40.0


def load(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def make_plan(mod, base_seed, i):
    rng = random.Random(f"{mod.ID}/{base_seed}/{i}")
    plan = mod.gen(rng, i)
    plan.setdefault("seed", f"{base_seed}.{i}")
    plan["hashseed"] = (i % NWORK) % HASHSEEDS
    return plan


# --- one run, inside a forked child ---------------------------------------
def run_inline(mod, plan, trace=False):
    from . import boot
    from .world import World, run_world

    w = World(plan["seed"], max_steps=plan.get("max_steps", getattr(mod, "MAX_STEPS", 400_000)),
              wall0=plan.get("wall0"))
    w.stats = collections.Counter()
    w.nontrivial = False
    err = None
    try:
        run_world(w, lambda world: mod.run(world, plan))
    except BaseException as ex:  # noqa: BLE001
        import traceback
        err = "".join(traceback.format_exception(ex))[-3000:]
        if w.violations or escaped_from_code(ex):
            w.violations.append(("exception", f"unexpected {type(ex).__name__} out of the code under test: {str(ex)[:300]}\n"
                                 + "".join(traceback.format_exception(ex))[-1500:]))
    finally:
        boot.CUR.world = None
    if w.violations and err and "SimBug" not in err:
        err = None
    res = {"violations": w.violations[:5], "error": err, "digest": w.digest(), "shape": w.shape(),
           "faults": w.faults, "steps": w.steps, "simtime": round(w.now - w.t0, 3),
           "stats": dict(w.stats), "nontrivial": bool(w.nontrivial or w.faults),
           "events": len(w.events)}
    if trace:
        res["trace"] = [[t, s, k, kw] for t, s, k, kw in w.events]
    return res


def escaped_from_code(ex):
    """True when the exception was raised in (or below) the code under test, not in the harness."""
    from . import boot
    if isinstance(ex, BaseExceptionGroup):
        return any(escaped_from_code(e) for e in ex.exceptions)
    if type(ex).__name__ == "SimBug":
        return False
    deepest = None
    tb = ex.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(HERE + "/"):
            deepest = "harness"
        elif fn.startswith(boot.REPO + "/"):
            deepest = "code"
        tb = tb.tb_next
    return deepest == "code"


def run_forked(mod, plan, trace=False, wall=RUN_WALL):
    r, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            devnull = os.open("/dev/null", os.O_RDWR)
            os.dup2(devnull, 0)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            res = run_inline(mod, plan, trace)
            data = json.dumps(res, default=repr).encode()
            while data:
                n = os.write(wfd, data)
                data = data[n:]
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    end = _t_real() + wall
    hung = False
    while True:
        left = end - _t_real()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hung = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    base = {"violations": [], "error": None, "digest": "", "shape": "", "faults": {}, "steps": 0,
            "simtime": 0, "stats": {}, "nontrivial": False, "events": 0}
    if hung:
        base["violations"] = [("hang", f"the code under test spins without ever yielding (> {wall:.0f} s of real time in one run)")]
        base["hang"] = True
        return base
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        base["error"] = "run child died without a result"
        return base


def _t_real():
    from . import boot
    return boot.real_monotonic()


# --- worker process ----------------------------------------------------------
def worker_main(args):
    pid, base_seed, wid, total, deadline = args[0], int(args[1]), int(args[2]), int(args[3]), float(args[4])
    from . import boot
    boot.boot()
    mod = load(pid)
    prep = getattr(mod, "prepare", None)
    if prep:
        prep()
    import gc
    gc.collect()
    gc.freeze()
    out = sys.stdout
    for i in range(wid, total, NWORK):
        if boot.real_time() > deadline:
            break
        plan = make_plan(mod, base_seed, i)
        res = run_forked(mod, plan)
        if res.get("hang"):
            res = run_forked(mod, plan, wall=2 * RUN_WALL)
        res["i"] = i
        if i < 3:
            res["plan"] = plan
        out.write(json.dumps(res) + "\n")
        out.flush()
    return 0


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def match_known(known, v):
    for k in known:
        if k["class"] == v[0] and re.search(k["match"], v[1]):
            return k
    return None


def check_main(pid):
    from . import boot
    t0 = boot.real_time()
    mod = load(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = int(os.environ.get("VERIF_RUNS") or (mod.QUICK if tier != "thorough" else getattr(mod, "THOROUGH", mod.QUICK * 25)))
    cap = float(os.environ.get("VERIF_WALL") or (330.0 if tier != "thorough" else 3000.0))
    deadline = t0 + cap
    known = known_findings(pid)
    procs = []
    for wid in range(NWORK):
        env = dict(os.environ, PYTHONHASHSEED=str(wid % HASHSEEDS))
        procs.append(subprocess.Popen(
            [sys.executable, os.path.join(HERE, "check.py"), "worker", pid, str(seed), str(wid), str(total), str(deadline)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE if not os.environ.get("VERIF_DEBUG") else None,
            env=env, cwd=HERE))
    agg = Agg()
    bufs = {p.stdout.fileno(): (p, b"") for p in procs}
    bad = []
    errors = []
    knownhits = collections.Counter()
    stop = False
    keep = bool(os.environ.get("VERIF_KEEP"))   # development aid: survey all violations
    while bufs and not stop:
        left = deadline + 100 - boot.real_time()
        if left <= 0:
            break
        rl, _, _ = select.select(list(bufs), [], [], min(left, 5))
        for fd in rl:
            p, buf = bufs[fd]
            d = os.read(fd, 1 << 16)
            if not d:
                del bufs[fd]
                continue
            buf += d
            *lines, buf = buf.split(b"\n")
            bufs[fd] = (p, buf)
            for ln in lines:
                res = json.loads(ln)
                agg.add(res)
                if res["error"]:
                    errors.append(res)
                    if len(errors) >= 5 and not keep:
                        stop = True
                newv = None
                for v in res["violations"]:
                    k = match_known(known, v)
                    if k:
                        knownhits[k["what"]] += 1
                    elif newv is None:
                        newv = v
                if newv:
                    bad.append((res["i"], newv))
                    stop = not keep
    # let the other workers' in-flight results decide the lowest failing index
    for p in procs:
        if p.poll() is None and (stop or bufs):
            p.kill()
    werr = ""
    for p in procs:
        p.wait()
        if p.stderr:
            e = p.stderr.read().decode(errors="replace")
            if e.strip() and not stop:
                werr = e[-2000:]
    wall = boot.real_time() - t0
    status = 0
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']} (seen in {knownhits[k['what']]} runs)")
    replay = None
    if keep:
        groups = collections.defaultdict(list)
        for i, v in sorted(bad):
            groups[(v[0], re.sub(r"[0-9]+", "#", v[1])[:int(os.environ["VERIF_KEEP"])])].append((i, v))
        for g, vs in sorted(groups.items(), key=lambda x: -len(x[1])):
            print(f"{len(vs):5} x {g[0]} | run {vs[0][0]} | {vs[0][1][1][:400]}")
    if keep and errors:
        print(f"{len(errors)} HARNESS ERRORS, first in run {errors[0]['i']}:\n{errors[0]['error']}")
    if bad:
        bad.sort()
        i, v = bad[0]
        plan = make_plan(mod, seed, i)
        replay = report_violation(pid, mod, plan, v, i)
        status = 1
    elif errors:
        print(f"HARNESS ERROR in run {errors[0]['i']}:\n{errors[0]['error']}")
        status = 2
    elif agg.n < max(8, total // 20):
        print(f"HARNESS ERROR: only {agg.n} of {total} runs finished in time\n{werr}")
        status = 2
    write_evidence(pid, mod, tier, seed, agg, wall, len(bad), total)
    print(f"{pid}: {agg.n} runs ({agg.nontriv} non-trivial, {len(agg.shapes)} distinct histories), "
          f"{agg.simtime:.0f} s simulated, {sum(agg.faults.values())} faults, {wall:.1f} s wall, "
          f"{agg.n / max(wall, .001) * 3600:.0f} runs/h -> {'VIOLATED' if status == 1 else 'ok' if status == 0 else 'ERROR'}")
    if os.environ.get("VERIF_STATS"):
        print(json.dumps({"stats": dict(agg.stats), "faults": dict(agg.faults)}, indent=1, sort_keys=True))
    return status


class Agg:
    def __init__(self):
        self.n = 0
        self.nontriv = 0
        self.shapes = set()
        self.ntshapes = set()
        self.faults = collections.Counter()
        self.stats = collections.Counter()
        self.simtime = 0.0
        self.steps = 0
        self.samples = []
        self.runs_with_faults = 0

    def add(self, r):
        self.n += 1
        self.faults.update(r["faults"])
        self.stats.update(r["stats"])
        self.simtime += r["simtime"]
        self.steps += r["steps"]
        self.shapes.add(r["shape"])
        self.runs_with_faults += bool(r["faults"])
        if r["nontrivial"]:
            self.nontriv += 1
            self.ntshapes.add(r["shape"])
        if r.get("plan") is not None and len(self.samples) < 3:
            self.samples.append({"i": r["i"], "plan": r["plan"], "steps": r["steps"], "simtime": r["simtime"]})


REAL = ("kasa (all of /repo/kasa: protocols, transports, devices, modules, discovery, CLI where used), "
        "aiohttp client incl. connector, pool, cookie jar and timeouts, asyncio streams, timeouts, locks and tasks, "
        "cryptography ciphers, orjson, mashumaro")
STUB = ("event loop selector and clock (virtual time), TCP and UDP sockets (simulated network), TLS record layer "
        "(handshake delay and failures only), DNS, thread pool (inline, delayed), os.urandom (seeded), RSA key generation "
        "(committed key pool), devices (independent byte-level protocol servers with application models)")


def write_evidence(pid, mod, tier, seed, agg, wall, nviol, total):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg.n,
            "distinct_nontrivial": len(agg.ntshapes),
            "rule": getattr(mod, "RULE", "") + " A run counts as non-trivial when at least one fault was injected or the "
                    "check's own interleaving condition occurred; two runs are distinct when the hash of their ordered "
                    "event history (requests, connections, executions, faults, outcomes; without times, random bytes and "
                    "tokens) differs.",
            "samples": agg.samples,
            "planned_runs": total,
            "runs_per_hour": round(agg.n / max(wall, 0.001) * 3600),
            "simulated_seconds": round(agg.simtime, 1),
            "scheduler_steps": agg.steps,
            "runs_with_faults": agg.runs_with_faults,
            "faults_injected": dict(sorted(agg.faults.items())),
            "observations": dict(sorted(agg.stats.items())),
            "distinct_histories": len(agg.shapes),
            "real_components": REAL,
            "stubbed_components": STUB,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "the simulated network and devices behave like real ones in the respects DESIGN.md lists",
            "CPU time is zero in virtual time; callbacks run in asyncio's FIFO order, timers due together in seeded order"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


def replay_dir():
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    return d


def report_violation(pid, mod, plan, v, i):
    path = os.path.join(replay_dir(), f"{pid}-{plan['seed']}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "plan": plan, "violation": list(v), "index": i}, f, indent=1)
    env = dict(os.environ, PYTHONHASHSEED=str(plan["hashseed"]))
    try:
        subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "minimise", pid, path],
                       env=env, cwd=HERE, timeout=150, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        pass
    print(f"violation class: {v[0]}\n  {v[1][:1500]}")
    d = json.load(open(path))
    if d.get("minimised"):
        print(f"  minimised: {d['minimised']}; message now: {d['violation'][1][:600]}")
    print(f"  replay with: python3 check.py replay {path}")
    print(f"VIOLATION property={pid} replay={path}")
    return path


# --- minimiser ------------------------------------------------------------------
def minimise_main(pid, path):
    from . import boot
    boot.boot()
    mod = load(pid)
    if getattr(mod, "prepare", None):
        mod.prepare()
    d = json.load(open(path))
    plan = d["plan"]
    cls = d["violation"][0]
    known = known_findings(pid)
    end = boot.real_time() + 120
    tries = 0

    def fails(p):
        nonlocal tries
        if boot.real_time() > end:
            return None
        tries += 1
        r = run_forked(mod, p)
        for v in r["violations"]:
            if v[0] == cls and not match_known(known, v):
                return r
        return None

    before = len(json.dumps(plan))
    if cls != "hang":
        changed = True
        while changed and boot.real_time() < end:
            changed = False
            for getter in list_slots(plan):
                cur = getter(plan)
                n = len(cur)
                size = max(1, n // 2)
                while size >= 1 and n > 0:
                    k = 0
                    while k < len(getter(plan)):
                        cand = copy.deepcopy(plan)
                        lst = getter(cand)
                        del lst[k:k + size]
                        if fails(cand):
                            plan = cand
                            changed = True
                        else:
                            k += size
                        if boot.real_time() > end:
                            break
                    size //= 2
        for key in getattr(mod, "SIMPLIFY", []):
            for val in key[1]:
                cand = copy.deepcopy(plan)
                if key[0] in cand and cand[key[0]] != val:
                    cand[key[0]] = val
                    if fails(cand):
                        plan = cand
                        break
    r = run_forked(mod, plan, trace=True, wall=2 * RUN_WALL)
    vs = [v for v in r["violations"] if v[0] == cls]
    if vs:
        d["plan"] = plan
        d["violation"] = vs[0]
        d["digest"] = r["digest"]
        d["faults"] = r["faults"]
        d["minimised"] = f"{before} -> {len(json.dumps(plan))} bytes of plan in {tries} tries"
        d["trace"] = r.get("trace", [])[-400:]
        with open(path, "w") as f:
            json.dump(d, f, indent=1, default=repr)
    return 0


def list_slots(plan):
    """Every list (of dicts or lists) in the plan, by path, outermost first."""
    out = []

    def walk(o, path):
        if isinstance(o, dict):
            for k, v in o.items():
                if k.startswith("_") or k in ("fixed", "latency"):
                    continue
                walk(v, path + (k,))
        elif isinstance(o, list) and o and isinstance(o[0], dict | list):
            if not (path and str(path[-1]).startswith("_")):
                out.append(path)
            for n, v in enumerate(o):
                walk(v, path + (n,))

    walk(plan, ())
    out.sort(key=len)

    def mk(path):
        def get(p):
            for k in path:
                try:
                    p = p[k]
                except (KeyError, IndexError):
                    return []
            return p if isinstance(p, list) else []
        return get

    return [mk(p) for p in out]


# --- replay ---------------------------------------------------------------------
def replay_main(path, verbose=True):
    from . import boot
    boot.boot()
    d = json.load(open(path))
    mod = load(d["property"])
    if getattr(mod, "prepare", None):
        mod.prepare()
    r = run_forked(mod, d["plan"], trace=True, wall=2 * RUN_WALL)
    if verbose:
        for t, s, k, kw in r.get("trace", []):
            print(f"{t - 1000:12.6f} #{s:<6} {k:10} {json.dumps(kw, default=repr)[:240]}")
    same = any(v[0] == d["violation"][0] for v in r["violations"])
    exact = r["digest"] == d.get("digest")
    for v in r["violations"]:
        print(f"violation {v[0]}: {v[1]}")
    if r["error"]:
        print(r["error"])
    print(f"reproduced: {same}; identical history (digest): {exact}")
    if same:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def one_main(pid, i, flags):
    from . import boot
    boot.boot()
    mod = load(pid)
    if getattr(mod, "prepare", None):
        mod.prepare()
    plan = make_plan(mod, int(os.environ.get("VERIF_SEED", "1")), i)
    for f in flags:          # key=JSON overrides
        if "=" in f:
            plan[f.split("=", 1)[0]] = json.loads(f.split("=", 1)[1])
    print(json.dumps(plan, indent=None)[:6000])
    if "-i" in flags:
        if "-v" in flags:
            import logging
            logging.basicConfig(level=logging.DEBUG)
        r = run_inline(mod, plan, trace=True)
    else:
        r = run_forked(mod, plan, trace=True)
    for t, s, k, kw in r.get("trace", []):
        print(f"{t - 1000:12.6f} #{s:<6} {k:10} {json.dumps(kw, default=repr)[:300]}")
    for v in r["violations"]:
        print("VIOL", v[0], v[1])
    if r["error"]:
        print(r["error"])
    print({k: r[k] for k in ("steps", "simtime", "faults", "stats", "nontrivial", "digest")})
    return 0


def selftest_main(pids):
    """Each plan twice, in separate processes: histories must be identical."""
    from . import boot
    boot.boot()
    bad = 0
    if not pids:
        pids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if re.match(r"c\d\d\.py$", f))
    for pid in pids:
        mod = load(pid)
        if getattr(mod, "prepare", None):
            mod.prepare()
        n = int(os.environ.get("VERIF_RUNS", "24"))
        diff = 0
        for i in range(n):
            plan = make_plan(mod, 77, i)
            a = run_forked(mod, plan)
            b = run_forked(mod, plan)
            if a["digest"] != b["digest"] or a["error"]:
                diff += 1
                print(pid, "run", i, "differs", (a["error"] or "")[-300:])
        print(f"{pid}: {n} plans run twice, {diff} differ")
        bad += diff
    return 1 if bad else 0
