"""Generate /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, pathlib, re
HERE = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(HERE / "properties.jsonl")]
NA = {"C30": "pure functions of their arguments: no scheduling, time, I/O, storage or multi-party behaviour for a simulated "
             "schedule or fault to act on; deterministic simulation does not apply"}
checks, na = [], []
for p in props:
    pid = p["id"]
    f = HERE / "checks" / f"{pid.lower()}.py"
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif f.exists():
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection (seeded search over schedules and fault sequences)",
            "level": "exploration",
            "level_note": "The real library runs in one process on a virtual-time event loop against simulated devices and network; "
                          "a seeded search of whole-system runs judged against an independent model. Assurance is that of the "
                          "runs made (counts in the evidence file); it trusts the simulator's network and device models.",
        })
    else:
        na.append({"property": pid, "reason": "applicable, but its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py selftest C01",
     "hooks": {"guard": "none", "enable": "no hooks are needed: every seam is an existing one (event loop, sockets, clocks, os.urandom, transports)",
               "source_commits": []},
     "checks": checks, "not_applicable": na}
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
