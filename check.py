#!/usr/bin/env python3
"""Deterministic-simulation check runner.

  check.py C01               run the check (VERIF_SEED, VERIF_TIER)
  check.py replay FILE       re-execute a replay file, print its trace
  check.py one C01 I         run one seed index verbosely
  check.py selftest [C01..]  determinism: same plans, run twice -> same digests
"""
import os
import sys

VENV_PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def reexec(hashseed):
    env = dict(os.environ)
    want = {"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC",
            "LANG": "C.UTF-8", "VERIF_BOOTED": "1", "HOME": "/nonexistent"}
    for k in list(env):
        if k.startswith(("KASA_", "AIOHTTP_", "PYTHONPATH", "PYTHONASYNCIO", "PYTHONWARN")):
            del env[k]
    if all(env.get(k) == v for k, v in want.items()) and sys.executable == VENV_PY:
        return
    env.update(want)
    os.execve(VENV_PY, [VENV_PY, os.path.join(HERE, "check.py"), *sys.argv[1:]], env)


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    sys.path.insert(0, HERE)
    cmd = args[0]
    if cmd == "worker":
        from sim import runner
        return runner.worker_main(args[1:])
    if cmd == "minimise":
        from sim import runner
        return runner.minimise_main(args[1], args[2])
    if cmd == "replay":
        import json
        hs = json.load(open(args[1]))["plan"]["hashseed"]
        reexec(hs)
        from sim import runner
        return runner.replay_main(args[1], verbose="-q" not in args)
    reexec(os.environ.get("VERIF_HASHSEED", "0") if cmd == "one" else 0)
    from sim import runner
    if cmd == "one":
        return runner.one_main(args[1], int(args[2]), args[3:])
    if cmd == "selftest":
        return runner.selftest_main(args[1:])
    return runner.check_main(cmd)


if __name__ == "__main__":
    sys.exit(main())
