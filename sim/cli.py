"""The command line tool, run as a process would run it, inside the simulation."""

from __future__ import annotations

import asyncio
import gc
import io
import json
import logging
import os
import sys
import traceback


class Result:
    """How one invocation ended and what it wrote."""

    code = None      # exit status; "cancelled" when interrupted; "raise:..." with a traceback
    out = err = tb = ""
    left = ()
    secs = 0.0

    @property
    def ok(self):
        return self.code == 0

    def __repr__(self):
        return f"exit {self.code}, {self.secs:.1f} s, stdout {self.out[-300:]!r}, stderr {self.err[-200:]!r}"

    def documents(self):
        """Every JSON document on standard output, or None when there is anything else."""
        dec, out, s = json.JSONDecoder(), [], self.out.strip()
        while s:
            try:
                v, n = dec.raw_decode(s)
            except ValueError:
                return None
            out.append(v)
            s = s[n:].lstrip()
        return out


async def run_cli(w, argv, *, stdin="", env=None, cancel=None):
    """`kasa ARGV` to its end; cancel = scheduler steps until Ctrl-C."""
    from checks.c12 import leaks, settle

    from kasa.cli.main import cli

    r = Result()
    env = env or {}
    saved = {k: os.environ.pop(k) for k in list(os.environ) if k.startswith("KASA_") or k in ("COLUMNS", "NO_COLOR", "FORCE_COLOR")}
    os.environ.update(env)
    root = logging.getLogger()
    handlers, level = root.handlers[:], root.level
    root.handlers[:] = []
    real = sys.stdout, sys.stderr, sys.stdin, sys.argv
    out, err = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr, sys.stdin, sys.argv = out, err, io.StringIO(stdin), ["kasa", *argv]
    loop = w.loop
    loop.set_exception_handler(None)
    logging.lastResort = logging._defaultLastResort
    t0 = w.now
    w.log("cli", op=json.dumps(argv))
    w.stats["cli"] += 1
    before = asyncio.all_tasks()

    async def process():
        try:
            await cli.main(args=list(argv), prog_name="kasa")
        except SystemExit as ex:
            r.code = 0 if ex.code is None else ex.code
        except asyncio.CancelledError:
            r.code = "cancelled"
        except BaseException as ex:  # noqa: BLE001
            r.code, r.tb = f"raise:{type(ex).__name__}: {ex}", traceback.format_exc()
        else:
            r.code = 0
    try:
        task = loop.create_task(process(), name="cli")

        def fire():
            if task is not None and not task.done():
                w.fault("cancel")
                task.cancel()
        if cancel is not None:
            w.at_step(w.steps + cancel, fire)
        await asyncio.wait([task])
        r.secs = w.now - t0
        r.left = [x for x in leaks(w) if not x.startswith("timer")]
        # as asyncio.run does at the end
        rest = [t for t in asyncio.all_tasks() if t not in before and not t.done()]
        for t in rest:
            t.cancel()
        if rest:
            await asyncio.gather(*rest, return_exceptions=True)
        task = rest = None
        await settle()
        gc.collect()
        await settle()
        r.left = leaks(w)
    finally:
        sys.stdout, sys.stderr, sys.stdin, sys.argv = real
        root.handlers[:] = handlers
        root.setLevel(level)
        loop.set_exception_handler(loop._on_exc)
        logging.lastResort = None
        for k in env:
            os.environ.pop(k, None)
        os.environ.update(saved)
        r.out, r.err = out.getvalue(), err.getvalue()
    w.log("cli-end", code=str(r.code), out=len(r.out), left=list(r.left))
    return r
