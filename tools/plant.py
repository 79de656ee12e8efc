"""plant.py ID [--tests] [--check C..]: confirm a planted bug in a scratch copy.

Copies /repo to a scratch folder, runs demo.sh there without and with the
patch, optionally the stable tests with it, and the check of its property.
"""
import argparse, json, os, pathlib, shutil, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--tests", action="store_true")
ap.add_argument("--nocheck", action="store_true")
ap.add_argument("--check", default=None)
ap.add_argument("--tier", default="quick")
a = ap.parse_args()
src = VERIF / "seeded" / a.id
meta = json.loads((src / "meta.json").read_text())
work = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
repo = work / "repo"
ENV = {"HOME": "/root", "LANG": "C.UTF-8", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1",
       "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "PYTHONHASHSEED": "0"}


def demo():
    d = work / "demo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    # the editable install points to /repo: the scratch copy has to come first
    r = subprocess.run(["bash", str(d / "demo.sh")], cwd=repo, env={**ENV, "PYTHONPATH": str(repo)},
                       capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


try:
    shutil.copytree("/repo", repo, symlinks=True)
    t = time.time()
    rc0, out0 = demo()
    print(f"demo unchanged: {rc0} ({time.time()-t:.1f}s)" + ("" if rc0 == 0 else "\n" + out0))
    r = subprocess.run(["git", "apply", str(src / "patch.diff")], cwd=repo, capture_output=True, text=True)
    if r.returncode:
        print("PATCH DOES NOT APPLY", r.stderr); sys.exit(2)
    rc1, out1 = demo()
    print(f"demo patched: {rc1}\n{out1}")
    if a.tests:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "-p",
                            "no:sugar", "--timeout=60", "--continue-on-collection-errors", "-x",
                            "-o", "junit_family=xunit2", f"--junitxml={work}/junit.xml"],
                           cwd=repo, env={**ENV, "PYTHONPATH": str(repo)}, capture_output=True, text=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", f"{work}/o.json", f"junit:{work}/junit.xml"],
                       capture_output=True)
        o = json.loads((work / "o.json").read_text())
        stable = set(json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())["stable"])
        key = next(k for k in o if "pass" in k) if isinstance(o, dict) else None
        passed = set(o[key]) if key else set(o)
        missing = stable - passed
        print("stable tests:", "ok" if not missing else f"{len(missing)} FAIL {sorted(missing)[:3]}")
    if not a.nocheck:
        for cid in (a.check or meta["property"]).split(","):
            t = time.time()
            r = subprocess.run([sys.executable, "check.py", cid], cwd=VERIF, capture_output=True, text=True,
                               env={**os.environ, "VERIF_REPO": str(repo), "VERIF_SEED": "1", "VERIF_TIER": a.tier})
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith(cid)]
            print(cid, "exit", r.returncode, f"{time.time()-t:.0f}s", *[l[:300] for l in lines[-3:]], r.stderr[-300:] if r.returncode > 1 else "")
finally:
    shutil.rmtree(work)
