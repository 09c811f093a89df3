#!/usr/bin/env python3
"""Confirm planted bugs and store them in /verif/seeded.

    tools/plant.py DEFS.py [ID...]

DEFS.py defines PLANTS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}.
Each is applied to a scratch copy of /repo under /tmp; it is kept when the copy's 439 stable
tests pass and the demonstration exits 0 without and non-zero with the change."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

PY = "/opt/venv/bin/python"
SEEDED = Path("/verif/seeded")
DEMO_SH = """#!/bin/bash
# run with cwd = the repository under test
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 {py} "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, timeout=1500):
    env = dict(os.environ, PYTHONPATH=str(cwd), PYTHONDONTWRITEBYTECODE="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True,
                          timeout=timeout)


def stable():
    base = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "stable_passing"):
        if k in base:
            return set(base[k])
    raise SystemExit(f"baseline keys: {list(base)}")


def one(ident, p):
    wt = Path(f"/tmp/plants/{ident}")
    if wt.exists():
        shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    try:
        demo = wt.parent / f"{ident}.demo"
        demo.mkdir(exist_ok=True)
        (demo / "demo.py").write_text(p["demo"].lstrip("\n"))
        (demo / "demo.sh").write_text(DEMO_SH.format(py=PY))
        r = run(["bash", str(demo / "demo.sh")], wt, 300)
        if r.returncode:
            return ident, "demo fails on unchanged tree: " + (r.stdout + r.stderr)[-300:]
        for f, old, new in p["edits"]:
            q = wt / f
            s = q.read_text()
            if s.count(old) != 1:
                return ident, f"{f}: {s.count(old)} matches of {old[:50]!r}"
            q.write_text(s.replace(old, new))
        r = run(["bash", str(demo / "demo.sh")], wt, 300)
        if r.returncode == 0:
            return ident, "demo passes with the change"
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        diff = run(["git", "diff"], wt).stdout
        x = wt / "junit.xml"
        run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules",
             "--timeout=600", "-n", "4", "--dist", "worksteal", "-o", "junit_family=xunit2",
             f"--junitxml={x}"], wt)
        out = wt / "res.json"
        run(["python3", "/opt/vp/results.py", str(out), f"junit:{x}"], wt)
        got = set(json.load(open(out))["passed"])
        lost = stable() - got
        if lost:
            return ident, f"{len(lost)} tests fail, e.g. {sorted(lost)[:2]}"
        d = SEEDED / ident
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(demo / f, d / f)
        (d / "meta.json").write_text(json.dumps({
            "property": p["property"], "needs": p["needs"],
            "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        return ident, f"KEPT ({why})"
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(wt.parent / f"{ident}.demo", ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.PLANTS)
    with ThreadPoolExecutor(2) as ex:
        for ident, msg in ex.map(lambda i: one(i, m.PLANTS[i]), ids):
            print(f"{ident}: {msg}", flush=True)


main()
