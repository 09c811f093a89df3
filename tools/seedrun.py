#!/usr/bin/env python3
"""Run the checks against the planted bugs (scratch copies, VERIF_REPO).

    tools/seedrun.py [ID...]        each bug against its own property's check
    tools/seedrun.py --all [ID...]  each bug against every check"""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if a != "--all"] or sorted(p.name for p in (V / "seeded").iterdir())
props = [json.loads(x)["id"] for x in open(V / "properties.jsonl")]


def one(ident):
    wt = Path(f"/tmp/seedrun/{ident}")
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    try:
        d = V / "seeded" / ident
        subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=wt, check=True)
        own = json.load(open(d / "meta.json"))["property"]
        out = []
        for p in props if every else [own]:
            t = time.time()
            r = subprocess.run([str(V / "check.py"), p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=str(wt), PYTHONDONTWRITEBYTECODE="1"))
            n = r.stdout.count(f"VIOLATION property={p}")
            if r.returncode or p == own:
                out.append(f"{p}:{'CAUGHT' if r.returncode == 1 and n else 'missed rc=%d' % r.returncode}"
                           f" ({n}, {time.time() - t:.0f}s)")
        return ident, " ".join(out)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


with ThreadPoolExecutor(1 if every else 2) as ex:
    for ident, msg in ex.map(one, ids):
        print(f"{ident}: {msg}", flush=True)
