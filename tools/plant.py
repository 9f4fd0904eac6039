"""Builds and confirms planted bugs: python plant.py SPEC.py [ID...]

SPEC.py defines PLANTS, a list of dicts (id, property, edits, needs, breaks, demo).  A plant is kept in
/verif/seeded/<id>/ when, in a scratch copy of /repo, it applies, changes original lines only, passes the tests, and its
demonstration fails with it and passes without it.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

BASE = "5e6a4aa"
SEEDED = pathlib.Path(__file__).resolve().parent.parent / "seeded"
PRELUDE = '''import os, sys
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import chainconsumer
assert os.path.realpath(chainconsumer.__file__).startswith(os.path.realpath("src")), chainconsumer.__file__
from chainconsumer import *
'''
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d); trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch" SCRATCH="$scratch" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
/opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)


def plant(p):
    work = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        repo = work / "repo"
        sh(f"git clone -q /repo {repo}", "/")
        for f, old, new in p["edits"]:
            path = repo / "src/chainconsumer" / f
            s = path.read_text()
            if s.count(old) != 1:
                return p["id"], f"edit matches {s.count(old)} times: {old[:60]!r}"
            path.write_text(s.replace(old, new))
        diff = sh("git diff", repo).stdout
        # original lines only
        mine = []
        for f in {e[0] for e in p["edits"]}:
            rel = f"src/chainconsumer/{f}"
            blame = sh(f"git blame -l -s --abbrev=40 {BASE}..HEAD -- {rel}", repo).stdout.splitlines()
            new_lines = {i + 1 for i, ln in enumerate(blame) if not ln.startswith("^")}
            for h in sh(f"git diff -U0 -- {rel}", repo).stdout.splitlines():
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    mine += [f"{f}:{k}" for k in range(start, start + n) if k in new_lines]
        d = work / "demo"
        d.mkdir()
        (d / "demo.py").write_text(PRELUDE + p["demo"])
        (d / "demo.sh").write_text(DEMO)
        env = dict(PYTHONPATH=f"{repo}/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", JAX_PLATFORMS="cpu", MPLCONFIGDIR="/opt/vp/mplconfig", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        clean = sh(f"bash {d}/demo.sh", "/repo", timeout=280)
        bad = sh(f"bash {d}/demo.sh", repo, timeout=280)
        if clean.returncode != 0:
            return p["id"], "demo fails on the clean tree: " + clean.stderr[-400:]
        if bad.returncode == 0:
            return p["id"], "demo passes with the change"
        t = sh("PATH=/opt/venv/bin:$PATH python -m pytest tests -q -x -p no:cacheprovider --timeout=300", repo, env)
        if t.returncode != 0:
            return p["id"], "tests fail: " + " | ".join(ln for ln in t.stdout.splitlines() if ln.startswith("FAILED"))[:300]
        out = SEEDED / p["id"]
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(d / f, out / f)
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), indent=1) + "\n")
        return p["id"], "kept" + (f" (touches fixed lines {mine})" if mine else "") + " | " + bad.stderr.strip().splitlines()[-1][:120]
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [p for p in m.PLANTS if not sys.argv[2:] or p["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(plant, todo):
            print(f"{i}: {r}", flush=True)
