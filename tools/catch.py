"""Runs each planted bug against its property's check (or the checks named with --checks) in a scratch copy of /repo.

python tools/catch.py [ID...] [--checks C01,C02] ; prints one line per bug and check: id check exit-code violations seconds
"""
import concurrent.futures as cf
import json
import os
import pathlib
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent


def one(bug, checks):
    out = []
    with tempfile.TemporaryDirectory(prefix="catch-") as d:
        repo = pathlib.Path(d) / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(repo)], check=True)
        subprocess.run(["git", "apply", str(ROOT / "seeded" / bug / "patch.diff")], cwd=repo, check=True)
        for c in checks or [json.loads((ROOT / "seeded" / bug / "meta.json").read_text())["property"]]:
            env = dict(os.environ, VERIF_REPO=str(repo), VERIF_OUT=d, VERIF_SEED="1", VERIF_TIER="quick")
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", str(ROOT / "run.py"), c], env=env, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            out.append((bug, c, r.returncode, len(v), round(time.time() - t), (r.stderr[-300:] if r.returncode not in (0, 1) else "")))
    return out


if __name__ == "__main__":
    args = sys.argv[1:]
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    bugs = args or sorted(p.name for p in (ROOT / "seeded").iterdir())
    with cf.ThreadPoolExecutor(2) as ex:
        for res in ex.map(lambda b: one(b, checks), bugs):
            for row in res:
                print(*row, flush=True)
