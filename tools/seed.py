"""python3 tools/seed.py SPECFILE : write seeded/<id>/ from a spec and confirm it (patch applies, builds, tests pass, demo).

A spec file is Python: SEEDS = [dict(id=, property=, file=, edits=[(old, new), ...], demo=, needs=, breaks=)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/torchrir/env.sh
PYTHONPATH="$PWD/src" exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, shell=isinstance(cmd, str))


def make(s):
    d = tempfile.mkdtemp(prefix="seed-")
    out = []
    try:
        run(["git", "clone", "-q", "/repo", d + "/r"], d)
        r = d + "/r"
        for f, edits in ([(s["file"], s["edits"])] if "file" in s else s["files"]):
            p = f"{r}/src/torchrir/{f}"
            t = open(p).read()
            for old, new in edits:
                if t.count(old) < 1:
                    return s["id"], ["pattern not found: " + old]
                t = t.replace(old, new) if s.get("all") else t.replace(old, new, 1)
            open(p, "w").write(t)
        patch = run(["git", "diff"], r).stdout
        sd = f"{HERE}/seeded/{s['id']}"
        os.makedirs(sd, exist_ok=True)
        open(sd + "/patch.diff", "w").write(patch)
        open(sd + "/demo.sh", "w").write(SH)
        open(sd + "/demo.py", "w").write(s["demo"].strip() + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
        x = run(["bash", sd + "/demo.sh"], r)
        if x.returncode == 0:
            out.append("demo does not fail with the change")
        elif "AssertionError" not in x.stderr:
            out.append("demo fails oddly: " + x.stderr[-300:])
        e = dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="2")
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], r, e)
        if t.returncode:
            out.append("tests: " + t.stdout[-400:])
        run(["git", "checkout", "-q", "--", "."], r)
        x = run(["bash", sd + "/demo.sh"], r)
        if x.returncode:
            out.append("demo fails on the unchanged tree: " + x.stderr[-400:])
        if run(["git", "apply", "--check", sd + "/patch.diff"], r).returncode:
            out.append("patch does not apply")
        if out:
            shutil.rmtree(sd)
        return s["id"], out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    if len(sys.argv) > 2:
        seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, o in ex.map(make, seeds):
            print(i, "ok" if not o else o, flush=True)
