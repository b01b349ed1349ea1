#!/usr/bin/env python3
"""Runs each planted bug's own check on a scratch copy with the bug applied. usage: regress.py [ids or properties] [--seed=N] [--jobs=N]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed = next((a[7:] for a in sys.argv if a.startswith("--seed=")), "1")
jobs = int(next((a[7:] for a in sys.argv if a.startswith("--jobs=")), "2"))
want = [a for a in sys.argv[1:] if not a.startswith("--")]


def one(bug):
    d = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    copy = tempfile.mkdtemp(prefix="regress-")
    try:
        subprocess.run(["cp", "-a", os.environ.get("SCREEN_BASE", "/repo") + "/.", copy], check=True)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            return "%s: PATCH DOES NOT APPLY" % bug
        r = subprocess.run(["timeout", "900", "python3", "check.py", prop, "--seed", seed], cwd=HERE,
                           env=dict(os.environ, SIM_REPO=copy), capture_output=True, text=True)
        hit = r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout
        return "%s: %s" % (bug, "caught" if hit else "MISSED (exit %d)" % r.returncode)
    finally:
        shutil.rmtree(copy)


bugs = [b for b in sorted(os.listdir(os.path.join(HERE, "seeded"))) if not want or b in want or b.split("-")[0] in want]
with ThreadPoolExecutor(jobs) as ex:
    for line in ex.map(one, bugs):
        print(line, flush=True)
