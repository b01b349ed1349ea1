#!/usr/bin/env python3
"""Which checks see which planted bugs. Development tool: tools/cross.py CHECK:BUGPREFIX[,BUGPREFIX] ... [--jobs=N]"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    pid, bug = job
    tmp = tempfile.mkdtemp(prefix="cross_")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
        if subprocess.run(["git", "apply", os.path.join(V, "seeded", bug, "patch.diff")], cwd=copy).returncode:
            return "%s x %s: does not apply" % job
        p = subprocess.run(["python3", os.path.join(V, "check.py"), pid], cwd=V, env=dict(os.environ, SIM_REPO=copy, SIM_JOBS="3"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        line = [l for l in p.stdout.splitlines() if l and not l.startswith(("seed", "VIOLATION", "KNOWN"))]
        return "%s x %s: rc %d %s" % (pid, bug, p.returncode, (line or [""])[0][:130])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


jobs = []
for a in sys.argv[1:]:
    if not a.startswith("--"):
        pid, pre = a.split(":")
        jobs += [(pid, os.path.basename(d)) for q in pre.split(",") for d in sorted(glob.glob(os.path.join(V, "seeded", q + "*")))]
n = [int(a[7:]) for a in sys.argv if a.startswith("--jobs=")]
with cf.ThreadPoolExecutor(n[0] if n else 3) as ex:
    for line in ex.map(one, jobs):
        print(line, flush=True)
