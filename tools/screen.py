#!/usr/bin/env python3
"""Screens ideas for planted bugs (no demo, no tests): prints whether the property's check catches each. usage: screen.py FILE [ids] [--jobs=N]"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("ideas", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
want = [a for a in sys.argv[2:] if not a.startswith("--")]
jobs = int(next((a[7:] for a in sys.argv if a.startswith("--jobs=")), "2"))


def one(b):
    ident, props, file, edits = b[:4]
    copy = tempfile.mkdtemp(prefix="screen-")
    try:
        subprocess.run(["cp", "-a", os.environ.get("SCREEN_BASE", "/repo") + "/.", copy], check=True)
        path = os.path.join(copy, file)
        s = open(path).read()
        for old, new in edits:
            if s.count(old) != 1:
                return "%s: BAD EDIT %d %r" % (ident, s.count(old), old[:70])
            s = s.replace(old, new)
        open(path, "w").write(s)
        out = []
        for p in props.split():
            r = subprocess.run(["timeout", "900", "python3", "check.py", p], cwd=HERE, env=dict(os.environ, SIM_REPO=copy),
                               capture_output=True, text=True)
            hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
            cls = [l for l in r.stdout.splitlines() if l.startswith(("seed", "  "))]
            out.append("%s %s %s" % (p, "caught" if hit else "MISSED rc=%d" % r.returncode, (cls or [""])[0][:110]))
        return "%s: %s" % (ident, " | ".join(out))
    finally:
        shutil.rmtree(copy)


with ThreadPoolExecutor(jobs) as ex:
    for line in ex.map(one, [b for b in m.IDEAS if not want or b[0] in want]):
        print(line, flush=True)
