#!/usr/bin/env python3
"""Confirms and records planted bugs. Development tool: python3 tools/plant.py BUGFILE.py [id ...]

The bug file defines BUGS, a list of dicts: id, property, file, edits [(old, new)], needs, breaks, demo (python source).
Each bug is applied to a scratch copy of /repo, built (imported), tested (stable tests), demonstrated, and then written to
/verif/seeded/<id>/. Then the check of its property runs against the copy.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
           PYTHONDONTWRITEBYTECODE="1")
PRELUDE = open(os.path.join(VERIF, "tools", "demo_prelude.py")).read()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '#!/bin/bash\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, env=env, errors="replace")
    return p.returncode, p.stdout


def tests(copy):
    r = tempfile.mkdtemp()
    opts = "-q -p no:cacheprovider --timeout=600 -p no:randomly --continue-on-collection-errors -o junit_family=xunit2 "
    sh("%s -m pytest %s -p no:xdist --junitxml=%s/a.xml tests/metrics/test_metric_memory.py" % (PY, opts, r), copy)
    sh("%s -m pytest %s -p no:xdist --junitxml=%s/b.xml --ignore=tests/metrics/test_metric_memory.py "
       "--ignore=tests/metrics/test_metric_time.py tests" % (PY, opts, r), copy)
    sh(["python3", "/opt/vp/results.py", r + "/o.json", "junit:" + r + "/a.xml", "junit:" + r + "/b.xml"], copy)
    try:
        res = json.load(open(r + "/o.json"))
    except Exception:
        return ["no result"]
    finally:
        shutil.rmtree(r, ignore_errors=True)
    return sorted(STABLE - set(res["passed"]))


def one(bug, full=True):
    out = []
    tmp = tempfile.mkdtemp(prefix="plant_")
    copy = os.path.join(tmp, "repo")
    try:
        subprocess.check_call(["cp", "-a", os.environ.get("SCREEN_BASE", "/repo"), copy])
        edits = bug["edits"] if isinstance(bug["edits"][0][0], str) and len(bug["edits"][0]) == 2 else bug["edits"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (bug["file"],) + tuple(e)
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug["id"], "BAD EDIT: %d matches of %r" % (s.count(old), old[:60]), None
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", copy)[1]
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(PRELUDE + "\n" + textwrap.dedent(bug["demo"]).strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], os.environ.get("SCREEN_BASE", "/repo"))
        rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], copy)
        if rc0 != 0 or rc1 == 0:
            return bug["id"], "DEMO: unchanged %d, patched %d\n%s\n%s" % (rc0, rc1, o0[-600:], o1[-600:]), None
        if full:
            bad = set(tests(copy))
            for _ in range(3):      # the divergence tests fail now and then
                if bad:
                    bad &= set(tests(copy))
            bad = sorted(bad)
            if bad:
                return bug["id"], "TESTS FAIL: %s" % bad[:3], None
            dst = os.path.join(VERIF, "seeded", bug["id"])
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            shutil.copy(os.path.join(d, "demo.py"), dst)
            shutil.copy(os.path.join(d, "demo.sh"), dst)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
        rc, o = sh(["python3", os.path.join(VERIF, "check.py"), bug["property"]], VERIF, env=dict(ENV, SIM_REPO=copy))
        line = [l for l in o.splitlines() if l and not l.startswith(("seed", "VIOLATION", "KNOWN"))]
        hit = rc == 1 and "VIOLATION property=%s" % bug["property"] in o
        return bug["id"], "%s %s (rc %d) %s | demo: %s" % (bug["property"], "CAUGHT" if hit else "MISSED", rc,
                                                          (line or [""])[0][:150], o1.strip()[-100:].replace("\n", " ")), hit
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    fast = "--fast" in sys.argv
    bugs = [b for b in m.BUGS if not want or b["id"] in want]
    with cf.ThreadPoolExecutor(2) as ex:
        for f in cf.as_completed([ex.submit(one, b, not fast) for b in bugs]):
            print("%s: %s" % f.result()[:2], flush=True)


if __name__ == "__main__":
    main()
