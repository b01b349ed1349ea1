#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--runs N]"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg",
       "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "PYTHONWARNINGS": "ignore"}


def main():
    if os.environ.get("SIM_STAGE") != "1":
        import shutil
        import subprocess
        import tempfile
        scratch = tempfile.mkdtemp(prefix="simck_")
        env = dict(os.environ, SIM_STAGE="1", SIM_SCRATCH=scratch, MPLCONFIGDIR=os.path.join(scratch, "mpl"), **ENV)
        env.pop("PYTHONPATH", None)
        os.makedirs(env["MPLCONFIGDIR"])
        cache = os.path.join(VERIF, ".cache", "mpl")
        if os.path.isdir(cache):
            shutil.copytree(cache, env["MPLCONFIGDIR"], dirs_exist_ok=True)
        try:
            rc = subprocess.call([PY if os.path.exists(PY) else sys.executable, "-W", "ignore", os.path.abspath(__file__)]
                                 + sys.argv[1:], env=env, cwd=VERIF)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc in (0, 1) else 2)

    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    a = ap.parse_args()
    sys.path[:0] = [os.environ.get("SIM_REPO", "/repo"), VERIF]
    from sim import kernel
    kernel.install()
    import importlib
    from sim import harness
    try:
        with harness.quiet():
            mod = importlib.import_module("sim.props." + a.property)
    except Exception as e:
        # the code under test cannot even be imported
        import traceback
        traceback.print_exc()
        sys.exit(2)
    if a.runs:
        mod.RUNS = {"quick": a.runs, "thorough": a.runs}
    if a.replay:
        sys.exit(harness.do_replay(a.property, a.replay, mod))
    sys.exit(harness.run_check(a.property, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed, mod))


if __name__ == "__main__":
    main()
