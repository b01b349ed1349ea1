"""Seeded search over simulated runs: plans, parallel execution, minimisation, replay files, evidence."""
import copy
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import time as _time
import traceback
import warnings

from . import kernel
from .kernel import REAL, Violation, SimHang, SimCrash

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_WALL = 90           # real seconds one simulated run may take before it counts as hung
BATCH_WALL = {"quick": 420, "thorough": 3000}


class WallHang(BaseException):
    pass


def _alarm(sig, frame):
    raise WallHang()


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(REAL.open(path))
    except FileNotFoundError:
        return {}
    return {f["class"]: f["what"] for f in data["findings"] if f["property"] == pid}


def plan_for(mod, seed, i, tier):
    rnd = random.Random("%s/%d/%d" % (mod.PID, seed, i))
    plan = mod.gen(rnd, i, tier)
    return json.loads(json.dumps(plan))


class quiet:
    """The code under test prints a lot. Nothing of it may reach the verdict."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = kernel.Null()
        sys.stderr = kernel.Null()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        return False


class HarnessError(Exception):
    pass


class ChildDied(Exception):
    pass


def in_fork(fn):
    """Run fn in a forked copy of this process and return its result: nothing it leaves behind is seen here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, fn()))
            except BaseException as e:
                try:
                    data = pickle.dumps((False, e))
                    pickle.loads(data)
                except BaseException:
                    data = pickle.dumps((False, HarnessError("%s: %s" % (type(e).__name__, e))))
            view = memoryview(data)
            while len(view):
                view = view[os.write(w, view[:1 << 16]):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    try:
        while True:
            c = os.read(r, 1 << 20)
            if not c:
                break
            chunks.append(c)
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        raise
    finally:
        os.close(r)
        status = os.waitpid(pid, 0)[1]
    if not chunks:
        raise ChildDied("the process of the run died (wait status %d)" % status)
    ok, val = pickle.loads(b"".join(chunks))
    if not ok:
        raise val
    return val


def _execute(mod, plan, known):
    import numpy as np
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_WALL)
    np.random.seed(123)
    try:
        with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return mod.run(copy.deepcopy(plan), known), None
    except Violation as v:
        return None, (v.cls, v.msg)
    except WallHang:
        return None, ("hang", "the simulated run did not finish within %d real seconds" % RUN_WALL)
    except ChildDied as e:
        return None, ("died", str(e))
    except SimHang:
        return None, ("no-progress", "the run used up its event budget")
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and tb[-1].filename.startswith(REPO + os.sep):
            # raised by the code under test, where the property module expected nothing of the kind
            return None, ("raises:%s:%s" % (type(e).__name__, tb[-1].name),
                          "%s: %s in %s" % (type(e).__name__, str(e)[:200], tb[-1].name))
        raise HarnessError(traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        kernel.CUR = None


def execute(mod, plan, known, own=True):
    """Run one plan, in a process of its own if asked to. Returns (stats or None, (class, message) or None)."""
    if not own and not getattr(mod, "ISOLATE", False):
        return _execute(mod, plan, known)
    try:
        return in_fork(lambda: _execute(mod, plan, known))
    except ChildDied as e:
        return None, ("died", str(e))


def with_prelude(mod, prelude, plan, known):
    """Run a plan in a process in which the plans of the prelude ran before."""
    if not prelude:
        return execute(mod, plan, known)

    def both():
        for p in prelude:
            try:
                _execute(mod, p, known)
            except Exception:
                pass
        return _execute(mod, plan, known)
    return in_fork(both)


_MOD = None
_KNOWN = None


def _work(args):
    pid, seed, lo, hi, tier, redo, deadline = args
    mod = _MOD
    out = []
    for i in range(lo, hi):
        if REAL.time() > deadline:
            out.append((i, None, None, None, "skipped"))
            continue
        plan = plan_for(mod, seed, i, tier)
        try:
            stats, vio = execute(mod, plan, _KNOWN, own=False)
            if vio is not None:
                # runs share a process: does it happen in a new one as well?
                fresh = execute(mod, plan, _KNOWN)[1]
                vio = (fresh or vio) + (lo if fresh is None else None,)
            det = None
            if stats is not None and redo and i % redo == 0:
                stats2, vio2 = execute(mod, plan, _KNOWN)
                det = vio2 is None and stats2["digest"] == stats["digest"]
            out.append((i, stats, vio, det, None))
        except Exception:
            out.append((i, None, None, None, traceback.format_exc()[-1500:]))
    return out


# --- minimisation -----------------------------------------------------------------------------------------------------
def _shrinks(plan, keys):
    """Smaller plans: drop chunks and elements of the shrinkable lists and dictionaries, then lower numbers."""
    def paths(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                yield from paths(v, path + [k])
                if k in keys and isinstance(v, (list, dict)) and len(v):
                    yield path + [k]
        elif isinstance(node, list):
            for k, v in enumerate(node):
                yield from paths(v, path + [k])

    def at(p, path):
        for k in path:
            p = p[k]
        return p

    for path in list(paths(plan, [])):
        v = at(plan, path)
        n = len(v)
        items = list(v) if isinstance(v, list) else sorted(v)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                drop = range(s, min(n, s + size))
                q = copy.deepcopy(plan)
                if isinstance(v, list):
                    new = [x for j, x in enumerate(items) if j not in drop]
                    if not new and path[-1] in NONEMPTY:
                        continue
                    new = copy.deepcopy(new)
                else:
                    new = {k: v[k] for j, k in enumerate(items) if j not in drop}
                at(q, path[:-1])[path[-1]] = new
                yield q
            size //= 2


NONEMPTY = {"methods", "targets", "instances"}


def minimise(mod, plan, cls, known, budget):
    end = REAL.time() + budget
    keys = set(getattr(mod, "SHRINK", ())) | {"stalls", "jumps", "ops", "oversleep", "zero", "fail", "disk"}
    custom = getattr(mod, "shrink", None)
    best = plan
    steps = 0
    progress = True
    while progress and REAL.time() < end:
        progress = False
        cands = list(_shrinks(best, keys))
        if custom:
            cands = list(custom(copy.deepcopy(best))) + cands
        for q in cands:
            if REAL.time() > end:
                break
            steps += 1
            try:
                _, vio = execute(mod, q, known)
            except Exception:
                continue
            if vio is not None and vio[0] == cls:
                best = q
                progress = True
                break
    return best, steps


# --- entry points -----------------------------------------------------------------------------------------------------
def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with REAL.open(path, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write("\n")


def do_replay(pid, path, mod):
    data = json.load(REAL.open(path))
    known = load_known(pid)
    stats, vio = with_prelude(mod, data.get("prelude", []), data["plan"], set(known))
    if vio is None:
        print("replay: property %s held on %s" % (pid, path))
        return 0
    print("replay: %s: %s" % vio)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if vio[0] == data["class"] else 1


def run_check(pid, tier, seed, mod):
    global _MOD, _KNOWN
    t0 = REAL.time()
    known = load_known(pid)
    _MOD, _KNOWN = mod, set(known)
    runs = int(mod.RUNS[tier])
    deadline = t0 + BATCH_WALL[tier]
    nproc = min(8, os.cpu_count() or 1)
    chunk = max(1, min(64, runs // (nproc * 8) or 1))
    redo = max(1, runs // 60)
    jobs = [(pid, seed, a, min(runs, a + chunk), tier, redo, deadline) for a in range(0, runs, chunk)]
    done = skipped = checks = events = nontrivial = 0
    sim_time = 0.0
    fired, probes, findings, digests, sigs = {}, {}, {}, set(), set()
    det_ok = det_bad = 0
    vios, errors, samples = [], [], []
    # what is loaded now stays out of the collector: the code under test collects garbage around every request
    gc.collect()
    gc.freeze()
    ctx = mp.get_context("fork")
    pool = ctx.Pool(nproc)
    try:
        for batch in pool.imap_unordered(_work, jobs):
            for i, st, vio, det, err in batch:
                if err == "skipped":
                    skipped += 1
                    continue
                done += 1
                if err is not None:
                    errors.append((i, err))
                elif vio is not None:
                    vios.append((i, vio))
                else:
                    checks += st["checks"]
                    events += st["events"]
                    sim_time += st["sim_time"]
                    if st["nontrivial"]:
                        nontrivial += 1
                        digests.add(st["digest"])
                    if st["sig"]:
                        sigs.add(st["sig"])
                    for k, v in st["fired"].items():
                        fired[k] = fired.get(k, 0) + v
                    for k, v in st["probes"].items():
                        probes[k] = probes.get(k, 0) + v
                    for k, v in st["findings"].items():
                        if k not in findings or i < findings[k][0]:
                            findings[k] = (i, v)
                    if det is not None:
                        det_ok += bool(det)
                        det_bad += not det
            if vios or len(errors) > 20:
                break
    finally:
        pool.terminate()
        pool.join()
    wall_search = REAL.time() - t0
    if getattr(mod, "finish", None) is not None and not vios:
        # cross-run conditions decided on the whole batch
        extra = mod.finish(seed, tier, _KNOWN)
        if extra:
            vios.append(extra)
    rc = 0
    replay = None
    if vios:
        vios.sort(key=lambda v: (v[0] is None, v[0]))
        i, (cls, msg) = vios[0][0], vios[0][1][:2]
        first = vios[0][1][2] if len(vios[0][1]) > 2 else None
        plan = plan_for(mod, seed, i, tier)
        prelude = []
        if first is not None:
            prelude = [plan_for(mod, seed, j, tier) for j in range(first, i)]
            small, steps = plan, 0
        else:
            small, steps = (plan, 0) if cls == "hang" else minimise(mod, plan, cls, _KNOWN, 60 if tier == "quick" else 300)
        try:
            _, v2 = with_prelude(mod, prelude, small, _KNOWN)
        except Exception:
            v2 = None
        if v2 is not None and v2[0] == cls:
            msg = v2[1]
        else:
            small = plan
        h = hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
        replay = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
        write_json(replay, {"property": pid, "class": cls, "message": msg, "seed": seed, "run": i, "tier": tier,
                            "minimiser_steps": steps, "prelude": prelude, "plan": small})
        print("%s: %s" % (cls, msg))
        print("seed %d run %d, minimised in %d steps" % (seed, i, steps))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        rc = 1
    for k in sorted(findings):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known.get(k, k), k))
    if errors and rc == 0:
        print("harness error in run %d:\n%s" % errors[0])
        rc = 2
    for i in range(min(3, runs)):
        p = plan_for(mod, seed, i, tier)
        s = json.dumps(p, sort_keys=True)
        samples.append(s if len(s) < 1500 else s[:1500] + "...")
    wall = REAL.time() - t0
    cov = {"evaluations": done, "distinct_nontrivial": len(digests), "rule": mod.RULE, "samples": samples,
           "nontrivial_runs": nontrivial, "oracle_checks": checks, "simulated_events": events,
           "simulated_seconds": round(sim_time, 3), "runs_per_hour": int(done / max(wall_search, 1e-6) * 3600),
           "faults_fired": fired, "probes": probes, "distinct_configurations": len(sigs),
           "determinism": {"runs_repeated": det_ok + det_bad, "identical": det_ok, "different": det_bad},
           "skipped_runs": skipped, "known_findings_seen": {k: v[1] for k, v in findings.items()},
           "real_components": mod.REAL, "stub_components": mod.STUB, "workers": nproc,
           "distinct_measure": "distinct hashes of the event log (evaluated points, clock reads, sleeps, disk operations, "
                               "scheduling decisions, in order)"}
    write_json(os.path.join(VERIF, "evidence", pid + ".json"),
               {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                "assumptions": list(getattr(mod, "ASSUME", [])), "wall_s": round(wall, 2),
                "violations": len(vios)})
    if rc == 0:
        print("property %s held on %d simulated runs (%d distinct, %d checks, %.1f s)" % (
            pid, done, len(digests), checks, wall))
        if det_bad:
            print("warning: %d of %d repeated runs differed" % (det_bad, det_ok + det_bad))
    return rc
