"""A crash leaves every finished measurement in the results file."""
import numpy as np

from ..bench import *
from ..common import *
from ..kernel import SimCrash

PID = "R03"
RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("A benchmark of scripted and real methods is killed at one to three instants (any event: between or inside writes, "
        "before opening or closing, during sampling, during a metric), the unwritten part of the user-space buffer is lost "
        "or torn, and the benchmark is started again on the same path. After every crash the bytes on disk are compared "
        "with the file of an uninterrupted run and with the steps that had finished. Non-trivial: a crash hit after the "
        "first request began.")
REAL = REAL_BENCH + ["sampling methods (in some runs)"]
STUB = STUB_BENCH
SHRINK = ("targets", "methods", "metrics", "crashes")
ASSUME = ["A crash of the process, not of the machine: bytes handed to the operating system survive."]


def gen(rnd, i, tier):
    names = rnd.sample(NAMES, len(NAMES))
    real = rnd.random() < .3
    targets = [sim_target(rnd, names.pop(), k, dims=rnd.choice([1, 1, 2])) for k in range(rnd.choice([1, 1, 2]))]
    methods = []
    for k in range(rnd.choice([1, 2, 2])):
        if real and k == 0:
            m = real_method(rnd, names.pop(), rnd.choice([x for x in sorted(REAL_METHODS) if x not in ("mh", "rej")]))
            m.pop("kind")
            methods.append(m)
        else:
            methods.append(sim_method(rnd, names.pop(), yields=[rnd.choice([0, 0, 2, ["f", .5]]) for _ in range(2)],
                                      durations=[.01], rng=rnd.random() < .5,
                                      ness=[rnd.choice([.5, 1.0, 123.4]) for _ in range(2)]))
    crashes = []
    for _ in range(rnd.choice([1, 1, 2, 3])):
        crashes.append({"at": rnd.choice(["any", "any", "disk", "disk", "late"]), "x": rnd.random(),
                        "torn": rnd.choice([None, .01, .3, .7, .999])})
    return {"targets": targets, "methods": methods, "seed": rnd.randint(0, 2 ** 31 - 1), "read_cost": 1e-5,
            "config": {"nreps": rnd.choice([1, 1, 2]), "rseed": rnd.choice([0, 4]),
                       "metrics": [m for m in METRICS if rnd.random() < .4 and (m != "T" or rnd.random() < .15)]},
            "nested_out": rnd.random() < .5, "old": rnd.random() < .3, "crashes": crashes}


OLD = b"some older results\n1 2 3\nhalf a li"


def play(ctx, plan, root, out, crash_at=None, torn=None):
    p = {"read_cost": plan["read_cost"], "crash_at": crash_at, "torn": torn}
    with simple_sim(p, max_events=400000) as sim:
        arm(sim, root)
        np.random.seed(plan["seed"])
        disk_events, marks, after = [], [], []
        orig = sim.disk_fault

        def disk_fault(op, path):
            disk_events.append(sim.events + 1)
            return orig(op, path)
        sim.disk_fault = disk_fault
        tap = RequestTap(lambda m: marks.append(rows_on_disk(out)[0]), lambda m, r: after.append(1))
        crashed = False
        try:
            run_bench(write_files(root, plan), out, 1e9)
        except SimCrash:
            crashed = True
        except Exception as e:
            # an error handler may be in the way of the crash
            if not sim.crashed:
                raise
            crashed = True
        finally:
            tap.close()
        crashed = crashed or sim.crashed
        for f in sim.files:
            f.abandon()
        sim.root = None
    return {"sim": sim, "crashed": crashed, "disk": disk_events, "marks": marks, "after": len(after),
            "data": content(out)}


def blank(data, plan):
    """Without the measured time, whose last digit may depend on where the clock stands."""
    head, rows, last = columns(data)
    skip = {k for k, c in enumerate(head) if c in ("T", "time")}
    return [head] + [[w for k, w in enumerate(r) if k not in skip] for r in rows] + [last]


def run(plan, known):
    ctx = Ctx(known)
    hits = 0
    with Arena() as arena:
        root = arena.root
        out = os.path.join(root, "res", "results.txt") if plan["nested_out"] else os.path.join(root, "results.txt")
        if plan["old"]:
            SYS.makedirs(os.path.dirname(out), exist_ok=True)
            with SYS.open(out, "wb") as f:
                f.write(OLD)
        # the uninterrupted run, elsewhere
        ref_root = root + "-ref"
        SYS.makedirs(ref_root, exist_ok=True)
        try:
            ref = play(ctx, plan, ref_root, out.replace(root, ref_root))
        finally:
            shutil.rmtree(ref_root, ignore_errors=True)
        F = ref["data"]
        ctx.check(F is not None and F.endswith(b"\n"), "torn-row", lambda: "a finished run left %r" % F[-60:])
        ctx.check(ref["marks"] == list(range(len(ref["marks"]))), "rows-late",
                  lambda: "rows in the file when the requests began: %s" % ref["marks"][:12])
        ctx.check(F.count(b"\n") == 1 + len(ref["marks"]), "rows-lost", lambda: "%d rows for %d requests" % (
            F.count(b"\n") - 1, len(ref["marks"])))
        total = ref["sim"].events
        before = content(out)
        fired = {}
        for c in plan["crashes"]:
            if c["at"] == "disk" and ref["disk"]:
                at = ref["disk"][int(c["x"] * len(ref["disk"]))] + (1 if c["x"] * 1000 % 1 < .3 else 0)
            elif c["at"] == "late":
                at = max(1, int(total * (1 - .1 * c["x"])))
            else:
                at = 1 + int(c["x"] * total)
            r = play(ctx, plan, root, out, at, c["torn"])
            for k, v in r["sim"].fired.items():
                fired[k] = fired.get(k, 0) + v
            C = r["data"]
            was, before = before, C
            if not r["crashed"]:
                continue
            hits += bool(r["marks"])
            where = "crash at event %d of %d" % (at, total)
            if C == was and not r["marks"]:
                continue        # it died before it had begun
            ctx.check(C is not None, "file-lost", lambda: "%s: there is no file" % where)
            ctx.check(F.startswith(C), "not-a-prefix", lambda: "%s: the file holds %r where the uninterrupted run has %r" % (
                where, tail(C, F), tail(F, C)))
            rows = max(0, C.count(b"\n") - 1)
            done = max(0, len(r["marks"]) - 1)
            ctx.check(rows >= done and (C.count(b"\n") > 0 or not r["marks"]), "rows-lost",
                      lambda: "%s: %d complete rows, %d steps had finished" % (where, rows, done))
            ctx.check(rows <= r["after"], "row-too-early", lambda: "%s: %d rows, %d requests had returned" % (
                where, rows, r["after"]))
            ctx.check(r["marks"] == list(range(len(r["marks"]))), "rows-late",
                      lambda: "rows in the file when the requests began: %s" % r["marks"][:12])
        # and once more, to the end
        r = play(ctx, plan, root, out)
        ctx.check(not r["crashed"] and r["data"] is not None and blank(r["data"], plan) == blank(F, plan), "rerun-differs",
                  lambda: "the run after the crash left %r where an uninterrupted one has %r" % (
                      tail(r["data"] or b"", F), tail(F, r["data"] or b"")))
    sim = r["sim"]
    for k, v in fired.items():
        sim.fired[k] = sim.fired.get(k, 0) + v
    return sim_stats(sim, ctx, sig=str(plan["config"]["metrics"]), nontrivial=hits > 0)


def tail(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return a[max(0, k - 20):k + 40]
