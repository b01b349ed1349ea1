"""A seeded benchmark is reproducible."""
import random

import numpy as np

from ..bench import *
from ..common import *
from ..harness import in_fork
from ..other import call as in_other

PID = "R01"
RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("The same files are run in a new process and again in a process with another ambient random state, after other "
        "benchmarks (finished, failed or in the same benchmark object), with another hash seed, at another wall-clock time and speed, with stalls "
        "and clock jumps inside the budget. The two results files must agree outside the time and memory columns. Real "
        "methods and targets, and scripted methods that draw from the ambient stream. Non-trivial: at least two rows.")
REAL = REAL_BENCH + ["sampling methods", "distributions"]
STUB = STUB_BENCH
SHRINK = ("targets", "methods", "metrics", "history")
SLOW = ("rej", "mh")


def gen_pairs(rnd, n_t, n_m, real_only=False, shared=False):
    names = rnd.sample(NAMES, len(NAMES))
    targets = []
    for k in range(n_t):
        if rnd.random() < .35:
            targets.append(real_target(rnd, names.pop()))
        else:
            targets.append(sim_target(rnd, names.pop(), k, dims=rnd.choice([1, 1, 2])))
    methods = []
    for k in range(n_m):
        if real_only or rnd.random() < .75:
            m = real_method(rnd, names.pop())
            if m["kind"] in SLOW and rnd.random() < .6:
                m = real_method(rnd, m["name"], rnd.choice(["dm", "pmc", "hid", "tp", "nested"]))
            m.pop("kind")
        else:
            m = sim_method(rnd, names.pop(), yields=[rnd.choice([0, 0, 2, ["f", .5]]) for _ in range(2)],
                           durations=[rnd.choice([.01, 1.0])], rng=True)
        methods.append(m)
    return targets, methods


def gen(rnd, i, tier):
    targets, methods = gen_pairs(rnd, rnd.choice([1, 1, 2]), rnd.choice([1, 1, 2]))
    metrics = [m for m in METRICS if rnd.random() < .45 and (m not in ("T", "MEM") or rnd.random() < .2)]
    history = []
    for _ in range(rnd.choice([0, 0, 1, 2])):
        t, m = gen_pairs(rnd, 1, rnd.choice([1, 2]))
        if rnd.random() < .5:
            m = rnd.sample(methods, 1)     # the same method, on something else
        history.append({"targets": t, "methods": m, "fail": rnd.choice([None, None, rnd.randint(1, 60)]),
                        "config": {"nreps": 1, "rseed": rnd.choice([-1, 0, 9]), "metrics": rnd.sample(["JSD", "KLD", "EVMSE"], 2)}})
    horizon = 1500
    return {"targets": targets, "methods": methods, "config": {"nreps": rnd.choice([1, 1, 2]), "rseed": rnd.choice([0, 0, 1, 4242, 2 ** 31]),
                                                               "metrics": metrics},
            "history": history, "same_object": rnd.random() < .3, "ambient": [rnd.randint(0, 2 ** 31 - 1) for _ in range(2)],
            "hash": rnd.choice([0] * 8 + [7, 1234]), "draws": rnd.choice([0, 1, 7]), "wall_offset": rnd.choice([0.0, -5e8, 1e9, 12345.678]), "speed": rnd.choice([1, 1, .01, 40.0]),
            "read_cost": rnd.choice([1e-6, 1e-3]),
            "stalls": {str(rnd.randint(1, horizon)): rnd.choice([.01, 1.0, 30.0, 100.0]) for _ in range(rnd.choice([0, 2, 5]))},
            "jumps": {str(rnd.randint(1, horizon)): rnd.choice([-300.0, -1.0, .5, 60.0, 500.0]) for _ in range(rnd.choice([0, 0, 2, 4]))}}


def seed_all(n, draws=0):
    np.random.seed(n)
    random.seed(n)
    for _ in range(draws):
        np.random.normal()


def first(plan, known):
    ctx = Ctx(known)
    with Arena() as arena, simple_sim({"read_cost": 1e-5}, max_events=400000) as sim:
        arm(sim, arena.root)
        out = os.path.join(arena.root, "results.txt")
        seed_all(plan["ambient"][0])
        ctx.call("run", run_bench, write_files(arena.root, plan), out)
        sim.root = None
        return content(out)


def run(plan, known):
    ctx = Ctx(known)
    if plan.get("hash"):
        a = in_other(plan["hash"], __name__, "first", plan, known)
    else:
        a = in_fork(lambda: first(plan, known))
    with Arena() as arena, simple_sim(plan, max_events=800000) as sim:
        arm(sim, arena.root)
        sim.speed = plan["speed"]
        out = os.path.join(arena.root, "results.txt")
        bench = CBenchmark()
        stalls, jumps, sim.stalls, sim.jumps = sim.stalls, sim.jumps, {}, {}
        for h in plan["history"]:
            seed_all(plan["ambient"][0] ^ 1)
            count = {"n": 0}

            def on_eval(t, x, res):
                count["n"] += 1
                if h["fail"] == count["n"]:
                    sim.fire("target_failure")
                    raise SimFault("failed")
            sim.on_eval = on_eval
            try:
                run_bench(write_files(arena.root, h), out if plan["same_object"] else out + ".old", bench=bench)
            except SimFault:
                ctx.probe("history_aborted")
            except Exception:
                ctx.probe("history_raised")
            sim.on_eval = None
        sim.stalls = {k + sim.events: v for k, v in stalls.items()}
        sim.jumps = {k + sim.events: v for k, v in jumps.items()}
        seed_all(plan["ambient"][1], plan["draws"])
        ctx.call("run", run_bench, write_files(arena.root, plan), out, bench=bench if plan["same_object"] else None)
        sim.root = None
        b = content(out)
        if plan.get("hash"):
            sim.fire("other_hash_seed")
    x, y = unmeasured(a), unmeasured(b)
    j = 0
    while j < min(len(x), len(y)) and x[j] == y[j]:
        j += 1
    ctx.check(x == y, "not-reproducible", lambda: "line %d: %s, in a new process: %s" % (
        j, " ".join(y[j]) if j < len(y) else "missing", " ".join(x[j]) if j < len(x) else "missing"))
    ctx.probe("rows_compared", len(x) - 2)
    return sim_stats(sim, ctx, sig=str([m.get("type") for m in plan["methods"]] + [t.get("type") for t in plan["targets"]]),
                     nontrivial=len(x) > 3)
