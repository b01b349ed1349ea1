"""The memory metric counts exactly the growth between start and stop."""
import numpy as np

from ais_benchmarks.metrics.performance import CMemoryUsage

from ..bench import *
from ..common import *

PID = "M02"
RUNS = {"quick": 12000, "thorough": 200000}
RULE = ("One to three memory metrics go through a random schedule of starts, stops, resets and readings while a simulated "
        "heap grows and shrinks inside, outside and across the pairs; in a third of the runs a whole benchmark runs with "
        "methods that allocate while sampling and while being evaluated, other metrics in between, and its memory column is "
        "compared with the growth during the requests. Non-trivial: at least two pairs with growth were measured.")
REAL = ["ais_benchmarks.metrics.performance.CMemoryUsage", "ais_benchmarks.benchmark.CBenchmark (a third of the runs)"]
STUB = ["heap size (guppy.hpy().heap().size)", "clock", "scripted sampling methods and targets"]
SHRINK = ("acts",)

SIZES = [0, 1, 8, 1000, 10 ** 6, 123456789, -1, -5000, -10 ** 6, 3 * 10 ** 9]


def gen(rnd, i, tier):
    plan = {"seed": rnd.randint(0, 2 ** 31 - 1), "start": rnd.choice([0, 10 ** 6, 5 * 10 ** 8])}
    if i % 3 == 2:
        names = rnd.sample(NAMES, len(NAMES))
        plan["targets"] = [sim_target(rnd, names.pop(), k, cost=0.0) for k in range(rnd.choice([1, 2]))]
        plan["methods"] = [sim_method(rnd, names.pop(), yields=[rnd.choice([0, 0, 2, ["f", .5]])],
                                      heap=[rnd.choice(SIZES) for _ in range(rnd.choice([1, 3]))],
                                      query_heap=rnd.choice([0, 10 ** 5, -7 * 10 ** 6, 10 ** 7]),
                                      evaluate=rnd.random() < .5) for k in range(rnd.choice([1, 2]))]
        m = ["MEM"] + [m for m in METRICS if m != "MEM" and (rnd.random() < .5 if m != "T" else rnd.random() < .1)]
        rnd.shuffle(m)
        plan["config"] = {"nreps": rnd.choice([1, 2]), "rseed": 0, "metrics": m}
        return plan
    plan["instances"] = rnd.choice([1, 1, 2, 3])
    acts = []
    for _ in range(rnd.randint(3, 40)):
        j = rnd.randrange(plan["instances"])
        acts.append(rnd.choice([["pair", j, rnd.choice(SIZES)], ["pre", j], ["post", j], ["grow", rnd.choice(SIZES)],
                                ["reset", j], ["read", j], ["pair", j, rnd.randint(-10 ** 7, 10 ** 8)]]))
    plan["acts"] = acts
    return plan


def run(plan, known):
    ctx = Ctx(known)
    if "targets" in plan:
        return run_column(ctx, plan)
    measured = 0
    with simple_sim(plan, max_events=20000) as sim:
        size = [plan["start"]]
        sim.heap = lambda: size[0]
        ms = [ctx.call("construct", CMemoryUsage) for _ in range(plan["instances"])]
        total = [0] * len(ms)       # bytes
        started = [None] * len(ms)
        for m in ms:
            ctx.call("reset", m.reset)

        def verify(j):
            m = ms[j]
            v = float(ctx.call("compute", m.compute))
            want = total[j] / 1e6
            ctx.check(abs(v - want) <= 1e-9 * (1 + abs(want)), "wrong-memory", lambda: "reads %r MB, the heap grew %r bytes "
                      "between its starts and stops" % (v, total[j]))
            ctx.check(m.value == v, "wrong-memory", lambda: "value %r, compute %r" % (m.value, v))
        for a in plan["acts"]:
            if a[0] == "grow":
                size[0] += a[1]
                continue
            j = a[1]
            m = ms[j]
            if a[0] == "pair":
                if started[j] is not None:
                    continue
                ctx.call("pre", m.pre)
                size[0] += a[2]
                ctx.call("post", m.post)
                total[j] += a[2]
                measured += bool(a[2])
            elif a[0] == "pre" and started[j] is None:
                ctx.call("pre", m.pre)
                started[j] = size[0]
            elif a[0] == "post" and started[j] is not None:
                ctx.call("post", m.post)
                total[j] += size[0] - started[j]
                measured += size[0] != started[j]
                started[j] = None
            elif a[0] == "reset" and started[j] is None:
                ctx.call("reset", m.reset)
                total[j] = 0
            if a[0] == "read" or started[j] is None:
                verify(j)
        for j in range(len(ms)):
            verify(j)
    return sim_stats(sim, ctx, sig=str(plan["instances"]), nontrivial=measured > 1)


def run_column(ctx, plan):
    with Arena() as arena, simple_sim(plan, max_events=300000) as sim:
        arm(sim, arena.root)
        sim.heap_size = plan["start"]
        sizes = []
        tap = RequestTap(lambda *a, **k: sizes.append([sim.heap_size]), lambda *a, **k: sizes[-1].append(sim.heap_size))
        out = os.path.join(arena.root, "results.txt")
        np.random.seed(plan["seed"])
        try:
            ctx.call("run", run_bench, write_files(arena.root, plan), out, 1e12)
        finally:
            tap.close()
        sim.root = None
        data = content(out)
    head, rows, last = columns(data)
    steps = [(c["who"], c["gen"]) for c in sim.calls if c["what"] == "request"]
    ctx.check(len(rows) == len(steps) == len(sizes), "number-of-rows", lambda: "%d rows for %d requests" % (len(rows), len(steps)))
    col = head.index("MEM")
    acc = {}
    grown = 0
    for r, key, (a, b) in zip(rows, steps, sizes):
        grown += a != b
        acc[key] = acc.get(key, 0) + b - a
        want = acc[key] / 1e6
        v = float(r[col])
        ctx.check(abs(v - want) <= 1e-5 * (1 + abs(want)) * 1.01, "wrong-memory-column", lambda: "the memory column says %r, the "
                  "heap grew by %r bytes during this repetition's requests" % (v, acc[key]))
    return sim_stats(sim, ctx, sig="column", nontrivial=grown > 1)
