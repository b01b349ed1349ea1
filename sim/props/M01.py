"""The time metric counts exactly the time between start and stop."""
import numpy as np

from ais_benchmarks.metrics.performance import CElapsedTime

from ..bench import *
from ..common import *
from .R05 import MetricTap

PID = "M01"
RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("One or two elapsed-time metrics go through a random schedule of starts, stops, resets, readings and delays (inside, "
        "outside and between the pairs, overlapping between instances) on a simulated clock whose wall reading jumps and "
        "whose sleeps overshoot; in a third of the runs a whole benchmark with slow metrics and targets runs instead and "
        "its time column is compared with the time the requests took. Non-trivial: at least two pairs were measured.")
REAL = ["ais_benchmarks.metrics.performance.CElapsedTime", "ais_benchmarks.benchmark.CBenchmark (a third of the runs)"]
STUB = ["clock and sleep", "scripted sampling methods and targets"]
ASSUME = ["The calibration constant of an instance is the one its first pair shows; later pairs have to agree with it."]
SHRINK = ("acts",)


def gen(rnd, i, tier):
    plan = {"read_cost": rnd.choice([0.0, 1e-7, 1e-4]), "wall_offset": rnd.choice([0.0, 1e9, -1e6]),
            "jumps": {str(rnd.randint(1, 700)): rnd.choice([-1e6, -3.0, .5, 86400.0]) for _ in range(rnd.choice([0, 3, 10]))},
            "oversleep": rnd.choice([None, [1e-4], [0, 0, .05], [.002, .0005, .3, 0]]), "seed": rnd.randint(0, 2 ** 31 - 1)}
    if i % 3 == 2:
        names = rnd.sample(NAMES, len(NAMES))
        plan["targets"] = [sim_target(rnd, names.pop(), k, cost=rnd.choice([0.0, .01, 2.0])) for k in range(rnd.choice([1, 2]))]
        plan["methods"] = [sim_method(rnd, names.pop(), yields=[rnd.choice([0, 0, 2, ["f", .5]])],
                                      durations=[rnd.choice([0.0, .01, .5, 3.0, 100.0]) for _ in range(rnd.choice([1, 3]))],
                                      cost=rnd.choice([0.0, .1, 20.0]), evaluate=rnd.random() < .5)
                           for k in range(rnd.choice([1, 2]))]
        m = ["T"] + [m for m in METRICS if m != "T" and rnd.random() < .5]
        rnd.shuffle(m)
        plan["heap_cost"] = rnd.choice([0.0, .05, 7.0])
        plan["config"] = {"nreps": rnd.choice([1, 2]), "rseed": 0, "metrics": m}
        return plan
    plan["instances"] = rnd.choice([1, 1, 2])
    acts = []
    for _ in range(rnd.randint(4, 40)):
        j = rnd.randrange(plan["instances"])
        acts.append(rnd.choice([["pair", j, rnd.choice([0.0, 1e-6, .01, 1.0, 3600.0, rnd.uniform(0, 5)])],
                                ["pre", j], ["post", j], ["delay", rnd.choice([1e-3, 1.0, 500.0])], ["reset", j],
                                ["read", j], ["pair", j, rnd.uniform(0, .1)]]))
    plan["acts"] = acts
    return plan


class Ref:
    def __init__(self):
        self.pairs = []      # durations since the last reset
        self.started = None
        self.c = None


def run(plan, known):
    ctx = Ctx(known)
    if "targets" in plan:
        return run_column(ctx, plan)
    measured = 0
    with simple_sim(plan, max_events=20000) as sim:
        ms = [ctx.call("construct", CElapsedTime) for _ in range(plan["instances"])]
        refs = [Ref() for _ in ms]
        # the constant of each instance, from one pair of known length
        for m, r in zip(ms, refs):
            ctx.call("reset", m.reset)
            v = ctx.call("compute", m.compute)
            ctx.check(v == 0, "not-zero-after-reset", lambda: "a new metric reads %r after a reset" % v)
            ctx.call("pre", m.pre)
            sim.advance(0.25)
            ctx.call("post", m.post)
            r.c = 0.25 - float(ctx.call("compute", m.compute))
            if not plan["oversleep"]:
                ctx.check(abs(r.c) <= 1e-3 + 10 * plan["read_cost"], "constant", lambda: "the calibration constant is %r "
                          "on a clock that costs %r to read" % (r.c, plan["read_cost"]))
            ctx.call("reset", m.reset)

        def verify(j):
            m, r = ms[j], refs[j]
            want = sum(r.pairs) - len(r.pairs) * r.c
            v = float(ctx.call("compute", m.compute))
            tol = 1e-9 * (1 + sum(abs(x) for x in r.pairs)) + 1e-9
            ctx.check(abs(v - want) <= tol, "wrong-time", lambda: "reads %r after %d pairs of %.9g s in all (constant "
                      "%.3g): expected %.9g" % (v, len(r.pairs), sum(r.pairs), r.c, want))
            ctx.check(getattr(m, "value", v) == v, "wrong-time", lambda: "value %r, compute %r" % (m.value, v))
        for a in plan["acts"]:
            if a[0] == "delay":
                sim.advance(a[1])
                continue
            j = a[1]
            m, r = ms[j], refs[j]
            if a[0] == "pair":
                if r.started is not None:
                    continue
                ctx.call("pre", m.pre)
                sim.advance(a[2])
                ctx.call("post", m.post)
                r.pairs.append(a[2])
                measured += 1
            elif a[0] == "pre" and r.started is None:
                ctx.call("pre", m.pre)
                r.started = sim.now
            elif a[0] == "post" and r.started is not None:
                d = sim.now - r.started
                ctx.call("post", m.post)
                r.pairs.append(d)
                r.started = None
                measured += 1
            elif a[0] == "reset" and r.started is None:
                ctx.call("reset", m.reset)
                r.pairs = []
            verify(j)
            if a[0] == "read":
                verify(j)
        for j in range(len(ms)):
            verify(j)
    return sim_stats(sim, ctx, sig=str(plan["instances"]), nontrivial=measured > 1)


def run_column(ctx, plan):
    with Arena() as arena, simple_sim(plan, max_events=300000) as sim:
        arm(sim, arena.root)
        sim.heap_cost = plan["heap_cost"]
        out = os.path.join(arena.root, "results.txt")
        np.random.seed(plan["seed"])
        ctx.call("run", run_bench, write_files(arena.root, plan), out, 1e12)
        sim.root = None
        data = content(out)
    head, rows, last = columns(data)
    steps = []
    for c in sim.calls:
        if c["what"] == "request":
            steps.append([c["who"], c["gen"], c["now"], None])
        elif c["what"] == "done":
            steps[-1][3] = c["now"]
    ctx.check(len(rows) == len(steps), "number-of-rows", lambda: "%d rows for %d requests" % (len(rows), len(steps)))
    col = head.index("T")
    const = {}
    acc = {}
    for r, (who, gen, t0, t1) in zip(rows, steps):
        n, s = acc.get((who, gen), (0, 0.0))
        n, s = n + 1, s + t1 - t0
        acc[who, gen] = (n, s)
        v = float(r[col])
        # one constant per method and target: the metric is built once for a pair
        c = const.get(who, (s - v) / n)
        h = plan["heap_cost"]
        bound = 1e-3 + 20 * plan["read_cost"] + max(plan["oversleep"] or [0.0])
        if "MEM" in plan["config"]["metrics"] and h > 2 * bound and abs(s - v + n * h) <= n * bound + 1.2e-5:
            # one measurement of the heap of each pair is inside
            ctx.violate("memory-measurement-in-the-time-column", "the time column says %r after %d requests of %.6f s in all, "
                        "measuring the heap takes %.3f s" % (v, n, s, h))
            s += n * h
            c = const.get(who, (s - v) / n)
        const.setdefault(who, c)
        tol = 1.2e-5 * (n + 1) + 20 * n * plan["read_cost"] + 1e-9 * s
        ctx.check(abs(v - (s - n * c)) <= tol, "wrong-time-column", lambda: "the time column says %r after %d requests of "
                  "%.6f s in all, with a constant of %.6f per request" % (v, n, s, c))
        if not plan["oversleep"]:
            ctx.check(abs(c) <= 1e-3 + 20 * plan["read_cost"], "wrong-time-column", lambda: "the time column says %r after "
                      "%d requests of %.6f s" % (v, n, s))
    return sim_stats(sim, ctx, sig="column", nontrivial=len(rows) > 1)
