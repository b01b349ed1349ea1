"""The benchmark runs the configured experiment, completely and in order."""
import numpy as np

from ..bench import *
from ..common import *

PID = "R06"
RUNS = {"quick": 5000, "thorough": 60000}
RULE = ("Scripted methods that overshoot, undershoot or deliver exactly what they are asked for are benchmarked on one to "
        "four targets of different dimensions and bounds, names repeated in some runs, sometimes by a benchmark object that "
        "ran another experiment before. The recorded constructions, resets and requests and the rows of the file are "
        "compared with the schedule the files describe. Non-trivial: at least two (method, target, repetition) groups ran.")
REAL = REAL_BENCH
STUB = STUB_BENCH
SHRINK = ("targets", "methods", "metrics")


def gen_bench(rnd, names=None):
    names = names or rnd.sample(NAMES, len(NAMES))
    targets = [sim_target(rnd, names.pop(), k) for k in range(rnd.choice([1, 2, 2, 3, 4]))]
    methods = []
    for k in range(rnd.choice([1, 2, 2, 3])):
        m = sim_method(rnd, names.pop(), tag=k,
                       yields=[rnd.choice([0, 0, 0, 1, 4, -1, ["f", .5], ["f", .3]]) for _ in range(rnd.choice([1, 3, 4]))],
                       durations=[rnd.choice([0.0, .001, .5, 20])], least=rnd.choice([0, 1, 1, 1]),
                       rng=rnd.random() < .3, cost=rnd.choice([0, 0, 3.0]))
        s = m["params"]["script"]
        if all(y == -1 or isinstance(y, list) for y in s["yields"]):
            s["yields"].append(1)      # otherwise it would never finish
        extra = {"alpha": rnd.choice([0, 1, -3, 10 ** 6]), "beta": rnd.choice([.25, 1e-4, -2.5]),
                 "gamma": rnd.choice([None, True, False]), "delta": [1, [2.5, 3]], "mode": rnd.choice(["simple", "a b", "x"])}
        m["params"].update({k: v for k, v in extra.items() if rnd.random() < .5})
        methods.append(m)
    if len(targets) > 1 and rnd.random() < .25:
        targets[1]["name"] = targets[0]["name"]
    if len(methods) > 1 and rnd.random() < .15:
        methods[1]["name"] = methods[0]["name"]
    return {"targets": targets, "methods": methods,
            "config": {"nreps": rnd.choice([1, 1, 2, 3]), "rseed": rnd.choice([-1, 0, 11]),
                       "metrics": [m for m in METRICS if rnd.random() < .3 and m != "T"]}}


def gen(rnd, i, tier):
    if i % 8 == 3:
        names = rnd.sample(NAMES, len(NAMES))
        t = sim_target(rnd, names.pop(), 0, dims=rnd.choice([1, 1, 2]))
        t["nsamples"] = rnd.randint(2, 60)
        return {"fresh": True, "targets": [t], "methods": [real_method(rnd, names.pop())],
                "config": {"nreps": rnd.choice([2, 2, 3]), "rseed": -1, "metrics": [m for m in ("JSD", "KLD", "EVMSE") if rnd.random() < .5]},
                "seed": rnd.randint(0, 2 ** 31 - 1), "read_cost": 1e-5}
    plan = gen_bench(rnd)
    plan.update({"seed": rnd.randint(0, 2 ** 31 - 1), "before": None, "read_cost": 1e-5,
                 "stalls": gen_faults(rnd, 300, .5)["stalls"],
                 "jumps": {str(rnd.randint(1, 300)): rnd.choice([-1e5, -50, 60, 3e4]) for _ in range(rnd.choice([0, 0, 2]))}})
    if rnd.random() < .2:
        plan["before"] = gen_bench(rnd)
    # the budget is not what ends these runs
    return plan


def eight_digits(v):
    """What numpy prints of the numbers."""
    return [float(x) for x in np.array2string(np.array(v), separator=" ").strip("[]").split()]


class Reseed:
    """Every reset from outside puts the random stream where it was at the first one."""

    def __init__(self, seed):
        self.depth = self.n = 0
        self.orig = []
        for cls in {b for c, _ in REAL_METHODS.values() for b in getattr(SM, c).__mro__}:
            fn = cls.__dict__.get("reset")
            if fn is not None:
                self.orig.append((cls, fn))
                cls.reset = self.wrap(fn, seed)

    def wrap(self, fn, seed):
        def reset(method, *a, **k):
            self.depth += 1
            if self.depth == 1:
                self.n += 1
                np.random.seed(seed)
            try:
                return fn(method, *a, **k)
            finally:
                self.depth -= 1
        return reset

    def close(self):
        for cls, fn in self.orig:
            cls.reset = fn


def run_fresh(plan, known):
    """Repetitions of a real method that start at the same place of the random stream give the same rows."""
    ctx = Ctx(known)
    with Arena() as arena, simple_sim(plan, max_events=400000) as sim:
        arm(sim, arena.root)
        out = os.path.join(arena.root, "res", "results.txt")
        tap = Reseed(plan["seed"])
        try:
            ctx.call("run", run_bench, write_files(arena.root, plan), out, 1e12)
        finally:
            tap.close()
        sim.root = None
        head, *rows, last = unmeasured(content(out))
    reps = plan["config"]["nreps"]
    n = len(rows) // reps
    kind = plan["methods"][0]["kind"]
    for j in range(len(rows)):
        ctx.check(len(rows) == n * reps and rows[j] == rows[j % n], "not-a-fresh-start:" + kind,
                  lambda: "%d rows of %d repetitions on the same random stream; row %d says %s, the first repetition %s" % (
                      len(rows), reps, j, " ".join(rows[j]), " ".join(rows[j % max(n, 1)])))
    return sim_stats(sim, ctx, sig="fresh:" + kind, nontrivial=n > 1)


def run(plan, known):
    if plan.get("fresh"):
        return run_fresh(plan, known)
    ctx = Ctx(known)
    with Arena() as arena, simple_sim(plan, max_events=300000) as sim:
        arm(sim, arena.root)
        out = os.path.join(arena.root, "res", "results.txt")
        np.random.seed(plan["seed"])
        bench = None
        if plan["before"]:
            bench = ctx.call("run", run_bench, write_files(arena.root, plan["before"]), out, 1e12)
            sim.calls = []
        files = write_files(arena.root, plan)
        ctx.call("run", run_bench, files, out, 1e12, bench)
        sim.root = None
        data = content(out)
    n = compare(ctx, plan, sim.calls, data)
    return sim_stats(sim, ctx, sig="%d/%d/%d" % (len(plan["targets"]), len(plan["methods"]), plan["config"]["nreps"]),
                     nontrivial=n > 1)


def compare(ctx, plan, calls, data):
    born = {id(c["method"]): c for c in calls if c["what"] == "new"}
    groups = []
    for c in calls:
        if c["what"] == "request":
            key = (c["who"], c["gen"])
            if not groups or groups[-1]["key"] != key:
                groups.append({"key": key, "requests": []})
            groups[-1]["requests"].append(dict(c, total=None))
        elif c["what"] == "done" and groups:
            groups[-1]["requests"][-1]["total"] = c["total"]
    want = [(t, m, r) for t in plan["targets"] for m in plan["methods"] for r in range(plan["config"]["nreps"])]
    label = lambda g: "%s on %s" % (g["requests"][0]["name"], g["requests"][0]["target"].name)
    seen = set()
    for j, (t, m, r) in enumerate(want):
        where = "target %s method %s repetition %d" % (t["name"], m["name"], r)
        ctx.check(j < len(groups), "missing", lambda: "%s was not evaluated" % where)
        g = groups[j]
        req = g["requests"]
        ctx.check(g["key"] not in seen, "not-reset", lambda: "%s continues an earlier repetition" % where)
        seen.add(g["key"])
        for c in req:
            ctx.check(c["target"].p == t["params"] and c["target"].name == t["name"], "wrong-target",
                      lambda: "expected %s, got %s" % (where, label(g)))
        b = born[req[0]["who"]]
        meth = b["method"]
        ctx.check(req[0]["name"] == m["name"] and meth.script == m["params"]["script"], "wrong-method",
                  lambda: "expected %s, got %s" % (where, label(g)))
        sup = [[float(x) for x in v] for v in t["params"]["support"]]
        if [b["lo"], b["hi"]] != sup and [b["lo"], b["hi"]] == [eight_digits(v) for v in sup]:
            ctx.violate("bounds-rounded-to-8-digits", "%s: built for %s to %s, the target has %s" % (where, b["lo"], b["hi"], sup))
        else:
            ctx.check(b["dims"] == len(sup[0]) and [b["lo"], b["hi"]] == sup, "wrong-bounds",
                      lambda: "%s: built for %d dimensions, %s to %s" % (where, b["dims"], b["lo"], b["hi"]))
        for k, v in m["params"].items():
            ctx.check(k in meth.given and meth.given[k] == v and type(meth.given[k]) is type(v), "wrong-parameter",
                      lambda: "%s: parameter %s is %r, configured %r" % (where, k, meth.given.get(k), v))
        ctx.check(req[0]["have"] == 0, "not-reset", lambda: "%s starts with %d samples" % (where, req[0]["have"]))
        have = 0
        for k, c in enumerate(req):
            ctx.check(c["n"] == have + t["batch_size"], "wrong-request", lambda: "%s: request %d asks for %d samples with "
                      "%d held, batch %d" % (where, k, c["n"], have, t["batch_size"]))
            ctx.check(have < t["nsamples"], "too-many-requests",
                      lambda: "%s: request %d with %d of %d samples held" % (where, k, have, t["nsamples"]))
            have = c["total"]
        ctx.check(have >= t["nsamples"], "too-few-samples",
                  lambda: "%s ended with %d of %d samples" % (where, have, t["nsamples"]))
    ctx.check(len(groups) == len(want), "extra", lambda: "%d groups of requests for %d configured" % (len(groups), len(want)))
    ctx.check(data is not None, "no-file", "no results file")
    head, rows, last = columns(data)
    got = [int(dict(zip(head, r)).get("output_samples", -1)) for r in rows]
    totals = [c["total"] for g in groups for c in g["requests"]]
    ctx.check(got == totals, "rows-differ", lambda: "rows say %s, the requests gave %s" % (got[:12], totals[:12]))
    names = [(dict(zip(head, r)).get("method"), dict(zip(head, r)).get("target_d")) for r in rows]
    expect = [(c["name"], c["target"].name) for g in groups for c in g["requests"]]
    ctx.check(names == expect, "rows-differ", lambda: "rows name other methods or targets")
    return len(groups)
