"""Every row of the results file says what was measured, under the right column."""
import numpy as np

from ..bench import *
from ..common import *
from .M04 import definition
from .S13 import ness_values

PID = "R05"
RUNS = {"quick": 5000, "thorough": 60000}
RULE = ("A benchmark of scripted methods (and in some runs a real one) on one to three targets runs with a random selection "
        "and order of metrics. What each metric computed, what the method reported and how many samples it held is "
        "recorded by the simulator at that moment, with magnitudes from 1e-9 to 1e12, negative, infinite and undefined "
        "values; the file is parsed by its own header and compared. Non-trivial: at least two rows were compared.")
REAL = REAL_BENCH
STUB = STUB_BENCH
SHRINK = ("targets", "methods", "metrics")
EXACT = {"JSD": "JSD", "KLD": "KL", "EVMSE": "EVMSE", "T": "time", "MEM": "memory"}


def gen(rnd, i, tier):
    metrics = [m for m in METRICS if rnd.random() < .55]
    rnd.shuffle(metrics)
    names = rnd.sample(NAMES, len(NAMES))
    if i % 8 == 5:
        # real methods: the rows against an own account of their work
        d = rnd.choice([1, 1, 2])
        targets = [sim_target(rnd, names.pop(), k, dims=rnd.choice([d, d, 1])) for k in range(rnd.choice([1, 1, 2]))]
        m = real_method(rnd, names.pop())
        methods = [m] + ([cousin(rnd, m, names.pop())] if rnd.random() < .3 else [])
        if rnd.random() < .4:
            methods.append(real_method(rnd, names.pop()))
        return {"targets": targets, "methods": methods, "real": True,
                "config": {"nreps": rnd.choice([1, 2]), "rseed": rnd.choice([-1, 3]), "metrics": metrics},
                "timeout": 18000, "seed": rnd.randint(0, 2 ** 31 - 1), "values": None, "read_cost": 1e-5}
    targets = [sim_target(rnd, names.pop(), k) for k in range(rnd.choice([1, 1, 2, 3]))]
    methods = []
    for k in range(rnd.choice([1, 1, 2, 3])):
        big = lambda: rnd.choice([0, 1, 7, rnd.randint(0, 99), rnd.randint(1000, 99999), rnd.randint(10 ** 7, 10 ** 9)])
        methods.append(sim_method(rnd, names.pop(), yields=[rnd.choice([0, 0, 1, 3, ["f", .5]]) for _ in range(3)],
                                  durations=[rnd.choice([.001, .2, 7, 1e4])], respect=False,
                                  ness=[rnd.choice([0.0, .25, 1.0, 3.7, 1234.5, .0004, 12345678.9]) for _ in range(3)],
                                  acc=[rnd.choice([1.0, .5, .001, 0.0, 42.0, 123456.7]) for _ in range(2)],
                                  counts=[[big(), big(), big()] for _ in range(3)],
                                  heap=[rnd.choice([0, 123, -4000, 5 * 10 ** 6, 10 ** 10]) for _ in range(3)]))
    return {"targets": targets, "methods": methods,
            "config": {"nreps": rnd.choice([1, 1, 2]), "rseed": rnd.choice([-1, 0, 3, 77]), "metrics": metrics},
            "timeout": rnd.choice([18000, 18000, 5.0]), "seed": rnd.randint(0, 2 ** 31 - 1),
            "values": [rnd.choice([None, None, 0.0, 1e-9, 3.14159265, 99999.123456, 1e6, 123456789.123, -7.25, 1e12,
                                   "nan", "inf"]) for _ in range(7)] if rnd.random() < .7 else None,
            "read_cost": 1e-5}


class Account:
    """An own account of the work of real methods, request by request."""

    def __init__(self, ctx, sim, plan):
        self.ctx, self.sim = ctx, sim
        self.kinds = {m["name"]: m["kind"] for m in plan["methods"]}
        self.names = {m["name"] for m in plan["methods"]}
        self.depth = 0
        self.orig = []
        self.work = {}
        self.now = None
        for cls in {b for c, _ in REAL_METHODS.values() for b in getattr(SM, c).__mro__}:
            for name, wrap in (("importance_sample", self.request), ("reset", self.reset)):
                fn = cls.__dict__.get(name)
                if fn is not None:
                    self.orig.append((cls, name, fn))
                    setattr(cls, name, wrap(fn))
        Draws.install()
        sim.on_draw = self.draw
        sim.on_eval = self.eval

    def draw(self, dist, res, depth):
        if depth == 0 and self.depth > 0 and np.size(res):
            self.now[0] += np.size(res) // self.dims

    def eval(self, t, x, res):
        if self.depth > 0 and not t.quiet:
            self.now[1] += len(x)

    def reset(self, fn):
        def reset(method, *a, **k):
            depth, self.depth = self.depth, 0
            try:
                return fn(method, *a, **k)
            finally:
                self.depth = depth
                self.work.pop(id(method), None)
        return reset

    def request(self, fn):
        def importance_sample(method, *a, **k):
            target = a[0] if a else k["target_d"]
            self.depth += 1
            self.dims = target.dims
            if self.depth == 1:
                self.now = self.work.setdefault(id(method), [0, 0])
            try:
                res = fn(method, *a, **k)
            finally:
                self.depth -= 1
            if self.depth == 0:
                x = np.array(res[0], dtype=float).reshape(-1, target.dims)
                w = np.array(res[1], dtype=float).reshape(-1)
                ness = ness_values(self.kinds[method.name], x, w) if len(x) and np.sum(w) > 0 else None
                self.sim.calls.append({"what": "request", "target": target})
                self.sim.calls.append({"what": "done", "total": len(x), "name": method.name, "ness": ness, "dims": target.dims,
                                       "acc": len(x) / self.now[0] if self.now[0] else None,
                                       "counters": [self.now[0], method.num_proposal_evals, self.now[1]]})
            return res
        return importance_sample

    def close(self):
        for cls, name, fn in self.orig:
            setattr(cls, name, fn)


class MetricTap:
    """Records, and in some runs replaces, what every metric computes."""

    def __init__(self, sim, values, account=None):
        self.account = account
        from ais_benchmarks.metrics import divergences, performance, statistics
        self.orig = []
        self.n = 0
        self.sim = sim
        self.values = values
        for key, cls in (("JSD", divergences.CJSDivergence), ("KLD", divergences.CKLDivergence),
                         ("EVMSE", statistics.CExpectedValueMSE), ("T", performance.CElapsedTime),
                         ("MEM", performance.CMemoryUsage)):
            old = cls.__dict__.get("compute")
            fn = cls.compute
            self.orig.append((cls, old))
            cls.compute = self.wrap(key, fn)

    def wrap(self, key, fn):
        def compute(metric, *a, **k):
            if self.account is None or key not in ("JSD", "KLD", "EVMSE") or "p" not in k:
                v = fn(metric, *a, **k)
            else:
                v = self.verified(key, fn, metric, a, k)
            if "p" not in k:
                return v
            if self.values:
                r = self.values[self.n % len(self.values)]
                self.n += 1
                if r is not None:
                    v = float(r)
                    metric.value = v
            self.sim.calls.append({"what": "metric", "key": key, "value": float(v)})
            return v
        return compute

    def verified(self, key, fn, metric, a, k):
        """The metric, and its definition on the points it used."""
        pts = []
        old = self.sim.on_eval
        self.sim.on_eval = lambda t, x, res: pts.append((np.array(x), np.array(res))) and None
        try:
            v = fn(metric, *a, **k)
        finally:
            self.sim.on_eval = old
        if len(pts) != 1:
            return v
        x = pts[0][0].reshape(-1, k["p"].dims)
        state = np.random.get_state()
        k["p"].quiet = True
        with np.errstate(all="ignore"):
            if key == "KLD":
                p, q = [np.array(d.log_prob(x), dtype=float).reshape(-1) for d in (k["p"], k["q"])]
                want = None
                if np.isfinite(p).all() and np.isfinite(q).all():
                    b = [e - np.log(np.sum(np.exp(e - e.max()))) - e.max() for e in (p, q)]
                    want = float(np.sum(np.exp(b[0]) * (b[0] - b[1])))
            else:
                p, q = [np.array(d.prob(x), dtype=float).reshape(-1) for d in (k["p"], k["q"])]
                want = definition(key, p, q, x)
        k["p"].quiet = False
        np.random.set_state(state)
        if want is not None:
            self.account.ctx.probe("metrics_recomputed")
            self.account.ctx.check(len(x) == k["nsamples"], "metric:" + key, lambda: "%d points instead of %d" % (len(x), k["nsamples"]))
            scale = 1.0 if key != "EVMSE" else 1.0 + float(np.max(np.abs(x))) ** 2
            self.account.ctx.check(abs(v - want) <= 1e-6 * max(abs(want), 1e-3 * scale), "metric:" + key,
                                   lambda: "%s of %s is %r, by its definition %r" % (key, k["q"].name, v, want))
        return v

    def close(self):
        for cls, old in self.orig:
            if old is None:
                del cls.compute
            else:
                cls.compute = old


def expected_rows(sim, plan):
    """One dictionary per finished request, from what the simulator saw."""
    rows = []
    cur = None
    target = None
    for c in sim.calls:
        if c["what"] == "request":
            target = c["target"]
            cur = None
        elif c["what"] == "done":
            cur = {"output_samples": c["total"], "dims": target.dims, "NESS": c["ness"], "method": c["name"],
                   "target_d": target.name, "accept_rate": c["acc"], "proposal_samples": c["counters"][0],
                   "proposal_evals": c["counters"][1], "target_evals": c["counters"][2], "metrics": {}, "call": c}
            rows.append(cur)
        elif c["what"] == "metric" and cur is not None:
            cur["metrics"].setdefault(c["key"], c["value"])
    return rows


def number(w):
    return float(w)


def near(a, b, tol):
    if a != a or b != b:
        return a != a and b != b
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= tol + 1e-12 * abs(b)


def run(plan, known):
    ctx = Ctx(known)
    with Arena() as arena, simple_sim(plan, max_events=400000) as sim:
        arm(sim, arena.root)
        files = write_files(arena.root, plan)
        out = os.path.join(arena.root, "res", "results.txt")
        np.random.seed(plan["seed"])
        account = Account(ctx, sim, plan) if plan.get("real") else None
        tap = MetricTap(sim, plan["values"], account)
        try:
            ctx.call("run", run_bench, files, out, plan["timeout"])
        finally:
            tap.close()
            if account:
                account.close()
        sim.root = None
        data = content(out)
    want = expected_rows(sim, plan)
    ctx.check(data is not None, "no-file", "no results file")
    head, rows, last = parse(data)
    metrics = plan["config"]["metrics"]
    names = ["dims", "output_samples", "NESS", "method", "target_d", "accept_rate"] + INT_TAIL + \
        [m for m in metrics if m != "NESS"]
    if "NESS" in metrics and head == ["dims", "output_samples"] + metrics + ["NESS", "method", "target_d", "accept_rate"] + INT_TAIL:
        # a listed finding: the metric NESS is announced a second time and has no value there
        ctx.violate("header-lists-NESS-twice", "the header has a column NESS among the metrics %s and the usual one, the rows "
                    "have one value" % metrics)
        head.remove("NESS")
    ctx.check(sorted(head) == sorted(names), "header", lambda: "header %s for metrics %s" % (head, metrics))
    ctx.check(last == "", "torn-row", lambda: "the file ends with %r" % last[:80])
    for j, r in enumerate(rows):
        if len(r) != len(head) and unglue(head, r) is not r:
            ctx.violate("wide-NESS-runs-into-the-last-metric", "row %d: no space between the last metric and NESS: %s" % (
                j, " ".join(r)))
            r = rows[j] = unglue(head, r)
        ctx.check(len(r) == len(head), "values-per-row",
                  lambda: "row %d has %d values for %d columns: %s" % (j, len(r), len(head), " ".join(r)))
    # a request that ends the budget with nothing to measure writes no row
    want = [w for w in want if w["output_samples"] or w["metrics"] or not [m for m in metrics if m != "NESS"]]
    if any(w["output_samples"] == 0 for w in want) and len(rows) < len(want):
        want = [w for w in want if w["output_samples"]]
    ctx.check(len(rows) == len(want), "number-of-rows", lambda: "%d rows for %d evaluation steps" % (len(rows), len(want)))
    for j, (r, w) in enumerate(zip(rows, want)):
        v = dict(zip(head, r))

        def expect(ok, col):
            ctx.check(ok, "wrong-value:" + col, lambda: "row %d column %s says %s: expected %r (row: %s)" % (
                j, col, v[col], w.get(col, w["metrics"].get(col)), " ".join(r)))
        for col in ("dims", "output_samples"):
            expect(number(v[col]) == w[col], col)
        for col in INT_TAIL:
            expect(v[col].lstrip("-").isdigit() and int(v[col]) == w[col], col)
        for col in ("method", "target_d"):
            expect(v[col] == w[col], col)
        for col in ("NESS", "accept_rate"):
            if plan.get("real"):
                any_of = w[col] if isinstance(w[col], list) else [w[col]]
                if None not in any_of:
                    expect(any(near(number(v[col]), a, 5.01e-4 + 1e-6 * abs(a)) for a in any_of), col)
                continue
            expect(near(number(v[col]), w[col], 5.01e-4), col)
        for m in metrics:
            if m != "NESS":
                if m not in w["metrics"]:
                    ctx.probe("metric_not_seen")
                    continue
                expect(near(number(v[m]), w["metrics"][m], 5.01e-6), m)
    ctx.probe("rows_compared", len(rows))
    return sim_stats(sim, ctx, sig=str(metrics), nontrivial=len(rows) > 1)
