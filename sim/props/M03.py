"""Measuring does not disturb what is measured."""
import numpy as np

from ais_benchmarks.distributions import CGaussianMixtureModel, CMultivariateNormal
from ais_benchmarks.metrics.divergences import CJSDivergence, CKLDivergence
from ais_benchmarks.metrics.statistics import CExpectedValueMSE

from ..bench import *
from ..common import *

PID = "M03"
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("Two simulations of the same sampler, target and random stream go through the same history of requests, time limits, "
        "draws, density queries and resets; in one of them metrics are computed and statistics are read at random moments "
        "between the requests, taking simulated time, with the random stream put back afterwards. Everything a user can see "
        "must be the same in both. In a fifth of the runs two whole benchmarks with different metric lists are compared. "
        "Non-trivial: an observation that succeeded was followed by a request.")
REAL = REAL_SAMPLERS + ["ais_benchmarks.metrics", "ais_benchmarks.benchmark.CBenchmark (a fifth of the runs)"]
STUB = STUB_SAMPLERS
ASSUME = ["Samplers that approximate their density from drawn indices build that approximation when it is first asked for; "
          "both histories ask for it right after each request so that it comes from the same part of the random stream."]
SHRINK = ("ops",)

METRIC = {"JSD": CJSDivergence, "KLD": CKLDivergence, "EVMSE": CExpectedValueMSE}
WHAT = ["JSD", "KLD", "EVMSE", "stats", "ness", "approx_ness", "acc", "prob", "log_prob", "prob_at_samples", "counters",
        "from_samples", "names"]


def gen(rnd, i, tier):
    if i % 5 == 4:
        names = rnd.sample(NAMES, len(NAMES))
        return {"bench": True, "targets": [real_target(rnd, names.pop())],
                "methods": [real_method(rnd, names.pop())],
                "config": {"nreps": rnd.choice([1, 2]), "rseed": rnd.choice([-1, 3]), "metrics": []},
                "lists": [[m for m in ("JSD", "KLD", "EVMSE", "MEM", "NESS") if rnd.random() < .5] for _ in range(2)],
                "seed": rnd.randint(0, 2 ** 31 - 1)}
    dims = some_dims(rnd, [1, 1, 2, 3])
    kind = rnd.choice(KINDS)
    lo, hi = gen_domain(rnd, dims, cubic=True if kind == "tp" else None)
    while kind == "mh" and max(abs(a + b) / (b - a) for a, b in zip(lo, hi)) > 8:
        # the chain starts near the origin; where the target is 0 all around it can keep every request busy until its timeout
        lo, hi = gen_domain(rnd, dims)
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    t = gen_target(rnd, lo, hi)
    while kind == "mh" and t["kind"] == "box":
        t = gen_target(rnd, lo, hi)
    t["cost"] = rnd.choice([.001, .003])
    real = rnd.random() < .4
    if real:
        # a distribution of the package as the target
        t = gen_target(rnd, lo, hi, kinds=("gmm",))
        t["real"] = rnd.choice(["gmm", "normal"])
    slow = rnd.random() < .5        # observations take time
    n = size_for(rnd, cfg, tier)
    if kind in ("rej", "mh", "nested", "multi"):
        n = min(n, 40)
    ops = []
    for op in gen_ops(rnd, cfg, n, rnd.randint(2, 5), timeouts=0 if slow or real else .4, extras=True, resets=.12):
        if op[0] == "req" and op[2] == BIG and not real:
            op[2] = 2.50371234567       # no sum of clock steps comes close to it
        ops.append(op)
        if op[0] == "req":
            ops.append(["prob"])
        for _ in range(rnd.choice([0, 1, 1, 3])):
            ops.append(["obs", rnd.choice(WHAT), rnd.choice([1, 2, 10, 40]), rnd.randint(0, 99)])
    return {"cfg": cfg, "target": t, "ops": ops, "slow": slow, "seed": rnd.randint(0, 2 ** 31 - 1)}


def make_target(t):
    if "real" not in t:
        return SimTarget(t)
    sup = np.array(t["support"], dtype=float)
    if t["real"] == "gmm":
        w = np.array(t["weights"]) / np.sum(t["weights"])
        return CGaussianMixtureModel({"means": np.array(t["means"]), "sigmas": np.array(t["sigmas"]), "weights": w,
                                      "support": sup})
    return CMultivariateNormal({"mean": np.array(t["means"][0]), "sigma": np.diag(t["sigmas"][0]), "support": sup})


def observe_once(ctx, cfg, s, target, metrics, what, n, k):
    """One observation, as a user would make it."""
    lo = np.array(cfg["lo"])
    hi = np.array(cfg["hi"])
    u = ((np.arange(1, n + 1).reshape(-1, 1) + k) * np.array([0.6180339887, 0.7548776662, 0.5698402910])[:len(lo)]) % 1.0
    x = lo + u * (hi - lo)
    if what in METRIC:
        metrics[what].compute(p=target, q=s, nsamples=n)
    elif what == "from_samples":
        metrics[sorted(METRIC)[k % 3]].compute_from_samples(target, s, s.samples if k % 2 and len(s.samples) else x)
    elif what == "stats":
        s.get_stats()
    elif what == "ness":
        s.get_NESS()
    elif what == "approx_ness":
        s.get_approx_NESS()
    elif what == "acc":
        s.get_acceptance_rate()
    elif what == "prob":
        s.prob(x)
    elif what == "log_prob":
        s.log_prob(x)
    elif what == "prob_at_samples":
        s.prob(s.samples)
    elif what == "names":
        s.name, s.debug, s.get_viz_frames()
    else:
        s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals


def trace(ctx, plan, watch):
    """What a user sees along the history."""
    cfg = plan["cfg"]
    kind = cfg["kind"]
    out = []
    seen = 0
    effective = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        target = make_target(plan["target"])
        s = ctx.call("construct:" + kind, build, cfg)
        ctx.call("reset:" + kind, s.reset)
        metrics = {k: c() for k, c in METRIC.items()}
        pts = probe_points(cfg, 7)
        held = None
        requested = False
        for op in plan["ops"]:
            if op[0] == "obs":
                if not watch:
                    continue
                state = np.random.get_state()
                quiet = getattr(target, "quiet", None)
                if quiet is not None and not plan["slow"]:
                    target.quiet = True
                copy = None if held is None else [np.array(h, copy=True) for h in held]
                try:
                    with np.errstate(all="ignore"):
                        observe_once(ctx, cfg, s, target, metrics, *op[1:])
                    seen += requested
                    ctx.probe("observed_" + op[1])
                except (SimCrash, SimHang):
                    raise
                except Exception:
                    ctx.probe("observation_not_possible")
                finally:
                    np.random.set_state(state)
                    if quiet is not None:
                        target.quiet = quiet
                sim.fire("observation")
                if held is not None:
                    for name, a, b in zip(("samples", "weights"), copy, held):
                        ctx.check(same(a, np.array(b)), "result-changed:" + kind, lambda: "reading %s changed the %s that the "
                                  "last request returned" % (op[1], name))
                continue
            if op[0] == "req":
                effective += bool(seen)
                res = ctx.call("importance_sample:" + label_of(cfg), s.importance_sample, target, op[1], op[2])
                held = res
                requested = True
                samples, weights = copies(ctx, cfg, res)
                out.append((list(op), {"samples": samples, "weights": weights}))
            elif op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                held = None
                requested = False
                out.append((list(op), {}))
            elif op[0] == "sample":
                try:
                    out.append((list(op), {"drawn": np.array(s.sample(op[1]), dtype=float)}))
                except (SimCrash, SimHang):
                    raise
                except Exception as e:
                    out.append((list(op), {"error": type(e).__name__}))
            elif op[0] == "prob":
                try:
                    with np.errstate(all="ignore"):
                        out.append((list(op), {"prob": np.array(s.prob(pts), dtype=float)}))
                except (SimCrash, SimHang):
                    raise
                except Exception as e:
                    out.append((list(op), {"error": type(e).__name__}))
            out[-1][1]["counters"] = np.array([s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals])
            out[-1][1]["stream"] = np.array(np.random.get_state()[1], dtype=np.int64)
            out[-1][1]["stream_position"] = np.array([np.random.get_state()[2]])
            out[-1][1]["target"] = target.pdf(pts) if hasattr(target, "pdf") else np.array(target.prob(pts))
    return out, sim, effective


def run(plan, known):
    ctx = Ctx(known)
    if "bench" in plan:
        return run_bench_pair(ctx, plan)
    a, sim_a, _ = trace(ctx, plan, False)
    b, sim_b, effective = trace(ctx, plan, True)
    kind = plan["cfg"]["kind"]
    if not any(op[0] == "obs" for op in plan["ops"]):
        effective = 0
    for k, ((op, x), (_, y)) in enumerate(zip(a, b)):
        d = diff(x, y)
        ctx.check(d is None, "disturbed:" + kind, lambda: "operation %d, %s, differs after measurements: %s" % (k, op, d))
    return sim_stats(sim_b, ctx, sig=kind, nontrivial=effective > 0)


def run_bench_pair(ctx, plan):
    from ais_benchmarks.metrics.divergences import CDivergence

    def once(metrics):
        orig = [(CDivergence, CDivergence.compute), (CExpectedValueMSE, CExpectedValueMSE.compute)]

        def wrap(fn):
            def compute(m, **k):
                state = np.random.get_state()
                try:
                    return fn(m, **k)
                finally:
                    np.random.set_state(state)
            return compute
        seen = []

        def after(method, res):
            seen.append((np.array(res[0], dtype=float), np.array(res[1], dtype=float), (
                method.num_proposal_samples, method.num_proposal_evals, method.num_target_evals)))
        p = dict(plan, config=dict(plan["config"], metrics=metrics))
        with Arena() as arena, simple_sim(plan, max_events=300000) as sim:
            arm(sim, arena.root)
            np.random.seed(plan["seed"])
            for cls, fn in orig:
                cls.compute = wrap(fn)
            tap = RequestTap(lambda m: None, after)
            try:
                ctx.call("run", run_bench, write_files(arena.root, p), os.path.join(arena.root, "results.txt"), 1e12)
            finally:
                tap.close()
                for cls, fn in orig:
                    cls.compute = fn
            sim.root = None
        return seen, sim
    a, _ = once(plan["lists"][0])
    b, sim = once(plan["lists"][1])
    kind = plan["methods"][0]["kind"]
    ctx.check(len(a) == len(b), "metrics-change-the-run:" + kind, lambda: "%d requests with metrics %s, %d with %s" % (
        len(a), plan["lists"][0], len(b), plan["lists"][1]))
    for k, (x, y) in enumerate(zip(a, b)):
        ctx.check(same(x[0], y[0]) and same(x[1], y[1]) and x[2] == y[2], "metrics-change-the-run:" + kind,
                  lambda: "request %d returns something else with metrics %s than with %s" % (k, plan["lists"][0], plan["lists"][1]))
    return sim_stats(sim, ctx, sig="bench" + kind, nontrivial=plan["lists"][0] != plan["lists"][1] and len(a) > 1)
