"""A request for n samples yields at least n well-formed weighted samples."""
import numpy as np

from ..common import *
from ..kernel import Violation

PID = "S01"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("A random sampler, legal configuration (including single-sample batches, 1 to 3 dimensions) and target answers a "
        "random sequence of requests, repeated requests, draws and density queries while stalls hit random events. "
        "Non-trivial: at least one request obtained samples.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS


def gen(rnd, i, tier):
    cfg = gen_sampler(rnd, KINDS[i % len(KINDS)])
    if i in (0, 1):
        # directed: the other two weighting schemes of the tree pyramid
        cfg = gen_sampler(rnd, "tp", lo=[-1.0], hi=[1.0])
        cfg["params"].update({"method": ["dm", "mixture"][i], "ess_target": None, "resampling": "none", "kernel": "haar"})
    n = size_for(rnd, cfg, tier)
    t = gen_target(rnd, cfg["lo"], cfg["hi"], scaled=.12)
    t["cost"] = rnd.choice([0.002, 0.005, 0.02])
    ops = []
    for op in gen_ops(rnd, cfg, n, rnd.randint(1, 6), timeouts=.25, resets=.07):
        if op[0] == "req" and rnd.random() < .25:
            op[1] = rnd.choice([0, 1, max(1, op[1] // 2), op[1]])
        ops.append(op)
        if op[0] == "req" and rnd.random() < .3:
            ops.append(list(op))
    return {"cfg": cfg, "target": t, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 8 * n, .4)["stalls"]}


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    target = SimTarget(plan["target"])
    held = 0
    got = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        try:
            s = ctx.call("construct:" + kind, build, cfg)
            for op in plan["ops"]:
                if op[0] == "reset":
                    ctx.call("reset:" + kind, s.reset)
                    held = 0
                elif op[0] == "req":
                    n = op[1]
                    limit = min(op[2], patience(cfg, n))
                    t0 = sim.now
                    samples, weights = request(ctx, cfg, s, target, n, limit)
                    well_formed(ctx, cfg, samples, weights, "request(%d)" % n)
                    if sim.now - t0 < limit * (1 - 1e-9):
                        ctx.check(len(samples) >= n, "too-few:" + kind, lambda: "asked for %d, got %d after %g of %g s" % (
                            n, len(samples), sim.now - t0, limit))
                        ctx.probe("request_completed")
                    else:
                        ctx.probe("request_cut_short")
                    if held and n <= held:
                        ctx.check(len(samples) == held, "satisfied-request-changes:" + kind,
                                  lambda: "held %d, asked for %d, got %d" % (held, n, len(samples)))
                        ctx.probe("request_already_satisfied")
                    held = len(samples)
                    got = max(got, held)
                    rep = ctx.call("get_stats:" + kind, s.get_stats)["n_samples"]
                    ctx.check(rep == held, "reported-count:" + kind, lambda: "returned %d samples, reports %s" % (held, rep))
                    if kind != "tp":
                        ctx.check(same(np.asarray(s.samples, dtype=float).reshape(samples.shape), samples)
                                  and len(s.weights) == len(weights), "held-differs:" + kind,
                                  lambda: "returned %s, holds %s" % (brief(samples), brief(s.samples)))
                elif op[0] == "sample":
                    if held == 0:
                        continue
                    t0 = sim.now
                    x = np.asarray(ctx.call("sample:" + kind, s.sample, op[1]))
                    if kind == "mh" and sim.now - t0 >= 60:
                        continue
                    ctx.check(x.shape == (op[1], len(cfg["lo"])) and bool(np.all(np.isfinite(x))), "draw:" + kind,
                              lambda: "sample(%d) gave shape %s" % (op[1], x.shape))
                    ctx.probe("draws")
                elif op[0] == "prob" and held:
                    pts = probe_points(cfg)
                    p = np.asarray(ctx.call("prob:" + kind, s.prob, pts))
                    ctx.check(p.size == len(pts), "density-shape:" + kind, lambda: "prob of %d points: %s" % (len(pts), p.shape))
        except KnownStop:
            pass
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=got > 0)
