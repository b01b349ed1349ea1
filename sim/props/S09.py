"""Nested sampling climbs in likelihood."""
import numpy as np

from ..common import *

PID = "S09"
RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("A nested sampler goes through a history of growing requests that are cut short at arbitrary points, stalled, "
        "aborted by a failing target and repeated. After every request the recorded samples must climb in likelihood, the "
        "live points must lie above the last one, and the sequence must be the one a reference nested sampler makes of the "
        "points that were evaluated. Non-trivial: at least three samples were recorded.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
ASSUME = ["Decided for CNestedSampling; the clusters of CMultiNestedSampling climb separately and are covered by S06."]


def gen(rnd, i, tier):
    dims = some_dims(rnd, [1, 1, 2, 3])
    lo, hi = gen_domain(rnd, dims)
    cfg = gen_sampler(rnd, "nested", lo=lo, hi=hi)
    if rnd.random() < .3:
        cfg["params"]["N"] = rnd.choice([1, 2, 3])
    n = rnd.randint(4, 60 if tier == "quick" else 150)
    t = gen_target(rnd, lo, hi)
    t["cost"] = rnd.choice([0.001, 0.004])
    if rnd.random() < .25:
        t["fail"] = sorted({rnd.randint(1, 4 * n) for _ in range(rnd.randint(1, 3))})
    if rnd.random() < .4:
        t["slow"] = {str(rnd.randint(1, 3 * n)): rnd.choice([.05, 1, 10]) for _ in range(rnd.randint(1, 4))}
    ops = []
    for op in gen_ops(rnd, cfg, n, rnd.randint(1, 6), timeouts=.6, extras=True, resets=.1):
        ops.append(op)
        if op[0] == "req" and rnd.random() < .25:
            ops.append(list(op))            # the same request again
    return {"cfg": cfg, "target": t, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 6 * n, .5)["stalls"]}


class Model:
    """A reference nested sampler fed with the points that were evaluated."""

    def __init__(self, pdf):
        self.pdf = pdf
        self.live = None
        self.vals = None
        self.L = []
        self.points = []
        self.unique = True

    def start(self, pts):
        self.live = np.array(pts)
        self.vals = self.pdf(self.live)

    def offer(self, x):
        v = self.pdf(x)[0]
        m = np.min(self.vals)
        if v < m:
            return
        j = int(np.argmin(self.vals))
        if np.sum(self.vals <= m * (1 + 1e-9)) > 1:
            self.unique = False
        self.L.append(m)
        self.points.append(self.live[j].copy())
        self.live[j] = x
        self.vals[j] = v


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    N = cfg["params"]["N"]
    target = SimTarget(plan["target"])
    pdf = target.pdf
    held = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:nested", build, cfg)
        model = Model(pdf)
        log = []
        sim.on_eval = lambda t, x, res: log.append(np.array(x)) and None
        ok = True
        for step, op in enumerate(plan["ops"]):
            if op[0] == "reset":
                ctx.call("reset:nested", s.reset)
                model, held, ok = Model(pdf), 0, True
                continue
            if op[0] != "req":
                if held:
                    target.quiet = True
                    observe(cfg, s)
                    if op[0] == "sample":
                        ctx.call("sample:nested", s.sample, op[1])
                    target.quiet = False
                continue
            del log[:]
            failed = False
            try:
                samples, w = request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))
            except SimFault:
                failed = True
                ctx.probe("failed_requests")
            # the points evaluated by this request: the live ones at once, then one candidate at a time
            for x in log:
                if len(x) == N and (N > 1 or x is log[0]):
                    if model.live is not None:
                        ctx.check(close(np.sort(pdf(x)), np.sort(model.vals), 1e-9), "live-points-changed",
                                  lambda: "live points of step %d: likelihoods %s, expected %s" % (
                                      step, brief(np.sort(pdf(x))), brief(np.sort(model.vals))))
                    model.start(x)
                elif len(x) == 1 and model.live is not None:
                    model.offer(x)
                else:
                    ok = False
            if failed:
                continue
            samples = samples.reshape(-1, len(cfg["lo"]))
            held = len(samples)
            if held == 0:
                continue
            L = pdf(samples)
            drop = np.flatnonzero(L[1:] < L[:-1] * (1 - 1e-12))
            ctx.check(len(drop) == 0, "likelihood-falls", lambda: "step %d: sample %d has likelihood %r after %r" % (
                step, drop[0] + 1, L[drop[0] + 1], L[drop[0]]))
            live = getattr(s, "live_points", None)
            if live is not None and np.shape(live) == (N, len(cfg["lo"])):
                v = np.min(pdf(live))
                ctx.check(v >= L[-1] * (1 - 1e-12), "live-point-below-the-samples",
                          lambda: "step %d: a live point has likelihood %r, the last sample %r" % (step, v, L[-1]))
            if not ok:
                ctx.probe("evaluations_not_understood")
                continue
            ctx.check(len(L) == len(model.L), "recorded-count", lambda: "step %d: %d samples recorded, the evaluated "
                      "points give %d" % (step, len(L), len(model.L)))
            ctx.check(close(L, np.array(model.L), 1e-9), "not-the-least-likely",
                      lambda: "step %d: likelihoods %s, the least likely live points had %s" % (
                          step, brief(L), brief(model.L)))
            if model.unique:
                ctx.check(close(samples, np.array(model.points), 1e-12, 1e-12), "not-the-least-likely",
                          lambda: "step %d: %s, expected %s" % (step, brief(samples), brief(model.points)))
    return sim_stats(sim, ctx, sig=str(cfg["params"]), nontrivial=held >= 3)
