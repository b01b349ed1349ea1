"""Whatever a distribution draws, it considers possible."""
import math

import numpy as np

from ais_benchmarks import distributions as D
from ais_benchmarks.utils.misc import generateEggBoxGMM, generateRandomGMM

from ..common import *

PID = "D01"
RUNS = {"quick": 30000, "thorough": 300000}
RULE = ("Distributions of every kind that can be sampled, alone, as components of mixtures and after updates of their "
        "moments, draw batches while the simulated random generator returns ordinary outcomes and the ends of its range "
        "(lowest and highest uniform, zero and largest exponential, normal tails, any component with positive weight). "
        "Every draw is checked for shape, density, log density and support. Non-trivial: at least one draw was steered to "
        "an end of the range.")
REAL = ["ais_benchmarks.distributions (uniform, exponential, normal, delta, mixture, Gaussian mixture, BenchDen uniform and "
        "exponential, noisy function)", "ais_benchmarks.utils.misc.generateRandomGMM, generateEggBoxGMM"]
STUB = ["outcomes of the random generator (chosen by the simulator in part of the calls)"]
ASSUME = ["The density of a delta distribution is infinite where it draws, by definition.",
          "Distributions with unbounded support declare a clipped support; only bounded ones are held to it."]
SHRINK = ("ops",)

ONE = 1 - 2.0 ** -53


def vec(rnd, d, a, b):
    return [rnd.uniform(a, b) for _ in range(d)]


def gen_one(rnd, dims=None, depth=0):
    d = dims or rnd.choice([1, 1, 2, 3])
    kinds = ["uniform", "uniform", "normal", "normal", "exp"]
    if depth == 0:
        kinds += ["mixture", "mixture", "gmm", "bd_uniform", "bd_exp", "delta", "noisy", "random_gmm", "eggbox", "kde", "nn"]
    k = rnd.choice(kinds)
    p = {"kind": k, "dims": d}
    if k == "uniform":
        big = rnd.choice([1, 1, 1, 1e6, 1e-6])
        p.update(center=vec(rnd, d, -3 * big, 3 * big), radius=vec(rnd, d, 1e-3, 4))
        if rnd.random() < .2:
            p["radius"] = [rnd.uniform(.1, 2)]
        if rnd.random() < .3:
            p.update(center=[round(x, 1) for x in p["center"]], radius=[max(.1, round(x, 1)) for x in p["radius"]])
    elif k == "normal":
        a = np.array([vec(rnd, d, -1, 1) for _ in range(d)]) * rnd.choice([.01, 1, 30])
        cov = a @ a.T + np.eye(d) * rnd.choice([1e-4, .1, 5])
        p.update(mean=vec(rnd, d, -5, 5), sigma=((cov + cov.T) / 2).tolist())
    elif k == "exp":
        p.update(mean=vec(rnd, d, .05, 5))
    elif k == "mixture":
        n = rnd.randint(1, 4)
        p.update(models=[gen_one(rnd, d, 1) for _ in range(n)],
                 weights=[rnd.choice([1.0, .5, rnd.random(), 0.0]) for _ in range(n)])
    elif k == "gmm":
        n = rnd.randint(1, 4)
        p.update(means=[vec(rnd, d, -4, 4) for _ in range(n)], sigmas=[vec(rnd, d, .01, 2) for _ in range(n)],
                 weights=[rnd.random() for _ in range(n)] if rnd.random() < .8 else None)
    elif k in ("bd_uniform", "bd_exp"):
        p["dims"] = 1
    elif k in ("delta", "noisy"):
        p.update(center=vec(rnd, d, -4, 4))
    elif k == "random_gmm":
        p["n"] = rnd.randint(1, 4)
    elif k == "eggbox":
        p.update(delta=rnd.choice([.5, .8]), dims=rnd.choice([1, 2]))
    elif k in ("kde", "nn"):
        p.update(points=[vec(rnd, d, -1, 1) for _ in range(3)])
    return p


def gen(rnd, i, tier):
    p = gen_one(rnd)
    ops = []
    for _ in range(rnd.randint(2, 8)):
        r = rnd.random()
        if r < .15 and p["kind"] in ("normal", "exp"):
            q = gen_one(rnd, p["dims"], 1)
            while q["kind"] != p["kind"]:
                q = gen_one(rnd, p["dims"], 1)
            ops.append(["moments", q])
        else:
            ops.append(["draw", rnd.choice([1, 1, 2, 3, 20]), rnd.choice(["plain", "low", "high", "mixed", "mixed"]),
                        rnd.randint(0, 10 ** 6)])
    return {"dist": p, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1)}


def make(p):
    k = p["kind"]
    a = {n: np.array(v, dtype=float) for n, v in p.items() if n in ("center", "radius", "mean", "sigma", "means", "sigmas")}
    d = p["dims"]
    if k == "uniform":
        return D.CMultivariateUniform(a)
    if k == "normal":
        return D.CMultivariateNormal(a)
    if k == "exp":
        return D.CMultivariateExponential(a)
    sup = np.array([[-9.0] * d, [9.0] * d])
    if k == "mixture":
        return D.CMixtureModel({"models": [make(m) for m in p["models"]], "weights": list(p["weights"]), "dims": d, "support": sup})
    if k == "gmm":
        a["support"] = sup
        if p["weights"]:
            a["weights"] = np.array(p["weights"])
        return D.CGaussianMixtureModel(a)
    if k == "bd_uniform":
        return D.BenchDenUniform({})
    if k == "bd_exp":
        return D.BenchDenExponential({})
    if k == "delta":
        return D.CMultivariateDelta({"center": a["center"], "support": sup})
    if k == "noisy":
        n = D.CMultivariateNormal({"mean": np.zeros(d), "sigma": np.eye(d) * .3})
        f = D.GenericNoisyFunction({"noise_model": n, "function": lambda x, z: x, "dims": d, "support": sup})
        return f
    if k == "random_gmm":
        return generateRandomGMM(np.array([-4.0] * d), np.array([4.0] * d), p["n"], (.04,) * d, (.05,) * d)
    if k == "eggbox":
        return generateEggBoxGMM(np.array([-1.0] * d), np.array([1.0] * d), p["delta"], .1)
    pts = np.array(p["points"])
    q = {"samples": pts, "weights": np.ones(len(pts)) / len(pts), "support": sup}
    if k == "kde":
        return D.CKernelDensity(dict(q, kernel_f=D.CKernel.kernel_normal, kernel_bw=np.array([2.0])))
    return D.CNearestNeighbor(q)


def bounded(p):
    return p["kind"] in ("uniform", "bd_uniform")


class Steer:
    """Sets outcomes of the generator to the ends of their range."""

    def __init__(self, mode, salt):
        self.mode = mode
        self.k = salt
        self.n = 0

    def which(self):
        self.k = (self.k * 1103515245 + 12345) % 2 ** 31
        if self.mode == "mixed":
            return ("low", "high", "plain")[(self.k >> 8) % 3]
        return self.mode

    def __call__(self, name, a, k, res):
        w = self.which()
        arr = np.asarray(res)
        if w == "plain" or arr.size == 0:
            return res
        arg = lambda i, n, dflt: a[i] if len(a) > i else k.get(n, dflt)
        shape = arr.shape
        if name == "uniform":
            lo = np.broadcast_to(np.asarray(arg(0, "low", 0.0), dtype=float), shape)
            hi = np.broadcast_to(np.asarray(arg(1, "high", 1.0), dtype=float), shape)
            out = lo.copy() if w == "low" else lo + (hi - lo) * ONE
        elif name in ("rand", "random", "random_sample"):
            out = np.full(shape, 0.0 if w == "low" else ONE)
        elif name == "exponential":
            out = np.broadcast_to(np.asarray(arg(0, "scale", 1.0), dtype=float), shape) * (0.0 if w == "low" else 44.0)
        elif name in ("normal", "randn", "standard_normal"):
            m = np.asarray(arg(0, "loc", 0.0), dtype=float) if name == "normal" else 0.0
            s = np.asarray(arg(1, "scale", 1.0), dtype=float) if name == "normal" else 1.0
            out = np.broadcast_to(m + s * (-8.0 if w == "low" else 8.0), shape).copy()
        elif name == "multivariate_normal":
            mean = np.asarray(arg(0, "mean", None), dtype=float)
            L = np.linalg.cholesky(np.asarray(arg(1, "cov", None), dtype=float))
            z = np.full(len(mean), -8.0 if w == "low" else 8.0)
            out = np.broadcast_to(mean + L @ z, shape).copy()
        elif name == "multinomial" and int(arg(0, "n", 0)) == 1:
            pv = np.flatnonzero(np.asarray(arg(1, "pvals", None), dtype=float) > 0)
            out = np.zeros(shape, dtype=arr.dtype)
            out[..., pv[0] if w == "low" else pv[-1]] = 1
        else:
            return res
        self.n += 1
        return out if shape else out[()]


def run(plan, known):
    ctx = Ctx(known)
    p = plan["dist"]
    kind = p["kind"]
    d = p["dims"]
    steered = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        try:
            dist = ctx.call("construct:" + kind, make, p)
        except KnownStop:
            return sim_stats(sim, ctx, sig=kind, nontrivial=False)
        if kind == "noisy":
            dist.condition(np.array([p["center"]]))
        for op in plan["ops"]:
            sim.event("op", repr(op))
            if op[0] == "moments":
                q = op[1]
                if kind == "normal":
                    ctx.call("set_moments", dist.set_moments, np.array(q["mean"]), np.array(q["sigma"]))
                else:
                    ctx.call("set_moments", dist.set_moments, np.array(q["mean"]))
                continue
            n, mode, salt = op[1:]
            if kind == "noisy":
                dist.condition(np.array([p["center"]] * n))
            st = Steer(mode, salt)
            sim.rng_hook = st
            x = ctx.call("sample:" + kind, dist.sample) if kind == "noisy" else ctx.call("sample:" + kind, dist.sample, n)
            sim.rng_hook = None
            steered += st.n
            sim.fire("edge_outcome", st.n)
            x = np.asarray(x)
            what = "%d draws (%s)" % (n, mode)
            ctx.check(x.shape == (n, d), "shape:" + kind, lambda: "%s have shape %s in %d dimensions" % (what, x.shape, d))
            ctx.check(bool(np.all(np.isfinite(x))), "not-finite:" + kind, lambda: "%s: %s" % (what, brief(x)))
            with np.errstate(all="ignore"):
                pr = np.asarray(ctx.call("prob:" + kind, dist.prob, x), dtype=float).reshape(-1)
                lp = np.asarray(ctx.call("log_prob:" + kind, dist.log_prob, x), dtype=float).reshape(-1)
            ctx.check(pr.shape == (n,) and lp.shape == (n,), "one-density-per-draw:" + kind, lambda: "%s: %d densities, %d log "
                      "densities" % (what, len(pr), len(lp)))
            if kind == "delta":
                ctx.check(bool(np.all(pr > 0) and np.all(lp == np.inf)), "impossible-draw:" + kind, lambda: "%s: density %s" % (what, brief(pr)))
                continue
            j = int(np.argmin(np.where(np.isfinite(pr), pr, -1)))
            ctx.check(bool(np.all(pr > 0) and np.all(np.isfinite(pr))), "impossible-draw:" + kind, lambda: "%s: %s was drawn and has "
                      "density %r" % (what, x[j], pr[j]))
            with np.errstate(all="ignore"):
                bad = ~(np.abs(lp - np.log(pr)) <= 1e-6 + 1e-9 * np.abs(lp))
            ctx.check(not bad.any(), "log-density:" + kind, lambda: "%s: log density %r, density %r" % (what, lp[bad][0], pr[bad][0]))
            one = [float(np.asarray(dist.prob(x[i:i + 1])).reshape(-1)[0]) for i in range(min(n, 3))]
            ctx.check(close(np.array(one), pr[:3], 1e-9), "batch-matters:" + kind, lambda: "%s: %s alone, %s in the batch" % (
                what, one, pr[:3]))
            if bounded(p):
                s = np.asarray(dist.support(), dtype=float)
                ctx.check(bool(np.all(x >= s[0]) and np.all(x <= s[1])), "outside-support:" + kind, lambda: "%s: %s, support %s" % (
                    what, brief(x), s.tolist()))
    return sim_stats(sim, ctx, sig=kind, nontrivial=steered > 0)
