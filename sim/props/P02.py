"""Divergence estimates approach the true divergence on every random stream."""
import math

import numpy as np

from ais_benchmarks.distributions import CGaussianMixtureModel, CMultivariateNormal, CMultivariateUniform
from ais_benchmarks.metrics.divergences import CJSDivergence, CKLDivergence
from ais_benchmarks.metrics.statistics import CExpectedValueMSE

from ..common import *

PID = "P02"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Pairs of distributions with overlapping densities in one to three dimensions are compared by the real metrics on "
        "fresh simulated random streams and several numbers of evaluation points, repeatedly and in random order. Every value "
        "is compared with the divergence computed by quadrature, within eight standard deviations of the estimate (from the "
        "influence function) plus the quadrature and second-order error; successive evaluations must use new points. "
        "Non-trivial: two evaluations with at least 3000 points.")
REAL = ["ais_benchmarks.metrics.divergences, ais_benchmarks.metrics.statistics", "ais_benchmarks.distributions (normal, uniform, "
        "Gaussian mixture)"]
STUB = ["the random stream (seeded by the simulator per evaluation)"]
ASSUME = ["Densities overlap (standard deviation of the estimate at most 20 / sqrt(points)); others are skipped."]
SHRINK = ("ops",)
METRIC = {"JSD": CJSDivergence, "KLD": CKLDivergence, "EVMSE": CExpectedValueMSE}


def gen_one(rnd, lo, hi):
    d = len(lo)
    w = [b - a for a, b in zip(lo, hi)]
    k = rnd.choice(["normal", "normal", "gmm", "uniform"])
    pt = lambda e: [rnd.uniform(a + e * x, b - e * x) for a, b, x in zip(lo, hi, w)]
    if k == "normal":
        return {"k": k, "mean": pt(.2), "sigma": [(rnd.uniform(.12, .5) * x) ** 2 for x in w]}
    if k == "gmm":
        n = rnd.randint(1, 3)
        return {"k": k, "means": [pt(.1) for _ in range(n)], "sigmas": [[(rnd.uniform(.12, .4) * x) ** 2 for x in w] for _ in range(n)],
                "weights": [rnd.uniform(.1, 1) for _ in range(n)]}
    return {"k": k, "center": [(a + b) / 2 for a, b in zip(lo, hi)], "radius": [rnd.choice([.25, .5, .5]) * x for x in w]}


def gen(rnd, i, tier):
    d = rnd.choice([1] * 6 + [2] * 3 + [3])
    lo = [rnd.choice([0.0, -1.0, rnd.uniform(-50, 50)]) for _ in range(d)]
    hi = [a + rnd.choice([1.0, 2.0, rnd.uniform(.1, 30)]) for a in lo]
    ops = [[rnd.choice(sorted(METRIC)), rnd.choice([3000, 20000, 20000, 80000]), rnd.randint(0, 2 ** 31 - 1), rnd.random() < .15]
           for _ in range(rnd.randint(2, 5))]
    return {"lo": lo, "hi": hi, "p": gen_one(rnd, lo, hi), "q": gen_one(rnd, lo, hi), "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1)}


def make(t, lo, hi):
    sup = np.array([lo, hi], dtype=float)
    if t["k"] == "normal":
        return CMultivariateNormal({"mean": np.array(t["mean"]), "sigma": np.diag(t["sigma"]), "support": sup})
    if t["k"] == "gmm":
        return CGaussianMixtureModel({"means": np.array(t["means"]), "sigmas": np.array(t["sigmas"]), "weights": np.array(t["weights"]),
                                      "support": sup})
    u = CMultivariateUniform({"center": np.array(t["center"]), "radius": np.array(t["radius"])})
    u.support_vals = sup
    return u


def density(t, x):
    if t["k"] == "uniform":
        c, r = np.array(t["center"]), np.array(t["radius"])
        return np.all(np.abs(x - c) <= r, axis=1) / np.prod(2 * r)
    if t["k"] == "normal":
        v = np.array(t["sigma"])
        return np.exp(-.5 * np.sum((x - np.array(t["mean"])) ** 2 / v, axis=1)) / np.sqrt(np.prod(2 * np.pi * v))
    w = np.array(t["weights"]) / np.sum(t["weights"])
    return sum(k * density({"k": "normal", "mean": m, "sigma": s}, x) for k, m, s in zip(w, t["means"], t["sigmas"]))


def truth(plan):
    """Divergences and the standard deviations of their estimates for one evaluation point."""
    lo, hi = np.array(plan["lo"]), np.array(plan["hi"])
    d = len(lo)
    n = {1: 4000, 2: 140, 3: 48}[d]
    ax = [a + (b - a) * (np.arange(n) + .5) / n for a, b in zip(lo, hi)]
    x = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, d)
    p, q = density(plan["p"], x), density(plan["q"], x)
    out = {}
    ok = (p > 0) & (q > 0)
    share = ok.mean()
    u, v = p[ok] / p[ok].mean(), q[ok] / q[ok].mean()
    l = np.log(u / v)
    k = float(np.mean(u * l))
    phi = u * l - u * k + v - u
    second = 1 + u.var() + v.var()
    out["KLD"] = (k, phi.std(), second * (1 + abs(l).max()), share)
    m = (u + v) / 2
    a, b = u * np.log(u / m) / 2, v * np.log(v / m) / 2
    j = float(np.mean(a + b))
    phi = a + b - j - (u - 1) * a.mean() - (v - 1) * b.mean()
    out["JSD"] = (j / math.log(2), phi.std() / math.log(2), second, share)
    u, v = p / p.mean(), q / q.mean()
    w = hi - lo
    e = np.mean(x * (u - v)[:, None], axis=0)
    mp, mq = np.mean(x * u[:, None], axis=0), np.mean(x * v[:, None], axis=0)
    s = (u[:, None] * (x - mp) - v[:, None] * (x - mq)).std(axis=0)
    out["EVMSE"] = (e, s, float(1 + u.var() + v.var()), w)
    return out, 3.0 / n, (p > 0).mean()


def run(plan, known):
    ctx = Ctx(known)
    d = len(plan["lo"])
    good = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        p, q = make(plan["p"], plan["lo"], plan["hi"]), make(plan["q"], plan["lo"], plan["hi"])
        want, grid, _ = truth(plan)
        metrics = {k: c() for k, c in METRIC.items()}
        same_p = plan["p"] == plan["q"]
        for op in plan["ops"]:
            sim.event("op", repr(op))
            name, n, seed, twice = op
            np.random.seed(seed)
            sim.fire("fresh_stream")
            with np.errstate(all="ignore"):
                v = float(ctx.call("compute:" + name, metrics[name].compute, p=p, q=q, nsamples=n))
            if name == "EVMSE":
                e, s, sec, w = want[name]
                if s.max() / w.max() > 20:
                    continue
                dl = 8 * s / math.sqrt(n) + 30 * sec * w / n + grid * w
                tol = float(np.sum(2 * abs(e) * dl + dl ** 2)) + 1e-12
                ref = float(np.sum(e ** 2))
            else:
                ref, s, sec, share = want[name]
                if s > 20 or share < .05:
                    continue
                m = n * share * .7
                tol = 8 * s / math.sqrt(m) + 30 * sec / m + grid * (1 + abs(ref))
            ctx.check(abs(v - ref) <= tol, "far-from-the-truth:" + name, lambda: "%s with %d points is %r, the divergence is %r (tolerance %.3g)" % (
                name, n, v, ref, tol))
            good += 1
            if twice and ref > 1e-6:
                with np.errstate(all="ignore"):
                    v2 = float(ctx.call("compute:" + name, metrics[name].compute, p=p, q=q, nsamples=n))
                ctx.check(v2 != v, "same-points:" + name, lambda: "%s twice in a row is %r: no new points" % (name, v))
    return sim_stats(sim, ctx, sig="%d" % d, nontrivial=good > 1)
