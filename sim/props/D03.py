"""Draws, densities and probabilities of regions describe the same distribution."""
import math

import numpy as np
from scipy.special import ndtr

from ais_benchmarks import distributions as D

from ..common import *
from .D01 import gen_one, make, vec

PID = "D03"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("Distributions of every parametric kind and mixtures of them go through random histories of draws (batches of "
        "different sizes on simulated random streams), moment updates and density queries. The densities are compared with "
        "the density of the described distribution, and the draws since the last update with its distribution function "
        "(marginals and, where coordinates are independent or normal, jointly) by a test that a correct implementation "
        "fails with probability below 1e-12; repeating the random stream has to repeat the draws. Probabilities of regions "
        "are compared with the distribution function. Non-trivial: at least 200 draws were compared.")
REAL = ["ais_benchmarks.distributions (uniform, exponential, normal, mixture, Gaussian mixture, BenchDen uniform, exponential, Maxwell, Laplace and Pareto, banana, the kernels of the kernel density estimate), "
        "ais_benchmarks.distributions.CDistribution.integral", "ais_benchmarks.utils.misc.generateRandomGMM, generateEggBoxGMM"]
STUB = ["the random stream (seeded by the simulator per batch)"]
ASSUME = ["Statistical comparison: a violation of the distribution that changes no distribution function of the compared "
          "statistics by more than about 0.2 (0.05 in the long runs) goes unnoticed."]
SHRINK = ("ops",)

KINDS = ("uniform", "normal", "exp", "mixture", "gmm", "bd_uniform", "bd_exp", "random_gmm", "eggbox", "delta")
# densities that cannot be drawn from; the banana is not normalised
PLAIN = {"maxwell": D.BenchDenMaxwell, "laplace": D.BenchDenLaplace, "pareto": D.BenchDenSymmetricPareto, "banana": D.Banana2D}


def gen_dist(rnd):
    while True:
        p = gen_one(rnd)
        if p["kind"] in KINDS and not (p["kind"] == "mixture" and sum(p["weights"]) <= 0):
            break
    if p["kind"] == "uniform" and rnd.random() < .3:
        p["dims"] = d = rnd.choice([1, 2, 3, 4, 5])
        p.update(center=vec(rnd, d, -3, 3), radius=[rnd.choice([rnd.uniform(.1, 2), 2.0, .5])])
    return p


def almost(rnd, p):
    """An update that leaves much of a normal distribution as it is."""
    q = {"kind": "normal", "dims": p["dims"], "mean": list(p["mean"]), "sigma": [list(r) for r in p["sigma"]]}
    how = rnd.choice(["mean", "swap", "sign", "scale", "swap-mean", "same"])
    n = p["dims"]
    if how in ("mean", "swap-mean"):
        q["mean"] = [m + rnd.choice([0.0, rnd.uniform(-2, 2)]) for m in q["mean"]]
    if how in ("swap", "swap-mean"):
        q["sigma"] = [[q["sigma"][n - 1 - a][n - 1 - b] for b in range(n)] for a in range(n)]
    if how == "sign":
        q["sigma"] = [[q["sigma"][a][b] * (1 if a == b else -1) for b in range(n)] for a in range(n)] if n == 2 else \
            [[q["sigma"][a][b] if a == b else 0.0 for b in range(n)] for a in range(n)]
    if how == "scale":
        f = rnd.choice([.25, 4.0])
        q["sigma"] = [[v * f for v in r] for r in q["sigma"]]
    return q


def gen(rnd, i, tier):
    if rnd.random() < .12:
        k = rnd.choice(sorted(PLAIN))
        ops = [["probe", rnd.randint(0, 10 ** 6), rnd.choice([0, 1, 1, 2, 5, 12, 40])] if rnd.random() < .8 else
               ["region", rnd.randint(0, 10 ** 6), rnd.choice(["inside", "over", "far", "around"])] for _ in range(rnd.randint(1, 5))]
        return {"dist": {"kind": k, "dims": 2 if k == "banana" else 1}, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1)}
    if rnd.random() < .05:
        return {"dist": {"kind": "kernel", "dims": 1, "kernel": rnd.choice(sorted(KERNELS)), "loc": rnd.uniform(-3, 3), "bw": rnd.choice([1.0, rnd.uniform(.2, 5)])},
                "ops": [["probe", rnd.randint(0, 10 ** 6), rnd.choice([1, 2, 12])] for _ in range(rnd.randint(1, 3))], "seed": rnd.randint(0, 2 ** 31 - 1)}
    p = gen_dist(rnd)
    last = p
    ops = []
    for _ in range(rnd.randint(2, 7)):
        r = rnd.random()
        if r < .2 and p["kind"] in ("normal", "exp"):
            q = gen_one(rnd, p["dims"], 1)
            while q["kind"] != p["kind"]:
                q = gen_one(rnd, p["dims"], 1)
            if p["kind"] == "normal":
                if rnd.random() < .5:
                    q = almost(rnd, last)
                last = q
            ops.append(["moments", q])
        elif r < .3 and p["kind"] in ("mixture", "gmm"):
            ops.append(["weights", [rnd.choice([1.0, rnd.random(), rnd.random(), 0.0]) for _ in range(9)]])
        elif r < .45:
            ops.append(["probe", rnd.randint(0, 10 ** 6)])
        elif r < .6:
            ops.append(["region", rnd.randint(0, 10 ** 6), rnd.choice(["inside", "over", "far", "around"])])
        else:
            ops.append(["draw", rnd.choice([1, 2, 7, 60, 300, 300] + ([3000] if rnd.random() < .1 else [])), rnd.randint(0, 2 ** 31 - 1)])
    return {"dist": p, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1)}


class Ref:
    """The described distribution."""

    def __init__(self, p):
        self.p = p
        self.k = p["kind"]
        self.d = p["dims"]
        if self.k == "bd_uniform":
            self.lo, self.hi, self.k = np.zeros(1), np.ones(1), "uniform"
        elif self.k == "uniform":
            c, r = np.array(p["center"]), np.array(p["radius"])
            self.lo, self.hi = c - r, c + r
        elif self.k == "bd_exp":
            self.mean, self.k = np.ones(1), "exp"
        elif self.k == "exp":
            self.mean = np.array(p["mean"])
        elif self.k == "normal":
            self.mean, self.cov = np.array(p["mean"]), np.array(p["sigma"])
        elif self.k == "mixture":
            self.parts = [Ref(m) for m in p["models"]]
            self.set_weights(p["weights"])
        elif self.k == "gmm":
            self.parts = [Ref({"kind": "normal", "dims": self.d, "mean": m, "sigma": np.diag(s)}) for m, s in zip(p["means"], p["sigmas"])]
            self.k = "mixture"
            self.set_weights(p["weights"] or [1.0] * len(self.parts))

    def set_weights(self, w):
        w = np.array(w[:len(self.parts)], dtype=float)
        self.w = w / w.sum() if w.sum() > 0 else np.full(len(w), 1 / len(w))

    def log(self, x):
        if self.k == "uniform":
            inside = np.all((self.lo <= x) & (x <= self.hi), axis=1)
            return np.where(inside, -np.sum(np.log(self.hi - self.lo)), -np.inf)
        if self.k == "exp":
            return np.where(np.all(x >= 0, axis=1), -np.sum(np.log(self.mean) + x / self.mean, axis=1), -np.inf)
        if self.k == "normal":
            z = self.white(x)
            return -.5 * (np.sum(z * z, axis=1) + np.linalg.slogdet(2 * np.pi * self.cov)[1])
        with np.errstate(all="ignore"):
            a = np.array([math.log(w) + q.log(x) for w, q in zip(self.w, self.parts) if w > 0])
            top = np.max(a, axis=0)
            safe = np.where(np.isfinite(top), top, 0.0)
            return np.where(np.isfinite(top), safe + np.log(np.sum(np.exp(a - safe), axis=0)), -np.inf)

    def white(self, x):
        return np.linalg.solve(np.linalg.cholesky(self.cov), (x - self.mean).T).T

    def cdf(self, x):
        """Distribution functions of the coordinates."""
        if self.k == "uniform":
            return np.clip((x - self.lo) / (self.hi - self.lo), 0, 1)
        if self.k == "exp":
            return np.where(x > 0, -np.expm1(-np.maximum(x, 0) / self.mean), 0.0)
        if self.k == "normal":
            return ndtr((x - self.mean) / np.sqrt(np.diag(self.cov)))
        return sum(w * q.cdf(x) for w, q in zip(self.w, self.parts))

    def diagonal(self):
        """Independent coordinates within every part."""
        if self.k == "normal":
            return bool(np.all(self.cov == np.diag(np.diag(self.cov))))
        return self.k != "mixture" or all(q.diagonal() for q in self.parts)

    def box(self, a, b):
        if self.k == "mixture":
            return sum(w * q.box(a, b) for w, q in zip(self.w, self.parts))
        return float(np.prod(self.cdf(b[None])[0] - self.cdf(a[None])[0]))

    def statistics(self, x):
        """Uniformly distributed if the draws are right."""
        u = np.clip(self.cdf(x), 0, 1)
        out = [("coordinate %d" % j, u[:, j]) for j in range(self.d)]
        if self.k == "normal":
            z = self.white(x)
            out += [("whitened coordinate %d" % j, ndtr(z[:, j])) for j in range(self.d)]
            if self.d > 1:
                out.append(("sum of whitened coordinates", ndtr(z.sum(axis=1) / math.sqrt(self.d))))
                out.append(("largest whitened coordinate", ndtr(z.max(axis=1)) ** self.d))
        elif self.k in ("uniform", "exp") and self.d > 1:
            out.append(("largest coordinate", u.max(axis=1) ** self.d))
            out.append(("smallest coordinate", 1 - (1 - u.min(axis=1)) ** self.d))
        n = len(x)
        if n > 1:
            # successive draws are independent
            out.append(("successive draws", np.maximum(u[0:n - 1:2, 0], u[1:n:2, 0]) ** 2))
        return out

    def centre(self):
        if self.k == "mixture":
            j = int(np.argmax(self.w))
            return self.parts[j].centre()
        if self.k == "uniform":
            return (self.lo + self.hi) / 2, (self.hi - self.lo) / 2
        if self.k == "exp":
            return self.mean, self.mean
        return self.mean, np.sqrt(np.diag(self.cov))


def distance(u):
    n = len(u)
    u = np.sort(u)
    k = np.arange(1, n + 1)
    return float(max(np.max(k / n - u), np.max(u - (k - 1) / n)))


def point(ctx, p, dist, ops):
    """A delta distribution: all the mass in one point."""
    at = np.array(p["center"], dtype=float)
    d = len(at)
    for op in ops:
        if op[0] == "region":
            u = np.random.RandomState(op[1])
            h = u.uniform(.1, 2, size=d)
            m = at + h * u.uniform(-.9, .9, size=d)
            if op[2] == "far":
                k = u.randint(d)
                m[k] = at[k] + u.choice([-1, 1]) * h[k] * u.uniform(1.1, 3)
            got = np.asarray(ctx.call("integral:delta", dist.integral, m - h, m + h), dtype=float).reshape(-1)
            want = 0 if op[2] == "far" else 1
            ctx.check(got.size == 1 and got[0] == want, "region:delta", lambda: "probability of [%s, %s] with all the mass in %s: %s" % (
                m - h, m + h, at, got))
        elif op[0] == "draw":
            x = np.asarray(ctx.call("sample:delta", dist.sample, min(op[1], 20)), dtype=float)
            ctx.check(x.shape == (min(op[1], 20), d) and np.array_equal(x, np.tile(at, (len(x), 1))), "draws:delta",
                      lambda: "%s drawn, all the mass is in %s" % (brief(x), at))


def plain_log(kind, x):
    with np.errstate(all="ignore"):
        if kind == "banana":
            return -.5 * (.03 * x[:, 0] ** 2 + (x[:, 1] + .03 * (x[:, 0] ** 2 - 100)) ** 2)
        x = x[:, 0]
        if kind == "maxwell":
            return np.where(x > 0, np.log(np.maximum(x, 1e-300)) - x * x / 2, -np.inf)
        if kind == "laplace":
            return math.log(.5) - abs(x)
        return -math.log(4) - 1.5 * np.log1p(abs(x))


def plain_mass(kind, a, b):
    def cdf(x):
        if kind == "maxwell":
            return -math.expm1(-max(x, 0.0) ** 2 / 2)
        tail = .5 * math.exp(-abs(x)) if kind == "laplace" else .5 / math.sqrt(1 + abs(x))
        return tail if x < 0 else 1 - tail
    return cdf(b) - cdf(a)


def single(ctx, kind, dist, x, lp, pr):
    """A single point given as a vector has the densities it has in a batch."""
    if len(x) == 0 or lp.size != len(x) or pr.size != len(x):
        return
    j = len(x) // 2
    one = [np.asarray(ctx.call("%s:%s" % (name, kind), f, x[j]), dtype=float).reshape(-1) for name, f in (
        ("log_prob", dist.log_prob), ("prob", dist.prob))]
    same = lambda a, b: a.size == 1 and (a[0] == b or abs(a[0] - b) <= 1e-9 * max(1e-200, abs(b)))
    ctx.check(same(one[0], lp.flat[j]) and same(one[1], pr.flat[j]), "single-point:" + kind, lambda: "log density %s and density %s of the "
              "point %s, in a batch %r and %r" % (one[0], one[1], x[j], lp.flat[j], pr.flat[j]))


def plain(ctx, sim, kind, d, ops):
    """A density given by a formula, without a sampler."""
    dist = ctx.call("construct:" + kind, PLAIN[kind], {})
    kept = []
    for op in ops:
        sim.event("op", repr(op))
        u = np.random.RandomState(op[1])
        if op[0] == "probe":
            x = u.choice([-1, 1], size=(op[2], d)) * u.choice([1e-3, .1, 1, 5, 30], size=(op[2], d)) * u.uniform(.5, 1, size=(op[2], d))
            if op[2] and u.rand() < .5:
                x[u.randint(op[2])] = 0
            given = np.array(x)
            want = plain_log(kind, x)
            with np.errstate(all="ignore"):
                lp = ctx.call("log_prob:" + kind, dist.log_prob, x)
                pr = ctx.call("prob:" + kind, dist.prob, x)
                both = [np.asarray(v, dtype=float) for v in (lp, pr)]
                single(ctx, kind, dist, x, *both)
                ctx.check(all(v.shape == (op[2],) for v in both), "shape:" + kind, lambda: "%d points: log density of shape %s and density of "
                          "shape %s, not one number per point" % (op[2], both[0].shape, both[1].shape))
                kept += [(v, np.array(v)) for v in (lp, pr) if isinstance(v, np.ndarray)]
                lp, pr = (v.reshape(-1) for v in both)
                ok = (np.abs(lp - want) <= 1e-6 + 1e-9 * np.abs(want)) | (lp == want)
                ok &= np.abs(pr - np.exp(want)) <= 1e-6 * np.exp(want) + 1e-290
            ctx.check(bool(np.all(ok)), "density:" + kind, lambda: "density %r and log density %r at %s, expected log density %r" % (
                pr[~ok][0], lp[~ok][0], x[~ok][0], want[~ok][0]))
            ctx.check(np.array_equal(x, given), "points-changed:" + kind, "evaluating changed the points")
        elif kind != "banana":
            h = u.uniform(.2, 3)
            m = {"inside": h, "over": u.uniform(-1, 2), "far": u.choice([-1, 1]) * (h + u.uniform(1, 6)), "around": 0.0}[op[2]]
            a, b = np.array([m - h]), np.array([m + h])
            want = plain_mass(kind, a[0], b[0])
            n = 20000
            np.random.seed(op[1])
            got = float(ctx.call("integral:" + kind, dist.integral, a, b, n))
            np.random.seed(op[1])
            top = float(np.max(np.exp(plain_log(kind, np.random.uniform(a, b, size=(n, 1))))))
            # the share of points below the density and the mean of the densities, each by Hoeffding
            tol = 2 * math.sqrt(math.log(4e13) / (2 * n)) * 2 * h * top
            ctx.check(abs(got - want) <= tol + 1e-12, "region:" + kind, lambda: "probability of [%s, %s]: %r, expected %r" % (a, b, got, want))
    for v, c in kept:
        ctx.check(np.array_equal(v, c, equal_nan=True), "earlier-result-changed:" + kind, "densities returned earlier were changed later")


KERNELS = {"normal": lambda u: np.exp(-u * u / 2) / math.sqrt(2 * math.pi), "uniform": lambda u: np.where(abs(u) <= 1, .5, 0.0),
           "triangular": lambda u: np.maximum(1 - abs(u), 0), "epanechnikov": lambda u: np.maximum(.75 * (1 - u * u), 0)}


def kernels(ctx, sim, p, ops):
    """The kernels of the kernel density estimate: densities around a place with an inverse bandwidth."""
    name, loc, bw = p["kernel"], p["loc"], p["bw"]
    k = ctx.call("construct:kernel", D.CKernel, loc, bw, getattr(D.CKernel, "kernel_" + name))
    for op in ops:
        sim.event("op", repr(op))
        u = np.random.RandomState(op[1])
        z = u.choice([-1, 1], size=max(op[2], 1)) * u.choice([0, .2, .6, .98, 1.02, 1.7, 4], size=max(op[2], 1)) + u.uniform(-.01, .01, size=max(op[2], 1))
        x = loc + z / bw
        given = np.array(x)
        with np.errstate(all="ignore"):
            pr = np.asarray(ctx.call("prob:kernel", k.prob, x), dtype=float)
            lp = np.asarray(ctx.call("log_prob:kernel", k.log_prob, x), dtype=float)
            want = KERNELS[name]((x - loc) * bw) * bw
            ok = (pr.shape == x.shape == lp.shape and np.all(np.abs(pr - want) <= 1e-6 * bw) and
                  np.all(np.abs(np.exp(lp) - want) <= 1e-6 * bw))
        ctx.check(bool(ok), "density:kernel", lambda: "%s kernel at %r, inverse bandwidth %r: %s and %s at %s, expected %s" % (name, loc, bw, pr, lp, x, want))
        ctx.check(np.array_equal(x, given), "points-changed:kernel", "evaluating changed the points")
        edge = 1 / bw * (8 if name == "normal" else 1.5)
        grid = np.linspace(loc - edge, loc + edge, 20001)
        with np.errstate(all="ignore"):
            mass = float(np.sum(np.asarray(ctx.call("prob:kernel", k.prob, grid), dtype=float)) * (grid[1] - grid[0]))
        ctx.check(abs(mass - 1) <= 1e-3, "density:kernel", lambda: "the %s kernel at %r with inverse bandwidth %r has the mass %r" % (name, loc, bw, mass))


def run(plan, known):
    ctx = Ctx(known)
    p = plan["dist"]
    kind = p["kind"]
    d = p["dims"]
    most = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        if kind == "kernel":
            kernels(ctx, sim, p, plan["ops"])
            return sim_stats(sim, ctx, sig=kind + p["kernel"], nontrivial=len(plan["ops"]) > 1)
        if kind in PLAIN:
            plain(ctx, sim, kind, d, plan["ops"])
            return sim_stats(sim, ctx, sig=kind, nontrivial=len(plan["ops"]) > 1)
        dist = ctx.call("construct:" + kind, make, p)
        if kind == "delta":
            point(ctx, p, dist, plan["ops"])
            return sim_stats(sim, ctx, sig=kind, nontrivial=True)
        if kind in ("random_gmm", "eggbox"):
            ref = Ref({"kind": "gmm", "dims": d, "means": [np.array(m) for m in dist.means], "sigmas": [np.array(s) for s in dist.sigmas],
                       "weights": list(np.asarray(dist.weights))})
        else:
            ref = Ref(p)
        pool = []
        kept = []     # results handed out earlier, with copies
        reuse = {}    # arrays the caller uses again for other points of the same number
        frugal = plan["seed"] % 3 == 0

        def densities(x, what):
            if frugal:
                buf = reuse.setdefault(len(x), np.zeros((len(x), d)))
                if len(x) > 1:
                    # the same array with other points before: nothing of it may be remembered
                    np.copyto(buf, np.asarray(x)[::-1])
                    for f, name in ((dist.log_prob, "log_prob"), (dist.prob, "prob")):
                        out = ctx.call(name + ":" + kind, f, buf)
                        if isinstance(out, np.ndarray) and out.flags.writeable:
                            out.fill(-7.0)      # the caller's array now
                np.copyto(buf, x)
                x = buf
                sim.fire("reused_array")
            with np.errstate(all="ignore"):
                want = ref.log(x)
                lp = ctx.call("log_prob:" + kind, dist.log_prob, x)
                pr = ctx.call("prob:" + kind, dist.prob, x)
                if not frugal:
                    kept.extend((v, np.array(v)) for v in (lp, pr) if isinstance(v, np.ndarray))
                lp, pr = (np.array(v, dtype=float).reshape(-1) for v in (lp, pr))
                ok = (np.abs(lp - want) <= 1e-6 + 1e-9 * np.abs(want)) | (lp == want)
                if ref.k == "mixture":
                    ok |= (want < -650) & (lp < -600)
                okp = np.abs(pr - np.exp(want)) <= 1e-6 * np.exp(want) + 1e-290
                single(ctx, kind, dist, x, lp, pr)
            ctx.check(lp.shape == (len(x),) and pr.shape == (len(x),), "shape:" + kind, "one density per point")
            j = int(np.argmin(ok & okp))
            ctx.check(bool(np.all(ok & okp)), "density:" + kind, lambda: "%s: density %r and log density %r at %s, expected log density %r" % (
                what, pr[j], lp[j], x[j], want[j]))

        for op in plan["ops"]:
            sim.event("op", repr(op))
            if op[0] == "moments":
                q = op[1]
                if kind == "normal":
                    ctx.call("set_moments", dist.set_moments, np.array(q["mean"]), np.array(q["sigma"]))
                else:
                    ctx.call("set_moments", dist.set_moments, np.array(q["mean"]))
                ref = Ref(q)
                pool = []
                sim.fire("moment_update")
            elif op[0] == "weights":
                inner = dist.gmm if kind == "gmm" else dist
                ctx.call("set_weights", inner.set_weights, np.array(op[1][:len(ref.parts)]))
                ref.set_weights(op[1])
                pool = []
                sim.fire("weight_update")
            elif op[0] == "probe":
                c, s = ref.centre()
                u = np.random.RandomState(op[1])
                x = c + s * u.choice([-1.5, -1.0, -.999, -.3, 0, .4, .999, 1.0, 1.5, 4.0, -4.0], size=(12, d))
                if ref.k == "uniform" or (ref.k == "mixture" and any(q.k == "uniform" for q in ref.parts)):
                    # not within rounding error of an edge
                    for q in (ref.parts if ref.k == "mixture" else [ref]):
                        if q.k == "uniform":
                            near = np.any((np.abs(x - q.lo) < 1e-9 * (1 + abs(q.lo))) | (np.abs(x - q.hi) < 1e-9 * (1 + abs(q.hi))), axis=1)
                            x = x[~near]
                if ref.k == "exp":
                    x = x[np.all(x != 0, axis=1)]
                if len(x):
                    densities(x, "at chosen points")
            elif op[0] == "region":
                u = np.random.RandomState(op[1])
                c, s = ref.centre()
                h = s * u.uniform(.2, 1, size=d)
                m = c + s * u.uniform(-1, 1, size=d) * {"inside": .0, "over": 1.0, "far": 0.0, "around": 0.0}[op[2]]
                if op[2] == "far":
                    m = m + s * u.choice([-1, 1], size=d) * 3.0
                elif op[2] == "around":
                    h = s * u.uniform(1.1, 3, size=d)
                a, b = m - h, m + h
                if kind in ("uniform", "bd_uniform"):
                    got = ctx.call("integral:" + kind, dist.integral, a, b)
                    want = ref.box(a, b)
                    got = np.asarray(got, dtype=float).reshape(-1)
                    ctx.check(got.size == 1 and abs(got[0] - want) <= 1e-9 + 1e-14 * float(np.max((abs(m) + h) / h)), "region:" + kind, lambda: "probability of [%s, %s]: %s, expected %r" % (
                        a, b, got, want))
                elif kind in ("mixture", "normal", "exp", "bd_exp") and ref.diagonal():
                    want = ref.box(a, b)
                    n = 20000
                    np.random.seed(op[1] % 2 ** 31)
                    got = float(ctx.call("integral:" + kind, dist.integral, a, b, n))
                    np.random.seed(op[1] % 2 ** 31)
                    x = np.random.uniform(a, b, size=(n, d))
                    with np.errstate(all="ignore"):
                        top = float(np.max(np.exp(ref.log(x))))
                    scale = float(np.prod(b - a)) * top
                    # the mean of the densities and the share of points below it, each by Hoeffding
                    tol = 2 * math.sqrt(math.log(4e13) / (2 * n)) * scale
                    ctx.check(abs(got - want) <= tol + 1e-12, "region:" + kind, lambda: "probability of [%s, %s]: %r, expected %r" % (
                        a, b, got, want))
            else:
                n, seed = op[1:]
                np.random.seed(seed)
                x = np.asarray(ctx.call("sample:" + kind, dist.sample, n), dtype=float)
                ctx.check(x.shape == (n, d), "shape:" + kind, lambda: "%d draws of shape %s" % (n, x.shape))
                if seed % 4 == 0:
                    np.random.seed(seed)
                    y = np.asarray(ctx.call("sample:" + kind, dist.sample, n), dtype=float)
                    ctx.check(np.array_equal(x, y), "not-repeatable:" + kind, lambda: "%d draws differ although the random stream is the same" % n)
                if n > 1:
                    ctx.check(len(np.unique(x[:, 0])) == n, "repeated-draws:" + kind, lambda: "%d of %d draws differ" % (len(np.unique(x[:, 0])), n))
                densities(x, "at %d draws" % n)
                pool.append(x)
                allx = np.vstack(pool)
                if len(allx) >= 60:
                    most = max(most, len(allx))
                    sim.fire("fresh_stream")
                    for name, v in ref.statistics(allx):
                        dist_ = distance(v)
                        lim = math.sqrt(math.log(2e14) / (2 * len(v)))
                        ctx.check(dist_ <= lim, "not-distributed-so:" + kind, lambda: "%s of %d draws: distance %.3f from the distribution "
                                  "(limit %.3f)" % (name, len(v), dist_, lim))
        for v, c in kept:
            ctx.check(np.array_equal(v, c, equal_nan=True), "earlier-result-changed:" + kind, "densities returned earlier were changed later")
    return sim_stats(sim, ctx, sig=kind, nontrivial=most >= 200)
