"""Quality metrics stay within their mathematical bounds."""
import numpy as np
from scipy.special import logsumexp

from ais_benchmarks.distributions import CGaussianMixtureModel, CMultivariateNormal, CMultivariateUniform
from ais_benchmarks.metrics.divergences import CJSDivergence, CKLDivergence
from ais_benchmarks.metrics.statistics import CExpectedValueMSE

from ..common import *

PID = "M04"
RUNS = {"quick": 10000, "thorough": 200000}
RULE = ("Metrics compare targets of the package and of the simulator with samplers in random states (fresh, cut short, "
        "reset, after an aborted request) and with other distributions, while the simulated random stream supplies the "
        "evaluation points: ordinary ones, the ends of the range, repeated ones, clusters and single points. Every value is "
        "checked against its bounds, against the definition evaluated on the same points, against zero for identical "
        "distributions and against a fresh metric on the same points. Non-trivial: at least two finite values.")
REAL = REAL_SAMPLERS + ["ais_benchmarks.metrics"]
STUB = STUB_SAMPLERS + ["evaluation points of the metrics (chosen by the simulator)"]
SHRINK = ("ops",)

METRIC = {"JSD": CJSDivergence, "KLD": CKLDivergence, "EVMSE": CExpectedValueMSE}
POINTS = ["plain", "plain", "plain", "low", "high", "same", "cluster", "ends", "grid"]


def gen_dist(rnd, lo, hi):
    d = len(lo)
    k = rnd.choice(["sim", "sim", "gmm", "normal", "uniform"])
    if k == "sim":
        t = gen_target(rnd, lo, hi)
        t["scale"] = rnd.choice([1, 1, 1e-3, 50.0, 1e-250, 1e250])
        return t
    w = [b - a for a, b in zip(lo, hi)]
    t = {"real": k, "dims": d, "support": [list(lo), list(hi)]}
    if k == "gmm":
        g = gen_target(rnd, lo, hi, kinds=("gmm",))
        t.update(means=g["means"], sigmas=g["sigmas"], weights=g["weights"])
    elif k == "normal":
        t.update(mean=[rnd.uniform(a, b) for a, b in zip(lo, hi)], sigma=[(rnd.choice([1e-3, .02, .2, 1]) * x) ** 2 for x in w])
    else:
        t.update(center=[rnd.uniform(a + .2 * x, b - .2 * x) for a, b, x in zip(lo, hi, w)],
                 radius=[rnd.choice([.05, .2, .5]) * x for x in w])
    return t


def gen(rnd, i, tier):
    dims = some_dims(rnd, [1, 1, 2, 3])
    kind = rnd.choice(KINDS + [None] * 4)
    lo, hi = gen_domain(rnd, dims, cubic=True if kind == "tp" else None)
    plan = {"p": gen_dist(rnd, lo, hi), "lo": lo, "hi": hi, "seed": rnd.randint(0, 2 ** 31 - 1), "ops": []}
    if kind is None:
        plan["q"] = gen_dist(rnd, lo, hi)
    else:
        plan["cfg"] = cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
        t = gen_target(rnd, lo, hi)
        t["cost"] = .002
        if rnd.random() < .3:
            t["fail"] = [rnd.randint(2, 40)]
        plan["target"] = t
        if rnd.random() < .2:
            t["zero"] = [[rnd.randint(0, 10), rnd.choice([20, 1000])]]
        for op in gen_ops(rnd, cfg, size_for(rnd, cfg, tier), rnd.randint(1, 3), timeouts=.4, extras=True, resets=.1):
            if op[0] == "req" and op[2] == BIG:
                op[2] = 2.5
            plan["ops"].append(op)
            plan["ops"].append(["metric", rnd.choice(sorted(METRIC)), rnd.choice([1, 2, 3, 10, 60]), rnd.choice(POINTS)])
    if kind is None and rnd.random() < .03:
        plan["ops"].append(["metric", rnd.choice(sorted(METRIC)), rnd.choice([2500, 6000, 12000]), rnd.choice(POINTS)])
    for _ in range(rnd.randint(2, 6)):
        plan["ops"].append(["metric", rnd.choice(sorted(METRIC)), rnd.choice([1, 2, 3, 10, 60, 200]), rnd.choice(POINTS)])
        if rnd.random() < .3:
            plan["ops"].append(["self", rnd.choice(sorted(METRIC)), rnd.choice([1, 2, 10, 60]), rnd.choice(POINTS)])
    return plan


class Scaled(SimTarget):
    """An unnormalised density: nothing of a metric may depend on its scale."""

    def __init__(self, t):
        super().__init__(t)
        self.scale_by = t.get("scale", 1)
        self.quiet = True

    def prob(self, x):
        return self._eval(x) * self.scale_by

    def log_prob(self, x):
        with np.errstate(all="ignore"):
            return np.log(self._eval(x)) + np.log(self.scale_by)


def make(t):
    if "real" not in t:
        return Scaled(t)
    sup = np.array(t["support"], dtype=float)
    if t["real"] == "gmm":
        return CGaussianMixtureModel({"means": np.array(t["means"]), "sigmas": np.array(t["sigmas"]),
                                      "weights": np.array(t["weights"]) / np.sum(t["weights"]), "support": sup})
    if t["real"] == "normal":
        return CMultivariateNormal({"mean": np.array(t["mean"]), "sigma": np.diag(t["sigma"]), "support": sup})
    u = CMultivariateUniform({"center": np.array(t["center"]), "radius": np.array(t["radius"])})
    u.support_vals = sup    # evaluated over the whole domain
    return u


def steer(mode):
    def hook(name, a, k, res):
        if name != "uniform":
            return res
        lo = np.broadcast_to(np.array(a[0] if a else k.get("low", 0.0), dtype=float), res.shape)
        hi = np.broadcast_to(np.array(a[1] if len(a) > 1 else k.get("high", 1.0), dtype=float), res.shape)
        top = np.maximum(np.nextafter(hi, lo), lo)
        if mode == "low":
            return lo.copy()
        if mode == "high":
            return top.copy()
        if mode == "same":
            return np.broadcast_to(res[:1], res.shape).copy()
        if mode == "cluster":
            return np.clip(lo + (hi - lo) * .437 + (res - lo) * 1e-9, lo, top)
        if mode == "ends":
            r = res.copy()
            r[::2] = lo[::2]
            r[1::4] = top[1::4]
            return r
        if mode == "grid":
            n = len(res)
            return lo + (hi - lo) * ((np.arange(n) + .5) / n).reshape((n,) + (1,) * (res.ndim - 1))
        return res
    return hook if mode != "plain" else None


def kl(lp, lq):
    ok = (lp > -np.inf) & (lq > -np.inf)
    if not ok.any():
        return 0.0
    if not (np.isfinite(lp[ok]).all() and np.isfinite(lq[ok]).all()):
        return None
    a = lp[ok] - logsumexp(lp[ok])
    b = lq[ok] - logsumexp(lq[ok])
    return float(np.sum(np.exp(a) * (a - b)))


def definition(name, p, q, x):
    """The value of the metric by its definition, from the logarithms of the densities at the points."""
    if name == "EVMSE":
        if not (np.isfinite(p).all() and np.isfinite(q).all() and p.sum() > 0 and q.sum() > 0):
            return None
        e = (x * (p / p.sum()).reshape(-1, 1)).sum(axis=0) - (x * (q / q.sum()).reshape(-1, 1)).sum(axis=0)
        return float(np.sum(e ** 2))
    ok = (p > 0) & (q > 0)
    if not ok.any():
        return 0.0
    if not (np.isfinite(p).all() and np.isfinite(q).all()):
        return None
    # densities at the far end of the floating point range differ from the exponentials of their logarithms
    if min(p[ok].max(), q[ok].max()) < 1e-280 or max(p.max(), q.max()) > 1e290:
        return None
    ok2 = (p > 1e-290) & (q > 1e-290)
    if ok2.sum() != ok.sum():
        return None
    a = p[ok] / p[ok].sum()
    b = q[ok] / q[ok].sum()
    m = (a + b) / 2
    return float((np.sum(a * np.log(a / m)) + np.sum(b * np.log(b / m))) / 2 / np.log(2))


def run(plan, known):
    ctx = Ctx(known)
    finite = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        p = make(plan["p"])
        metrics = {k: c() for k, c in METRIC.items()}
        cfg = plan.get("cfg")
        if cfg:
            q = ctx.call("construct", build, cfg)
            ctx.call("reset", q.reset)
            target = SimTarget(plan["target"])
            who = cfg["kind"]
        else:
            q = make(plan["q"])
            who = "distribution"
        ready = not cfg
        for op in plan["ops"]:
            if op[0] in ("metric", "self"):
                if not ready and op[0] == "metric":
                    continue
                one = p if op[0] == "self" else q
                name, n, mode = op[1:]
                m = metrics[name]
                points = []
                sim.rng_hook = steer(mode)
                if op[0] == "metric" and cfg:
                    # build what is built lazily before the points are chosen
                    sim.rng_hook = None
                    state = np.random.get_state()
                    try:
                        with np.errstate(all="ignore"):
                            q.log_prob(probe_points(cfg, 2))
                    except SimHang:
                        raise
                    except Exception:
                        ready = False
                        continue
                    np.random.set_state(state)
                    sim.rng_hook = steer(mode)
                state = np.random.get_state()
                sim.rng_log = lambda nm, a, k, res: points.append(np.array(res, copy=True))
                with np.errstate(all="ignore"):
                    v = ctx.call("compute:" + name, m.compute, p=p, q=one, nsamples=n)
                sim.rng_log = None
                np.random.set_state(state)
                with np.errstate(all="ignore"):
                    again = ctx.call("compute:" + name, m.compute, p=p, q=one, nsamples=n)
                    np.random.set_state(state)
                    fresh = ctx.call("compute:" + name, METRIC[name]().compute, p=p, q=one, nsamples=n)
                sim.rng_hook = None
                if mode != "plain":
                    sim.fire("evaluation_points_" + mode)
                v = float(v)
                what = "%s of %d %s points" % (name, n, mode)
                ctx.check(same(v, float(again)) and same(v, float(fresh)), "depends-on-history:" + name, lambda: "%s is %r, then %r, "
                          "and %r from a new metric" % (what, v, float(again), float(fresh)))
                ctx.check(same(float(m.value), v), "value:" + name, lambda: "%s: value %r, computed %r" % (what, m.value, v))
                if len(points) != 1 or points[0].shape != (n, len(plan["lo"])):
                    ctx.probe("points_not_seen")
                    continue
                x = points[0]
                with np.errstate(all="ignore"):
                    if name == "KLD":
                        lp, lq = [np.array(d.log_prob(x), dtype=float).reshape(-1) for d in (p, one)]
                        # on a common scale: it does not matter
                        dp, dq = np.exp(lp - np.max(lp)), np.exp(lq - np.max(lq))
                    else:
                        dp, dq = [np.array(d.prob(x), dtype=float).reshape(-1) for d in (p, one)]
                    want = kl(lp, lq) if name == "KLD" else definition(name, dp, dq, x)
                if np.isnan(v):
                    ctx.check(not (np.isfinite(dp).all() and np.isfinite(dq).all() and 1e-280 < dp.max() < 1e280 / n
                                   and 1e-280 < dq.max() < 1e280 / n), "not-a-number:" + name, lambda: "%s is nan with densities %s and %s" % (
                        what, brief(dp), brief(dq)))
                    continue
                finite += np.isfinite(v)
                tol = 1e-9
                if name == "KLD":
                    # logarithms of large magnitude carry the rounding of their size
                    ok = np.isfinite(lp) & np.isfinite(lq)
                    tol += 1e-14 * float(np.abs(lp[ok]).max() + np.abs(lq[ok]).max()) if ok.any() else 0.0
                if name == "JSD":
                    ctx.check(-tol <= v <= 1 + tol, "out-of-bounds:JSD", lambda: "%s is %r" % (what, v))
                else:
                    ctx.check(v >= -tol, "out-of-bounds:" + name, lambda: "%s is %r" % (what, v))
                if op[0] == "self":
                    ctx.check(abs(v) <= tol, "not-zero-for-equal:" + name, lambda: "%s of a distribution with itself is %r" % (what, v))
                if want is not None:
                    ctx.check(abs(v - want) <= 1e-7 * (1 + abs(want)) + tol, "not-the-definition:" + name, lambda: "%s is %r, "
                              "expected %r" % (what, v, want))
                    ctx.probe("compared_with_definition")
            elif op[0] == "req":
                try:
                    res = ctx.call("importance_sample", q.importance_sample, target, op[1], op[2])
                    ready = len(res[0]) > 0
                except SimFault:
                    ctx.call("reset", q.reset)
                    ready = False
            elif op[0] == "reset":
                ctx.call("reset", q.reset)
                ready = False
            elif ready and op[0] == "sample":
                try:
                    q.sample(op[1])
                except SimHang:
                    raise
                except Exception:
                    pass
    return sim_stats(sim, ctx, sig=who, nontrivial=finite > 1)
