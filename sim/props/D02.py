"""Mixtures stay normalised through any sequence of updates."""
import math

import numpy as np

from ais_benchmarks import distributions as D

from ..common import *
from .D01 import Steer

PID = "D02"
RUNS = {"quick": 5000, "thorough": 100000}
RULE = ("Mixtures of one to six components go through random sequences of weight updates (normalised, unnormalised, "
        "negative, zero, undefined, all zero, tiny, huge), of moment updates of their components, of rejected updates "
        "(wrong length, singular covariance), of draws and of density queries; another mixture sharing the components "
        "is updated in between. The weights, densities and draws are compared with a reference mixture. Non-trivial: an "
        "update with something to repair was followed by a draw.")
REAL = ["ais_benchmarks.distributions.CMixtureModel", "ais_benchmarks.distributions.CGaussianMixtureModel",
        "CMultivariateNormal, CMultivariateUniform (components)"]
STUB = ["ambient random stream (numpy global generator, seeded per run; component choices steered in part of the draws)"]
ASSUME = ["Proportions of draws are judged by a test that a correct implementation fails with probability below 1e-12."]
SHRINK = ("ops",)


def gen_weights(rnd, n):
    m = rnd.choice(["norm", "raw", "zero", "neg", "nan", "all0", "tiny", "huge", "mix", "allneg", "allnan", "one", "slightneg", "slight"])
    r = [rnd.random() + .01 for _ in range(n)]
    if m == "norm":
        return [x / sum(r) for x in r]
    if m == "zero":
        return [x if rnd.random() < .5 else 0.0 for x in r]
    if m == "neg":
        return [x if rnd.random() < .6 else -x for x in r]
    if m == "nan":
        return [x if rnd.random() < .6 else "nan" for x in r]
    if m == "all0":
        return [0.0] * n
    if m == "allneg":
        return [-x for x in r]
    if m == "allnan":
        return ["nan"] * n
    if m == "tiny":
        return [x * 1e-300 for x in r]
    if m == "huge":
        return [x * 1e300 for x in r]
    if m == "slightneg":
        return [x if rnd.random() < .6 else -10 ** rnd.uniform(-14, -2) for x in r]
    if m == "slight":
        return [x if rnd.random() < .5 else 10 ** rnd.uniform(-14, -2) for x in r]
    if m == "one":
        k = rnd.randrange(n)
        return [1.0 if j == k else 0.0 for j in range(n)]
    if m == "mix":
        return [rnd.choice([x, 0.0, -x, "nan", -0.0, x * 1e-12]) for x in r]
    return r


def gen(rnd, i, tier):
    n = rnd.randint(1, 6)
    d = rnd.choice([1, 1, 2, 3])
    gmm = rnd.random() < .35
    comps = []
    for j in range(n):
        c = [10.0 * (j + 1) + rnd.uniform(-1, 1) for _ in range(d)]
        if gmm or rnd.random() < .6:
            comps.append({"kind": "normal", "mean": c, "var": [rnd.uniform(.01, .08) for _ in range(d)]})
        else:
            comps.append({"kind": "uniform", "center": c, "radius": [rnd.uniform(.2, 1.5) for _ in range(d)]})
    ops = []
    for _ in range(rnd.randint(3, 14)):
        k = rnd.choice(["weights", "weights", "draw", "prob", "moments", "bad", "other", "count"])
        if k in ("weights", "other"):
            ops.append([k, gen_weights(rnd, n)])
        elif k == "draw":
            ops.append([k, rnd.randint(1, 12), rnd.choice(["plain", "low", "high", "mixed"]), rnd.randint(0, 10 ** 6)])
        elif k == "moments":
            j = rnd.randrange(n)
            if comps[j]["kind"] == "normal" and rnd.random() < .3:
                # the variances change places
                prev = next((o[3] for o in reversed(ops) if o[0] == "moments" and o[1] == j and o[3]), comps[j]["var"])
                ops.append([k, j, None, list(reversed(prev)), 0.0])
                continue
            ops.append([k, j, rnd.choice([None, [rnd.uniform(-1, 1) for _ in range(d)]]),
                        rnd.choice([None, [rnd.uniform(.01, .08) for _ in range(d)]]), rnd.choice([0.0, rnd.uniform(-.4, .9)])])
        elif k == "bad":
            ops.append([k, rnd.choice(["length", "singular", "shape"]), rnd.randrange(n)])
        elif k == "count":
            ops.append([k, 150])
        else:
            ops.append([k])
    return {"comps": comps, "dims": d, "gmm": gmm, "weights": gen_weights(rnd, n), "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1)}


def floats(w):
    return np.array([float(x) for x in w])


def clean(w):
    """What the weights have to become."""
    out = [0.0 if (x != x or x <= 0) else float(x) for x in w]
    s = sum(out)
    return np.array([x / s for x in out]) if s > 0 else np.full(len(out), 1.0 / len(out))


class Comp:
    """Reference component."""

    def __init__(self, c):
        self.c = c

    def log(self, x):
        c = self.c
        if c["kind"] == "normal":
            C = self.cov()
            z = np.linalg.solve(np.linalg.cholesky(C), (x - np.array(c["mean"])).T)
            return -.5 * (np.sum(z * z, axis=0) + np.linalg.slogdet(2 * np.pi * C)[1])
        lo = np.array(c["center"]) - np.array(c["radius"])
        hi = np.array(c["center"]) + np.array(c["radius"])
        ins = np.all((lo <= x) & (x <= hi), axis=1)
        return np.where(ins, -np.sum(np.log(hi - lo)), -np.inf)

    def cov(self):
        v = np.sqrt(np.array(self.c["var"]))
        r = self.c.get("rho", 0.0)
        return np.outer(v, v) * (np.full((len(v), len(v)), r) + np.eye(len(v)) * (1 - r))

    def middle(self):
        return np.array(self.c["mean" if self.c["kind"] == "normal" else "center"])


def run(plan, known):
    ctx = Ctx(known)
    d = plan["dims"]
    ref = [Comp(dict(c)) for c in plan["comps"]]
    n = len(ref)
    repaired = drawn = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        sup = np.array([[0.0] * d, [80.0] * d])
        w = floats(plan["weights"])
        if plan["gmm"]:
            mix = ctx.call("construct", D.CGaussianMixtureModel, {
                "means": np.array([c["mean"] for c in plan["comps"]]), "sigmas": np.array([c["var"] for c in plan["comps"]]),
                "weights": w.copy(), "support": sup})
            models = mix.models
            inner = mix.gmm
        else:
            models = []
            for c in plan["comps"]:
                if c["kind"] == "normal":
                    models.append(D.CMultivariateNormal({"mean": np.array(c["mean"]), "sigma": np.diag(c["var"])}))
                else:
                    models.append(D.CMultivariateUniform({"center": np.array(c["center"]), "radius": np.array(c["radius"])}))
            mix = inner = ctx.call("construct", D.CMixtureModel, {"models": models, "weights": w.copy(), "dims": d, "support": sup})
        other = D.CMixtureModel({"models": models, "weights": np.ones(n), "dims": d, "support": sup})
        W = clean(w)
        dirty = bool(np.any(~(w > 0)))

        def weights_ok(after):
            got = np.asarray(inner.weights, dtype=float)
            ctx.check(got.shape == (n,) and bool(np.all(got >= 0)) and abs(got.sum() - 1) <= 1e-9, "not-normalised",
                      lambda: "after %s the weights are %s" % (after, got))
            ctx.check(close(got, W, 1e-9, 1e-300), "wrong-weights", lambda: "after %s the weights are %s, expected %s" % (after, got, W))

        def density_ok():
            x = np.vstack([r.middle() + s for r in ref for s in (0.0, .07, -.19)] + [np.full(d, 3.3)])
            logs = np.array([r.log(x) for r in ref])
            with np.errstate(all="ignore"):
                want = np.sum(np.exp(logs) * W[:, None], axis=0)
                lw = np.array([math.log(v) if v > 0 else -np.inf for v in W])[:, None] + logs
                top = np.max(lw, axis=0)
                lwant = np.where(top > -np.inf, top + np.log(np.sum(np.exp(lw - np.where(top > -np.inf, top, 0)), axis=0)), -np.inf)
                pr = np.asarray(ctx.call("prob", mix.prob, x), dtype=float).reshape(-1)
                lp = np.asarray(ctx.call("log_prob", mix.log_prob, x), dtype=float).reshape(-1)
            ctx.check(close(pr, want, 1e-7, 1e-300), "density", lambda: "density %s, expected %s" % (brief(pr), brief(want)))
            far = lwant < -600
            ctx.check(close(lp[~far], lwant[~far], 1e-7, 1e-7), "log-density", lambda: "log density %s, expected %s" % (brief(lp), brief(lwant)))

        def which(x):
            """The component each draw comes from: they are far apart."""
            c = np.array([r.middle() for r in ref])
            return np.argmin(np.abs(x[:, :1] - c[:, 0][None, :]), axis=1)
        weights_ok("construction")
        for op in plan["ops"]:
            sim.event("op", repr(op))
            k = op[0]
            if k == "weights":
                w = floats(op[1])
                ctx.call("set_weights", inner.set_weights, w.copy())
                W = clean(w)
                if np.any(~(w > 0)):
                    dirty = True
                    sim.fire("weights_to_repair")
                weights_ok("set_weights(%s)" % w)
            elif k == "other":
                other.set_weights(floats(op[1]))
                weights_ok("an update of another mixture")
            elif k == "moments":
                r = ref[op[1]]
                if r.c["kind"] != "normal":
                    continue
                base = np.array(plan["comps"][op[1]]["mean"])
                if op[2] is not None:
                    r.c["mean"] = (base + np.array(op[2])).tolist()
                if op[3] is not None:
                    r.c["var"] = list(op[3])
                r.c["rho"] = op[4]
                ctx.call("set_moments", models[op[1]].set_moments, np.array(r.c["mean"]), r.cov())
            elif k == "bad":
                sim.fire("rejected_update")
                try:
                    if op[1] == "length":
                        inner.set_weights(np.ones(n + 1))
                    elif ref[op[2]].c["kind"] == "normal":
                        m = models[op[2]]
                        m.set_moments(np.zeros(d), np.zeros((d, d)) if op[1] == "singular" else np.eye(d + 1))
                    else:
                        raise AssertionError
                    ctx.violate("accepted", "an invalid update (%s) was accepted" % op[1])
                except (AssertionError, ValueError, np.linalg.LinAlgError):
                    pass
                weights_ok("a rejected update")
                density_ok()
            elif k == "prob":
                density_ok()
            elif k in ("draw", "count"):
                if k == "draw" and op[2] != "plain":
                    st = sim.rng_hook = Steer(op[2], op[3])
                x = np.asarray(ctx.call("sample", mix.sample, op[1]), dtype=float)
                if sim.rng_hook is not None:
                    sim.rng_hook = None
                    sim.fire("edge_outcome", st.n)
                ctx.check(x.shape == (op[1], d), "shape", lambda: "%d draws of shape %s" % (op[1], x.shape))
                c = which(x)
                counts = np.bincount(c, minlength=n)
                ctx.check(not np.any(counts[W == 0]), "draw-without-weight", lambda: "draws per component %s with weights %s" % (counts, W))
                with np.errstate(all="ignore"):
                    lo = np.array([ref[j].log(x[i:i + 1])[0] for i, j in enumerate(c)])
                ctx.check(bool(np.all(lo > -200)), "not-from-a-component", lambda: "draw %s of no component" % x[int(np.argmin(lo))])
                if k == "count":
                    for j in range(n):
                        t = chernoff(op[1], counts[j], W[j])
                        ctx.check(t < 30, "out-of-proportion", lambda: "%s draws of %d per component with weights %s" % (counts, op[1], W))
                    ctx.probe("proportions_tested")
                if dirty:
                    drawn += 1
                density_ok()
        weights_ok("the end")
        density_ok()
    return sim_stats(sim, ctx, sig="%d" % n, nontrivial=drawn > 0)


def chernoff(n, k, p):
    """-log of a bound on the probability of a count this far from n p."""
    q = k / n
    if p <= 0 or p >= 1:
        return 0.0 if q == p or abs(q - p) < 1e-9 else 1e9
    t = 0.0
    if q > 0:
        t += q * math.log(q / p)
    if q < 1:
        t += (1 - q) * math.log((1 - q) / (1 - p))
    return n * t
