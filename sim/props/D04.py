"""Conditioned models answer for what they were last conditioned on."""
import numpy as np

from ais_benchmarks import distributions as D

from ..common import *
from .D01 import Steer

PID = "D04"
RUNS = {"quick": 40000, "thorough": 600000}
RULE = ("Noisy functions, generative models with nuisance parameters and the ABC posterior built on them go through random "
        "histories of conditioning, parameter changes, generation and evaluation, two posteriors sharing one generative "
        "model; the random stream is the simulator's, with outcomes at the ends of their range. Every generated value and "
        "every density is compared with the one computed from the same outcomes of the generator and the latest condition. "
        "Non-trivial: a model was evaluated after its condition changed.")
REAL = ["ais_benchmarks.distributions.GenericNoisyFunction, GenericNuisanceGenModel, ABCDistribution", "CMultivariateNormal, "
        "CMultivariateUniform (noise, prior, nuisance)"]
STUB = ["the generated functions (pure functions of parameters and nuisance)", "outcomes of the random generator"]
ASSUME = ["The density of a noisy function is that of its noise around the conditioning value, as its code says, so it is checked "
          "for functions that return their argument and against the conditioning value only."]
SHRINK = ("ops",)


def gen(rnd, i, tier):
    d = rnd.choice([1, 1, 2, 3])
    ops = []
    pts = lambda n, w: [[rnd.uniform(-2, 2) for _ in range(w)] for _ in range(n)]
    kind = rnd.choice(["noisy", "nuisance", "abc", "abc", "abc"])
    for _ in range(rnd.randint(2, 12)):
        k = rnd.choice(["condition", "condition", "eval", "eval", "eval_log", "draw", "params", "other", "none"])
        n = rnd.choice([1, 1, 2, 5] if rnd.random() < .93 else [12, 40])
        z = pts(n, d)
        if ops and rnd.random() < .35:
            z = rnd.choice(ops)[1]      # points used before
        ops.append([k, z, rnd.choice(["plain", "plain", "low", "high", "mixed"]), rnd.randint(0, 2 ** 31 - 1), n])
    return {"kind": kind, "dims": d, "ops": ops, "obs": rnd.choice([1, 1, 2, 3]), "slack": rnd.uniform(.05, 1.5),
            "lik": rnd.choice(["both", "log", "plain"]), "gen": rnd.choice(["noisy", "noisy", "nuisance"]),
            "noise": rnd.choice(["normal", "normal", "uniform"]), "fn": rnd.randint(0, 2), "seed": rnd.randint(0, 2 ** 31 - 1)}


class Tensor(np.ndarray):
    """What gradient libraries return: values that have to be detached."""

    def detach(self):
        return np.asarray(self)


FUN = [lambda x, z: x, lambda x, z: np.sin(3 * x) + (0 if z is None else z), lambda x, z: x * x - 1 + (0 if z is None else 2 * z)]


def run(plan, known):
    ctx = Ctx(known)
    d = plan["dims"]
    changed = evaluated = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        sup = np.array([[-3.0] * d, [3.0] * d])

        def noise():
            if plan["noise"] == "normal":
                return D.CMultivariateNormal({"mean": np.zeros(d), "sigma": np.eye(d) * .2})
            return D.CMultivariateUniform({"center": np.zeros(d), "radius": np.full(d, .4)})
        nz = noise()
        nuis = D.CMultivariateUniform({"center": np.zeros(2), "radius": np.ones(2)})
        fn = FUN[plan["fn"]]
        asked = []

        def gen_f(z, n):
            asked.append((np.array(z), np.array(n)))
            z = np.asarray(z)
            rep = len(n) // max(len(z), 1)
            return (np.repeat(z, rep, axis=0) + .3 * n[:, :1] - .1 * n[:, 1:2]).view(Tensor)

        def noisy(f=fn):
            return D.GenericNoisyFunction({"noise_model": nz, "function": f, "dims": d, "support": sup})

        def nuisance():
            return D.GenericNuisanceGenModel({"gen_function": gen_f, "params_mask": np.ones(d, dtype=bool), "noise_sigma": 0.0,
                                              "nuisance_dist": nuis, "dims": d, "support": sup})
        kind = plan["kind"]
        gkind = kind if kind != "abc" else plan["gen"]
        model = ctx.call("construct", noisy if gkind == "noisy" else nuisance)
        cond = par = None

        def stream(op):
            """The same outcomes of the generator every time it is called."""
            np.random.seed(op[3])
            sim.rng_hook = None if op[2] == "plain" else Steer(op[2], op[3])
            if op[2] != "plain":
                sim.fire("edge_outcome")

        def expected(op, z, n=1):
            stream(op)
            if gkind == "noisy":
                e = nz.sample(len(z))
                out = fn(z, par).reshape(len(z), d) + e
            else:
                u = nuis.sample(len(z) * n)
                out = np.repeat(z, n, axis=0) + .3 * u[:, :1] - .1 * u[:, 1:2]
            sim.rng_hook = None
            return out

        def refuses(what, f, *a):
            try:
                f(*a)
            except ValueError:
                return
            except Exception as e:
                ctx.violate("raises:unconditioned:%s" % type(e).__name__, "%s without a condition raised %r" % (what, e))
            ctx.violate("unconditioned", "%s without a condition gave an answer" % what)

        if kind == "abc":
            prior = D.CMultivariateNormal({"mean": np.full(d, .3), "sigma": np.eye(d) * .8})
            sensor = D.GenericNoisyFunction({"noise_model": noise(), "function": lambda x, z: x, "dims": d, "support": sup})

            def ll(o, y, slack):
                return -.5 * np.sum((np.asarray(y, dtype=float) - np.asarray(o)) ** 2, axis=1) / slack ** 2

            def like(o, y, slack):
                return np.exp(ll(o, y, slack))
            lik = plan["lik"]

            def posterior(slack):
                return D.ABCDistribution({"likelihood_f": None if lik == "log" else like, "loglikelihood_f": None if lik == "plain" else ll,
                                          "prior_d": prior, "sensor_d": sensor, "gen_d": model, "slack": slack, "support": sup})
            post = ctx.call("construct", posterior, plan["slack"])
            other = posterior(plan["slack"] * 3)
            m = min(plan["obs"], d)
            other.condition(np.full(m, 9.0))
        obs = None
        for op in plan["ops"]:
            sim.event("op", repr(op))
            k, z = op[0], np.array(op[1])
            if kind == "abc":
                if k == "condition":
                    obs = z[0][:m].copy()
                    ctx.call("condition", post.condition, obs.copy())
                    changed += 1
                elif k in ("eval", "eval_log"):
                    f = post.prob if k == "eval" else post.log_prob
                    if obs is None:
                        refuses(k, f, z)
                        continue
                    y = expected(op, z)[:, :m]
                    with np.errstate(all="ignore"):
                        want = ll(obs, y, plan["slack"]) + np.asarray(prior.log_prob(z))
                        if k == "eval":
                            want = np.exp(want)
                    stream(op)
                    z0 = z.copy()
                    with np.errstate(all="ignore"):
                        got = np.asarray(ctx.call(k, f, z), dtype=float).reshape(-1)
                    sim.rng_hook = None
                    ok = close(got, want, 1e-9, 1e-280) if got.shape == want.shape else False
                    if lik == "plain" and k == "eval_log":
                        far = ll(obs, y, plan["slack"]) < -650
                        ok = got.shape == want.shape and close(got[~far], want[~far], 1e-9, 1e-9)
                    ctx.check(ok, "posterior", lambda: "%s at %s given %s: %s, expected %s" % (k, brief(z), obs, brief(got), brief(want)))
                    ctx.check(np.array_equal(z, z0), "argument-changed", "the evaluated points were changed")
                    evaluated += changed > 1
                elif k == "other":
                    with np.errstate(all="ignore"):
                        ctx.call("other", other.prob, z)
                    if op[4] > 1:
                        other.condition(z[0][:m] + 5)
                elif k == "params" and gkind == "noisy":
                    par = float(z[0][0])
                    model.set_params(par)
                elif k == "draw" and gkind == "noisy":
                    # the joint: prior, generative model, sensor
                    n = op[4]
                    stream(op)
                    p = prior.sample(n)
                    x = fn(p, par).reshape(n, d) + nz.sample(n)
                    want = x + sensor.noise_model.sample(n)
                    stream(op)
                    got = np.asarray(ctx.call("sample", post.sample, n), dtype=float)
                    sim.rng_hook = None
                    ctx.check(got.shape == (n, d) and close(got, want, 1e-9, 1e-12), "joint-draw", lambda: "%d draws: %s, expected %s" % (
                        n, brief(got), brief(want)))
                continue
            if k == "condition":
                cond = z
                ctx.call("condition", model.condition, z.copy())
                changed += 1
            elif k == "params" and gkind == "noisy":
                par = float(z[0][0])
                model.set_params(par)
            elif k == "draw":
                if cond is None:
                    if gkind == "nuisance":
                        refuses("sample", model.sample)
                    continue
                n = op[4] if gkind == "nuisance" else 1
                want = expected(op, cond, n)
                stream(op)
                del asked[:]
                got = ctx.call("sample", model.sample, n) if gkind == "nuisance" else ctx.call("sample", model.sample)
                sim.rng_hook = None
                ctx.check(not isinstance(got, Tensor), "not-detached", "the generated values are not detached")
                got = np.asarray(got, dtype=float)
                ctx.check(got.shape == want.shape and close(got, want, 1e-9, 1e-12), "generated", lambda: "generated %s, expected %s" % (
                    brief(got), brief(want)))
                if gkind == "nuisance":
                    ctx.check(len(asked) == 1 and np.array_equal(asked[0][0], cond), "generated-for", lambda: "generated for %s, conditioned on %s" % (
                        [a[0].tolist() for a in asked], cond.tolist()))
                evaluated += changed > 1
            elif k in ("eval", "eval_log"):
                if gkind == "nuisance":
                    with np.errstate(all="ignore"):
                        got = np.asarray(ctx.call(k, model.prob if k == "eval" else model.log_prob, z), dtype=float).reshape(-1)
                    ctx.check(np.array_equal(got, np.full(len(z), 1.0 if k == "eval" else 0.0)), "deterministic-density",
                              lambda: "%s of a deterministic model: %s" % (k, got))
                    continue
                f = model.prob if k == "eval" else model.log_prob
                if cond is None:
                    refuses(k, f, z)
                    continue
                x = z if len(cond) == 1 else cond + z[:1]
                with np.errstate(all="ignore"):
                    want = np.asarray((nz.prob if k == "eval" else nz.log_prob)(x - cond)).reshape(-1)
                    got = np.asarray(ctx.call(k, f, x), dtype=float).reshape(-1)
                ctx.check(got.shape == want.shape and close(got, want, 1e-9, 1e-300), "conditioned-density", lambda: "%s at %s given %s: %s, "
                          "expected %s" % (k, brief(x), brief(cond), brief(got), brief(want)))
                evaluated += changed > 1
    return sim_stats(sim, ctx, sig=kind, nontrivial=evaluated > 0)
