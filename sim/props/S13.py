"""The effective sample size reported is that of the samples and weights held."""
import numpy as np

from ..common import *

PID = "S13"
RUNS = {"quick": 12000, "thorough": 200000}
RULE = ("Random samplers go through histories of requests (some cut short, some on targets that are zero in places), "
        "resets, draws and density queries; after each the effective sample size is asked for, directly or in the "
        "statistics, once or twice, and compared with the one computed from the samples and weights the last request returned. "
        "Non-trivial: at least one comparison with unequal weights (or, for chains, unequal states).")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
ASSUME = ["While all weights are zero, or a chain has not moved, the effective sample size is not defined.",
          "Autocorrelations of chains in several dimensions are those of all coordinates about their own means."]


def gen(rnd, i, tier):
    kind = KINDS[i % len(KINDS)]
    dims = some_dims(rnd, [1, 1, 2, 3])
    lo, hi = gen_domain(rnd, dims, cubic=True if kind == "tp" else None)
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    n = size_for(rnd, cfg, tier)
    if kind == "mh" and rnd.random() < .25:
        # a chain that mixes slowly: correlated over many lags
        cfg["params"]["proposal_sigma"] *= rnd.choice([1e-2, 1e-3, 1e-4])
        cfg["params"]["n_steps"] = 1
        n = rnd.randint(60, 250)
    t = gen_target(rnd, lo, hi, scaled=0.0 if kind == "rej" else .1)
    t["cost"] = rnd.choice([0.001, 0.004])
    if rnd.random() < .15:
        a = rnd.randint(0, n)
        t["zero"] = [[a, a + rnd.randint(1, n + 3)]]
    return {"cfg": cfg, "target": t, "ops": gen_ops(rnd, cfg, n, rnd.randint(1, 5), timeouts=.3, extras=True, resets=.1),
            "ask": [rnd.choice(["ness", "ness", "approx", "stats", "twice"]) for _ in range(3)],
            "seed": rnd.randint(0, 2 ** 31 - 1), "stalls": gen_faults(rnd, 4 * n, .3)["stalls"]}


def kish(w):
    return float(np.sum(w) ** 2 / np.sum(w * w) / len(w))


def entropy(w):
    p = w[w > 0]
    return float(np.exp(-np.sum(p * np.log(p))) / len(w))


def chain_estimates(x):
    """Effective sample size per sample from the autocorrelation of the variogram, cut at the first pair of lags with a
    negative sum; several values when rounding decides where that is."""
    n = len(x)
    W = np.sum((x - x.mean(axis=0)) ** 2) / (n - 1)
    rho, total, out = [1.0], 0.0, []
    for t in range(1, n):
        v = np.sum((x[t:] - x[:n - t]) ** 2) / (n - t)
        rho.append(1 - v / (2 * W))
        total += rho[t]
        if t % 2 == 0:
            pair = rho[t - 1] + rho[t]
            if pair < 1e-9:
                out.append(1 / (1 + 2 * total))
            if pair < -1e-9:
                return out
    return out + [1 / (1 + 2 * total)]


def ness_values(kind, x, w):
    """The acceptable values, or None where there is no definition."""
    if kind in ("nested", "multi"):
        return [entropy(w)]
    if kind in ("mh", "rej"):
        if len(x) < 2 or np.max(np.ptp(x, axis=0)) <= 1e-9 * max(1.0, float(np.max(np.abs(x)))):
            return None
        return chain_estimates(x)
    return [kish(w)]


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    dims = len(cfg["lo"])
    target = SimTarget(plan["target"])
    target.keep = False
    real = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:" + kind, build, cfg)
        x, w = np.zeros((0, dims)), np.zeros(0)

        def expect(what):
            return ness_values(kind, x, w) if what == "ness" else [kish(w)]

        def ask(what):
            if what == "stats":
                v = ctx.call("get_stats:" + kind, s.get_stats).get("NESS")
                return None if v is None else float(v)
            return float(ctx.call("get_%sNESS:%s" % ("approx_" if what == "approx" else "", kind),
                                  s.get_approx_NESS if what == "approx" else s.get_NESS))
        for k, op in enumerate(plan["ops"]):
            sim.event("op", repr(op))
            if op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                x, w = np.zeros((0, dims)), np.zeros(0)
            elif op[0] == "req":
                x, w = request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))
                w = w.reshape(-1)
                x = x.reshape(len(w), dims)
            elif len(w) and kind != "mh" and np.sum(w) > 0:
                target.quiet = True
                if op[0] == "sample":
                    ctx.call("sample:" + kind, s.sample, op[1])
                else:
                    ctx.call("prob:" + kind, s.prob, probe_points(cfg))
                target.quiet = False
            if not len(w) or not np.sum(w) > 0 or kind in ("mh", "rej") and len(w) < 2:
                continue
            what = plan["ask"][k % len(plan["ask"])]
            asked = ["ness", "ness"] if what == "twice" else [what]
            if kind in ("mh", "rej") and expect("ness") is None:
                continue
            got = [ask(a) for a in asked]
            if len(got) == 2:
                ctx.check(got[0] == got[1] or got[0] != got[0] and got[1] != got[1], "changes-when-asked:" + kind,
                          lambda: "%r, then %r" % tuple(got))
            want = expect(asked[0])
            if want is None or got[0] is None:
                continue
            tol = 1e-6 if kind in ("mh", "rej") else 1e-9
            ctx.check(any(abs(got[0] - v) <= tol * max(1.0, abs(v)) for v in want), "%s:%s" % (asked[0], kind),
                      lambda: "effective sample size per sample %r, expected %r; %d samples, weights %s" % (
                          got[0], want, len(w), brief(w)))
            real += len(w) > 2 and np.ptp(w if kind not in ("mh", "rej") else x) > 0
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=real > 0)
