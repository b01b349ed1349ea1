"""Methods are given the targets the file describes."""
import glob

import numpy as np
import yaml

from ais_benchmarks.utils.misc import generateEggBoxGMM, generateRandomGMM

from ..bench import *
from ..common import *
from .D03 import PLAIN, Ref, plain_log

PID = "R08"
RUNS = {"quick": 3000, "thorough": 40000}
RULE = ("Definition files with targets of every type that can be described by numbers, written out by hand or generated by the "
        "package (random and egg-box mixtures, written down with to_dict), are benchmarked with scripted and real methods. "
        "At every request and after every one the target handed to the method is compared with the described "
        "density and support. The definition files shipped with the package are loaded as well. Non-trivial: at least two targets "
        "or two requests were compared.")
REAL = REAL_BENCH + ["ais_benchmarks.distributions (targets)", "ais_benchmarks.sampling_methods (half of the methods)",
                     "ais_benchmarks.utils.misc.generateRandomGMM, generateEggBoxGMM, to_dict"]
STUB = ["clock", "heap size", "scripted sampling methods (the other half)"]
ASSUME = ["Exact up to 1e-9 relative rounding of log densities."]
SHRINK = ("targets", "methods", "metrics")

BENCHDEN = {"bd_uniform": "BenchDenUniform", "bd_exp": "BenchDenExponential", "maxwell": "BenchDenMaxwell",
            "laplace": "BenchDenLaplace", "pareto": "BenchDenSymmetricPareto", "banana": "Banana2D"}
SUPPORT = {"bd_uniform": [[0], [1]], "bd_exp": [[0], [4]], "maxwell": [[0], [4]], "laplace": [[-6], [6]], "pareto": [[-20], [20]],
           "banana": [[-10, -10], [10, 10]]}


def gen_described(rnd):
    k = rnd.choice(["gmm", "gmm", "normal", "exp", "generated", "generated", "eggbox"] + sorted(BENCHDEN))
    d = rnd.choice([1, 1, 2, 3])
    num = lambda a, b: rnd.choice([rnd.uniform(a, b), round(rnd.uniform(a, b), 2), float(round(rnd.uniform(a, b)))])
    sup = [[round(rnd.uniform(-9, -4), 2) for _ in range(d)], [round(rnd.uniform(4, 9), 2) for _ in range(d)]]
    if k == "gmm":
        n = rnd.randint(1, 6)
        p = {"means": [[num(-4, 4) for _ in range(d)] for _ in range(n)], "sigmas": [[rnd.uniform(.01, 2) for _ in range(d)] for _ in range(n)],
             "support": sup}
        if rnd.random() < .7:
            p["weights"] = [rnd.choice([.5, rnd.uniform(.01, 1), 2.0]) for _ in range(n)]
    elif k == "normal":
        a = np.array([[rnd.uniform(-1, 1) for _ in range(d)] for _ in range(d)])
        c = a @ a.T + .2 * np.eye(d)
        p = {"mean": [num(-3, 3) for _ in range(d)], "sigma": ((c + c.T) / 2).tolist(), "support": sup}
    elif k == "exp":
        p = {"mean": [rnd.uniform(.1, 4) for _ in range(d)], "support": [[0.0] * d, [9.0] * d]}
    elif k == "generated":
        p = {"n": rnd.choice([1, 2, 3, 8, 25]), "seed": rnd.randint(0, 10 ** 6), "space": rnd.choice([1.0, 2.5])}
    elif k == "eggbox":
        p = {"delta": rnd.choice([.5, 1.0]), "sigma": rnd.choice([.1, .02])}
    else:
        p = {}
        d = 2 if k == "banana" else 1
    b = rnd.choice([1, 2, 4, 8])
    return {"kind": k, "dims": d, "p": p, "batch_size": b, "nsamples": rnd.randint(1, 4 * b), "nsamples_eval": rnd.choice([4, 10, 30])}


def gen(rnd, i, tier):
    if i < 3 or rnd.random() < .005:
        return {"shipped": True, "seed": 1, "targets": []}
    names = rnd.sample(NAMES, len(NAMES))
    targets = [dict(gen_described(rnd), name=names.pop()) for _ in range(rnd.choice([1, 2, 3]))]
    methods = []
    for _ in range(rnd.choice([1, 1, 2])):
        if rnd.random() < .5:
            methods.append(sim_method(rnd, names.pop(), yields=[0], durations=[rnd.choice([.001, .5])], rng=rnd.random() < .5))
        else:
            flat = any(t["kind"] == "bd_uniform" for t in targets)    # nested sampling cannot climb there
            methods.append(real_method(rnd, names.pop(), rnd.choice(["dm", "pmc", "lais", "mh", "hid", "tp", "rej"] + ([] if flat else ["nested", "multi"]))))
    return {"targets": targets, "methods": methods,
            "config": {"nreps": rnd.choice([1, 1, 2]), "rseed": rnd.choice([-1, 0, 11]),
                       "metrics": [m for m in METRICS if rnd.random() < .4 and m != "T"]},
            "twice": rnd.random() < .3, "seed": rnd.randint(0, 2 ** 31 - 1), "read_cost": 1e-5, "stalls": gen_faults(rnd, 300, .3)["stalls"]}


class Described:
    """What a target's description means."""

    def __init__(self, t):
        self.kind = k = t["kind"]
        self.d = t["dims"]
        p = t["p"]
        self.made = None
        if k in ("generated", "eggbox"):
            d = self.d
            np.random.seed(p.get("seed", 0))
            if k == "generated":
                g = generateRandomGMM(np.full(d, -p["space"]), np.full(d, p["space"]), p["n"], (.04,) * d, (.05,) * d)
            else:
                g = generateEggBoxGMM(np.full(d, -1.0), np.full(d, 1.0), p["delta"], p["sigma"])
            self.ref = Ref({"kind": "gmm", "dims": d, "means": [np.array(m) for m in g.means], "sigmas": [np.array(s) for s in g.sigmas],
                            "weights": [float(w) for w in g.weights]})
            self.support = np.array(g.support(), dtype=float)
            self.entry = g.to_dict(t["name"], batch_size=t["batch_size"], nsamples=t["nsamples"], nsamples_eval=t["nsamples_eval"])
            self.at = np.array(g.means)
            return
        if k == "gmm":
            self.ref = Ref(dict(p, kind="gmm", dims=self.d, means=[np.array(m) for m in p["means"]], weights=p.get("weights")))
            typ, self.at = "CGaussianMixtureModel", np.array(p["means"])
        elif k in ("normal", "exp"):
            self.ref = Ref(dict(p, kind=k, dims=self.d))
            typ, self.at = {"normal": "CMultivariateNormal", "exp": "CMultivariateExponential"}[k], np.array([p["mean"]])
        else:
            self.ref = None if k in PLAIN else Ref({"kind": k, "dims": 1})
            typ, self.at = BENCHDEN[k], np.full((1, self.d), .5)
        self.support = np.array(p.get("support", SUPPORT.get(k)), dtype=float)
        self.entry = {"name": t["name"], "type": typ, "params": p, "batch_size": t["batch_size"], "nsamples": t["nsamples"],
                      "nsamples_eval": t["nsamples_eval"]}

    def log(self, x):
        return plain_log(self.kind, x) if self.ref is None else self.ref.log(x)

    def compare(self, ctx, target, u, where):
        """The target has the described density at some points."""
        sup = np.asarray(ctx.call("support", target.support), dtype=float)
        ctx.check(sup.shape == self.support.shape and np.array_equal(sup, self.support), "support:" + self.kind,
                  lambda: "%s: support %s instead of %s" % (where, sup.tolist(), self.support.tolist()))
        x = np.vstack((self.support[0] + (self.support[1] - self.support[0]) * u.uniform(-.1, 1.1, size=(6, self.d)),
                       self.at[u.randint(len(self.at), size=4)] + u.uniform(-.3, .3, size=(4, self.d))))
        with np.errstate(all="ignore"):
            want = self.log(x)
            lp = np.asarray(ctx.call("log_prob:" + self.kind, target.log_prob, x), dtype=float).reshape(-1)
            pr = np.asarray(ctx.call("prob:" + self.kind, target.prob, x), dtype=float).reshape(-1)
            ctx.check(lp.shape == (10,) and pr.shape == (10,), "shape:" + self.kind, lambda: "%s: shape" % where)
            ok = (abs(lp - want) <= 1e-6 + 1e-9 * abs(want)) | (lp == want) | ((want < -650) & (lp < -600))
            ok &= abs(pr - np.exp(want)) <= 1e-6 * np.exp(want) + 1e-290
        ctx.check(bool(np.all(ok)), "density:" + self.kind, lambda: "%s: density %r and log density %r at %s, described log density %r" % (
            where, pr[~ok][0], lp[~ok][0], x[~ok][0], want[~ok][0]))


class Look(RequestTap):
    """Looks at the targets handed over."""

    def wrap(self, fn, before, after):
        def importance_sample(method, *a, **k):
            self.depth += 1
            target = a[0] if a else k.get("target_d")
            try:
                if self.depth == 1:
                    before(method, target, "before a request")
                res = fn(method, *a, **k)
                if self.depth == 1:
                    before(method, target, "after a request")
                return res
            finally:
                self.depth -= 1
        return importance_sample


SHIPPED = {"CGaussianMixtureModel": "gmm", "CMultivariateNormal": "normal"}


def shipped(ctx, sim):
    """The definition files of the package."""
    root = os.path.dirname(CB.__file__)
    n = 0
    for path in sorted(glob.glob(os.path.join(root, "**", "def_benchmark*.yaml"), recursive=True)):
        name = os.path.relpath(path, root)
        sim.event("file", name)
        with SYS.open(path) as f:
            entries = yaml.safe_load(f)["targets"]
        b = CBenchmark()
        try:
            b.load_benchmark(path)
        except Exception as e:
            ctx.violate("shipped-file-does-not-load:" + name, "%s: %s" % (name, str(e)[:120]))
            continue
        ctx.check([t.name for t in b.targets] == [e["name"] for e in entries], "shipped-targets", lambda: "%s: %s" % (name, b.targets))
        for e, t in zip(entries, b.targets):
            kind = SHIPPED.get(e["type"]) or {v: k for k, v in BENCHDEN.items()}[e["type"].split(".")[-1]]
            p = {k: v for k, v in e["params"].items() if k in ("means", "sigmas", "mean", "sigma", "support", "weights")}
            if "support" in p:
                p["support"] = np.array(p["support"], dtype=float).reshape(2, -1).tolist()
            d = len(p["means"][0]) if "means" in p else len(p["mean"]) if "mean" in p else 2 if kind == "banana" else 1
            Described({"kind": kind, "dims": d, "p": p, "name": e["name"], "batch_size": 1, "nsamples": 1, "nsamples_eval": 1}).compare(
                ctx, t, np.random.RandomState(n), name)
            n += 1
    return n


def run(plan, known):
    ctx = Ctx(known)
    n = [0]
    if plan.get("shipped"):
        with simple_sim(plan) as sim:
            k = shipped(ctx, sim)
        return sim_stats(sim, ctx, sig="shipped", nontrivial=k > 1)
    with Arena() as arena, simple_sim(plan, max_events=400000) as sim:
        arm(sim, arena.root)
        out = os.path.join(arena.root, "res", "results.txt")
        described = {t["name"]: ctx.call("describe:" + t["kind"], Described, t) for t in plan["targets"]}
        for t in plan["targets"]:
            ctx.check(described[t["name"]].entry["name"] == t["name"], "entry", "the name is not written down")
        files = write_files(arena.root, dict(plan, targets=[]))
        with SYS.open(files[0], "w") as f:
            yaml.safe_dump({"targets": [described[t["name"]].entry for t in plan["targets"]]}, f, sort_keys=False)
        u = np.random.RandomState(plan["seed"])
        seen = []

        def look(method, target, when):
            state = np.random.get_state()
            ctx.check(getattr(target, "name", None) in described, "unknown-target", lambda: "target %r" % getattr(target, "name", None))
            described[target.name].compare(ctx, target, u, "%s, %s on %s" % (when, method.name, target.name))
            np.random.set_state(state)
            n[0] += 1
            if not seen or seen[-1] != target.name:
                seen.append(target.name)
        tap = Look(look)
        try:
            np.random.seed(plan["seed"])
            bench = None
            for _ in range(2 if plan["twice"] else 1):
                del seen[:]
                bench = ctx.call("run", run_bench, files, out, 1e12, bench)
                ctx.check(seen == [t["name"] for t in plan["targets"]], "targets", lambda: "evaluated %s, described %s" % (
                    seen, [t["name"] for t in plan["targets"]]))
                for t, b, s, e in zip(plan["targets"], bench.batch_sizes, bench.nsamples, bench.eval_sampl):
                    ctx.check((b, s, e) == (t["batch_size"], t["nsamples"], t["nsamples_eval"]), "sizes", lambda: "%s: batch size, "
                              "number of samples and of evaluation points %s" % (t["name"], (b, s, e)))
        finally:
            tap.close()
        sim.root = None
    return sim_stats(sim, ctx, sig="/".join(sorted(t["kind"] for t in plan["targets"])), nontrivial=n[0] > 2)
