"""The parts of a simulated world: target densities, scripted samplers, configurations of the real samplers."""
import copy
import functools
import math
import os
import zlib

import numpy as np

from . import kernel
from .kernel import FAULTS, SimFault, SimHang, SimCrash, Violation

import ais_benchmarks.sampling_methods as SM
import ais_benchmarks.distributions as DIST
from ais_benchmarks.distributions import CDistribution


# --- proposal draws -----------------------------------------------------------------------------------------------------
class Draws:
    """Observes the points drawn from distribution objects. sim.on_draw(dist, rows, depth); depth 0 is the outermost call."""
    depth = 0
    done = set()

    @classmethod
    def install(cls):
        todo = [CDistribution]
        while todo:
            c = todo.pop()
            todo.extend(c.__subclasses__())
            if c in cls.done or "sample" not in vars(c) or c.__module__.startswith("sim"):
                continue
            cls.done.add(c)
            cls.wrap(c, vars(c)["sample"])

    @classmethod
    def wrap(cls, c, real):
        if not callable(real):
            return

        @functools.wraps(real)
        def sample(self, *a, **k):
            sim = kernel.CUR
            if sim is None or sim.on_draw is None:
                return real(self, *a, **k)
            cls.depth += 1
            try:
                res = real(self, *a, **k)
            finally:
                cls.depth -= 1
            sim.on_draw(self, res, cls.depth)
            return res
        c.sample = sample


# --- targets ----------------------------------------------------------------------------------------------------------
class SimTarget(CDistribution):
    """A closed form density whose every evaluation is an event of the simulation.

    plan: kind (gmm, flat, box, slope, cauchy), dims, support [[..], [..]] and parameters; optionally cost (simulated
    seconds per evaluated point), zero (list of [from, to) evaluation indices with zero density), fail (evaluation
    call index that raises).
    """

    def __init__(self, params):
        p = dict(params)
        sup = np.array([np.array(p["support"][0], dtype=float).reshape(-1),
                        np.array(p["support"][1], dtype=float).reshape(-1)])
        base = {"type": "sim", "family": "sim", "dims": int(p["dims"]), "support": sup,
                "likelihood_f": self.prob, "loglikelihood_f": self.log_prob}
        super().__init__(base)
        self.kind = p["kind"]
        self.p = p
        self.name = p.get("name", "sim")
        self.cost = float(p.get("cost", 0.0))
        self.zero = [tuple(z) for z in p.get("zero", [])]
        self.fail = set(p.get("fail", []))
        self.exc = p.get("exc") or sorted(FAULTS)[sum(self.fail) % len(FAULTS)]
        self.slow = {int(k): float(v) for k, v in (p.get("slow") or {}).items()}  # slow evaluation calls
        self.points = []      # every evaluated point, in order
        self.calls = 0
        self.npoints = 0
        self.keep = True
        self.quiet = False    # evaluations made by an oracle

    # the density itself, without any event
    def pdf(self, x):
        return self._pdf(x) * float(self.p.get("scale", 1.0))

    def _pdf(self, x):
        x = np.asarray(x, dtype=float).reshape(-1, self.dims)
        k = self.kind
        p = self.p
        lo, hi = self.support_vals[0], self.support_vals[1]
        if k == "gmm":
            res = np.zeros(len(x))
            for m, s, w in zip(p["means"], p["sigmas"], p["weights"]):
                m = np.array(m, dtype=float)
                s = np.array(s, dtype=float)
                e = -0.5 * np.sum((x - m) ** 2 / s, axis=1)
                res += w * np.exp(e) / np.sqrt(np.prod(2 * np.pi * s))
            return res
        if k == "flat":
            return np.full(len(x), 1.0 / np.prod(hi - lo))
        if k == "box":
            b0 = np.array(p["box"][0], dtype=float)
            b1 = np.array(p["box"][1], dtype=float)
            ins = np.all((b0 <= x) & (x <= b1), axis=1)
            return ins / np.prod(b1 - b0)
        if k == "slope":
            u = (np.clip(x, lo, hi) - lo) / (hi - lo)
            return np.prod((0.2 + 1.6 * u) / (hi - lo), axis=1)
        if k == "cauchy":
            c = np.array(p["loc"], dtype=float)
            g = np.array(p["gamma"], dtype=float)
            return np.prod(1.0 / (np.pi * g * (1 + ((x - c) / g) ** 2)), axis=1)
        raise ValueError(k)

    def _eval(self, x):
        x = np.asarray(x, dtype=float)
        if x.ndim > 2 or x.shape[-1] != self.dims:
            x = x.reshape(-1, self.dims)
        x = x.reshape(-1, self.dims)
        sim = kernel.CUR
        res = self.pdf(x)
        if sim is None or self.quiet:
            return res
        self.calls += 1
        sim.event("eval", "%08x" % zlib.crc32(np.ascontiguousarray(x).tobytes()))
        sim.advance(self.cost * len(x) * getattr(sim, "speed", 1.0))
        if self.calls in self.slow:
            sim.fire("slow_evaluation")
            sim.advance(self.slow[self.calls])
        if self.calls in self.fail:
            sim.fire("target_failure")
            raise FAULTS[self.exc]("target evaluation %d failed" % self.calls)
        i0 = self.npoints
        self.npoints += len(x)
        if self.keep:
            self.points.extend(np.array(x))
        if self.zero:
            idx = np.arange(i0, i0 + len(x))
            for a, b in self.zero:
                m = (idx >= a) & (idx < b)
                if np.any(m):
                    res[m] = 0.0
                    sim.fire("zero_density")
        if sim.on_eval is not None:
            r = sim.on_eval(self, x, res)
            if r is not None:
                res = r
        return res

    def prob(self, x):
        return self._eval(x)

    def log_prob(self, x):
        with np.errstate(all="ignore"):
            return np.log(self._eval(x))

    def sample(self, nsamples=1):
        raise NotImplementedError

    def condition(self, dist):
        raise NotImplementedError

    def marginal(self, dim):
        raise NotImplementedError

    def __deepcopy__(self, memo):
        return self


def digits(v, n=4):
    """n significant digits, and at least n decimals."""
    return round(v, n) if abs(v) >= 1 else float("%.*g" % (n, v))


def some_dims(rnd, usual):
    return rnd.choice([4, 4, 5]) if rnd.random() < .03 else rnd.choice(usual)


def gen_domain(rnd, dims, cubic=None, dyadic=None):
    """Bounds of the domain. Dyadic bounds make the midpoints of all tree cells exact."""
    if dyadic is None:
        dyadic = rnd.random() < 0.6
    if cubic is None:
        cubic = rnd.random() < 0.5
    unusual = rnd.random() < .05
    lo, hi = [], []
    for d in range(dims):
        if d == 0 or not cubic:
            if unusual:
                r = rnd.choice([2.0 ** -6, 0.0625, 32.0, 128.0])
                c = r * rnd.choice([0.0, 1.0, -4.0, 16.0, 40.0])
            elif dyadic:
                r = rnd.choice([0.5, 1.0, 2.0, 4.0])
                c = rnd.choice([0.0, 0.0, 0.5, -1.0, 2.0])
            else:
                r = round(rnd.uniform(0.4, 5.0), 3)
                c = round(rnd.uniform(-2, 2), 3)
        elif not dyadic:
            pass
        lo.append(c - r)
        hi.append(c + r)
    return lo, hi


def gen_target(rnd, lo, hi, kinds=("gmm", "gmm", "gmm", "flat", "box", "slope", "cauchy"), scaled=0.0):
    dims = len(lo)
    kind = rnd.choice(list(kinds))
    t = {"kind": kind, "dims": dims, "support": [list(lo), list(hi)]}
    if rnd.random() < scaled:
        t["scale"] = rnd.choice([1e9, 1e5, 30.0, 0.05, 1e-6])    # an unnormalised target
    if kind == "gmm":
        n = rnd.randint(1, 3)
        t["means"] = [[digits(rnd.uniform(a + .15 * (b - a), b - .15 * (b - a)), 4) for a, b in zip(lo, hi)]
                      for _ in range(n)]
        t["sigmas"] = [[digits((rnd.uniform(.04, .3) * (b - a)) ** 2, 6) for a, b in zip(lo, hi)] for _ in range(n)]
        w = [rnd.uniform(.2, 1) for _ in range(n)]
        t["weights"] = [digits(x / sum(w), 4) for x in w]
    elif kind == "box":
        b0, b1 = [], []
        for a, b in zip(lo, hi):
            c = rnd.uniform(a + .3 * (b - a), b - .3 * (b - a))
            h = rnd.uniform(.1, .3) * (b - a)
            b0.append(digits(c - h, 4))
            b1.append(digits(c + h, 4))
        t["box"] = [b0, b1]
    elif kind == "cauchy":
        t["loc"] = [digits(rnd.uniform(a + .2 * (b - a), b - .2 * (b - a)), 4) for a, b in zip(lo, hi)]
        t["gamma"] = [digits(rnd.uniform(.1, .4) * (b - a), 4) for a, b in zip(lo, hi)]
    return t


# --- samplers ---------------------------------------------------------------------------------------------------------
FAULTS["LinAlgError"] = type("SimFaultLinAlgError", (SimFault, np.linalg.LinAlgError), {})
KINDS = os.environ.get("SIM_KINDS", "dm pmc lais rej mh nested multi hid tp").split()     # fewer only for tools/mutate.py
CLASS = {"dm": "CDeterministicMixtureAIS", "pmc": "CMixturePMC", "lais": "CLayeredAIS", "rej": "CRejectionSampling",
         "mh": "CMetropolisHastings", "nested": "CNestedSampling", "multi": "CMultiNestedSampling",
         "hid": "CHiDaiseeSampling", "tp": "CTreePyramidSampling"}


def _lst(v):
    return "[" + ",".join(repr(float(x)) for x in v) + "]"


def gen_sampler(rnd, kind=None, dims=None, lo=None, hi=None, tier="quick"):
    """A legal configuration of one of the samplers, as a JSON value."""
    kind = kind or rnd.choice(KINDS)
    if lo is None:
        dims = dims or rnd.choice([1, 1, 1, 2, 2, 3] * 8 + [4, 4, 5])
        lo, hi = gen_domain(rnd, dims, cubic=True if kind == "tp" else None)
    dims = len(lo)
    w = [b - a for a, b in zip(lo, hi)]
    wm = sum(w) / len(w)
    p = {}
    if kind == "dm":
        p = {"K": rnd.randint(1, 4), "N": rnd.randint(1, 4), "J": 1000, "sigma": digits((rnd.uniform(.1, .4) * wm) ** 2, 4)}
    elif kind == "pmc":
        p = {"K": rnd.randint(6 * dims, 6 * dims + 6), "N": rnd.randint(1, 3), "J": 1000,
             "sigma": digits((rnd.uniform(.1, .4) * wm) ** 2, 4)}
    elif kind == "lais":
        p = {"K": rnd.randint(1, 3), "N": rnd.randint(1, 3), "J": 1000, "L": rnd.randint(1, 4),
             "sigma": digits((rnd.uniform(.1, .4) * wm) ** 2, 4), "mh_sigma": digits((rnd.uniform(.05, .3) * wm) ** 2, 4)}
    elif kind == "rej":
        c = [(a + b) / 2 for a, b in zip(lo, hi)]
        if rnd.random() < 0.7:
            prop = "CMultivariateUniform({'center': np.array(%s), 'radius': np.array(%s)})" % (
                _lst(c), _lst([x / 2 for x in w]))
        else:
            prop = "CMultivariateNormal({'mean': np.array(%s), 'sigma': np.diag(np.array(%s))})" % (
                _lst(c), _lst([(x / 2.5) ** 2 for x in w]))
        p = {"scaling": rnd.choice([1, 2, 3.5, 6]), "proposal": prop, "kde_bw": digits((.08 * wm) ** 2, 5),
             "n_samples_kde": rnd.randint(2, 8)}
    elif kind == "mh":
        p = {"n_burnin": rnd.choice([0, 1, 3, 6]), "n_steps": rnd.randint(1, 3),
             "proposal_sigma": digits((rnd.uniform(.08, .5) * wm) ** 2, 4),
             "kde_bw": digits((.08 * wm) ** 2, 5), "n_samples_kde": rnd.randint(2, 8)}
    elif kind in ("nested", "multi"):
        sig = [(rnd.uniform(.08, .3) * x) ** 2 for x in w]
        prop = "CMultivariateNormal({'mean': np.zeros(%d), 'sigma': np.diag(np.array(%s))})" % (dims, _lst(sig))
        p = {"proposal": prop, "N": rnd.randint(4 + 2 * dims, 10 + 2 * dims), "kde_bw": digits((.08 * wm) ** 2, 5),
             "n_samples_kde": rnd.randint(2, 8)}
        if kind == "multi":
            p["converged_radius"] = rnd.choice([0.01, 0.1])
            p["inflate_factor"] = rnd.choice([1.1, 2.0])
    elif kind == "hid":
        p = {"target_ess": rnd.choice([.5, .8, .9]), "n_min": rnd.randint(2, 6), "tau": rnd.choice([.01, .1, 1.0])}
    elif kind == "tp":
        # cells are only cubic
        p = {"method": "simple", "resampling": rnd.choice(["leaf", "none"]), "kernel": rnd.choice(["haar", "haar", "normal"]),
             "ess_target": rnd.choice([0.5, 0.9, 1.5, None]), "n_min": rnd.randint(2, 5),
             "parallel_samples": rnd.choice([1, 2, 4, 8])}
    if rnd.random() < .07:
        enlarge(rnd, kind, p)
    return {"kind": kind, "lo": list(lo), "hi": list(hi), "params": p}


def enlarge(rnd, kind, p):
    """Some configurations use values well above the usual ones."""
    if kind in ("dm", "lais"):
        p[rnd.choice(["K", "N"])] = rnd.randint(8, 24)
    elif kind == "pmc":
        p[rnd.choice(["K", "N"])] += rnd.randint(10, 30)
    elif kind == "tp":
        p["parallel_samples"] = rnd.choice([16, 16, 32, 3])
    elif kind == "hid":
        p["n_min"] = rnd.randint(10, 30)
    elif kind in ("nested", "multi"):
        p["N"] += rnd.randint(10, 40)
    elif kind == "mh":
        p["n_burnin"] = rnd.randint(10, 40)
        p["n_steps"] = rnd.randint(1, 8)
    if "n_samples_kde" in p and rnd.random() < .5:
        p["n_samples_kde"] = rnd.choice([1, 20, 60])


def build(cfg):
    params = dict(cfg["params"])
    params["space_min"] = np.array(cfg["lo"], dtype=float)
    params["space_max"] = np.array(cfg["hi"], dtype=float)
    params["dims"] = len(cfg["lo"])
    if isinstance(params.get("proposal_d"), dict):
        params["proposal_d"] = moves(params["proposal_d"])
    return getattr(SM, CLASS[cfg["kind"]])(params=params)


def moves(d):
    """A proposal distribution for the moves of a chain."""
    if d["kind"] == "normal":
        return DIST.CMultivariateNormal({"mean": np.array(d["mean"]), "sigma": np.array(d["sigma"])})
    return DIST.CMultivariateUniform({"center": np.array(d["mean"]), "radius": np.array(d["radius"])})


def gen_moves(rnd, lo, hi):
    w = [b - a for a, b in zip(lo, hi)]
    off = rnd.choice([0, 1])
    mean = [off * rnd.uniform(-.15, .15) * x for x in w]
    if rnd.random() < .6:
        s = [rnd.uniform(.08, .35) * x for x in w]
        r = rnd.choice([0, 0, .6])
        return {"kind": "normal", "mean": mean, "sigma": [[a * b * (1 if i == j else r) for j, b in enumerate(s)] for i, a in enumerate(s)]}
    return {"kind": "uniform", "mean": mean, "radius": [rnd.uniform(.2, .5) * x for x in w]}


class KnownStop(Exception):
    """The run met a listed finding that ends it."""


def label_of(cfg):
    m = cfg["params"].get("method", "simple")
    return cfg["kind"] + ("" if m == "simple" else "-" + m)


class Ctx:
    """Collects what a run reports. Classes listed as known findings are noted and the run goes on."""

    def __init__(self, known=()):
        self.known = set(known)
        self.findings = {}
        self.probes = {}
        self.checks = 0

    def violate(self, cls, msg):
        if cls in self.known:
            self.findings.setdefault(cls, msg)
            return
        raise Violation(cls, msg)

    def check(self, cond, cls, msg=""):
        self.checks += 1
        if not cond:
            self.violate(cls, msg() if callable(msg) else msg)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def call(self, label, fn, *a, **k):
        """Call the code under test: only injected failures may come out of it."""
        try:
            return fn(*a, **k)
        except (SimFault, kernel.SimDiskFault, SimCrash, Violation, KnownStop):
            raise
        except SimHang:
            self.violate("no-progress:" + label, "%s did not return within the event budget" % label)
            raise KnownStop()
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = "%s:%s" % (tb[-1].filename.split("/")[-1], tb[-1].name) if tb else "?"
            self.violate("raises:%s:%s" % (label, type(e).__name__), "%s raised %s: %s (%s)" % (
                label, type(e).__name__, str(e)[:200], where))
            raise KnownStop()


def request(ctx, cfg, s, target, n, timeout):
    """One importance sampling request. Returns private copies."""
    res = ctx.call("importance_sample:" + label_of(cfg), s.importance_sample, target, n, timeout)
    return copies(ctx, cfg, res)


def copies(ctx, cfg, res):
    try:
        samples, weights = res
        samples = np.array(samples, dtype=float, copy=True)
        weights = np.array(weights, dtype=float, copy=True)
    except Exception as e:
        raise Violation("malformed:" + cfg["kind"], "importance_sample returned %r (%s)" % (type(res), e))
    return samples, weights


def same(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | ((a != a) & (b != b))))


def close(a, b, rtol=1e-9, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def probe_points(cfg, n=5):
    lo = np.array(cfg["lo"], dtype=float)
    hi = np.array(cfg["hi"], dtype=float)
    k = np.arange(1, n + 1).reshape(-1, 1)
    frac = (k * np.array([0.6180339887, 0.7548776662, 0.5698402910, 0.8191725134, 0.4142135624])[:len(lo)]) % 1.0
    return lo + frac * (hi - lo)


def observe(cfg, s, res=None):
    """Everything a user can see of a sampler, without touching the random stream."""
    out = {"counters": (s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals)}
    if res is not None:
        out["samples"], out["weights"] = res
    state = np.random.get_state()
    sim = kernel.CUR
    hooks = None
    if sim is not None:
        hooks = (sim.rng_hook, sim.rng_log, sim.on_draw)
        sim.rng_hook = sim.rng_log = sim.on_draw = None
    try:
        with np.errstate(all="ignore"):
            pts = probe_points(cfg)
            for f in ("prob", "log_prob"):
                try:
                    out[f] = np.array(getattr(s, f)(pts), dtype=float).reshape(-1)
                except (SimCrash, SimHang):
                    raise
                except Exception as e:
                    out[f] = np.array([-1.0])
                    out[f + "_error"] = type(e).__name__
    finally:
        np.random.set_state(state)
        if sim is not None:
            sim.rng_hook, sim.rng_log, sim.on_draw = hooks
    return out


def diff(a, b, rtol=None):
    """Name of the first observable that differs."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s only on one side (%s)" % (k, a.get(k, b.get(k)))
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            ok = same(x, y) if rtol is None else close(x, y, rtol, 1e-300)
            if not ok:
                return "%s: %s vs %s" % (k, brief(x), brief(y))
        elif x != y:
            return "%s: %r vs %r" % (k, x, y)
    return None


def brief(a):
    a = np.asarray(a)
    return "%s%s" % (a.shape, np.array2string(a.reshape(-1)[:6], precision=17))


def well_formed(ctx, cfg, samples, weights, what="request"):
    kind = cfg["kind"]
    dims = len(cfg["lo"])
    if samples.size == 0 and weights.size == 0:
        return
    ctx.check(samples.ndim == 2 and samples.shape[1] == dims, "shape:" + kind,
              lambda: "%s: samples of shape %s for %d dims" % (what, samples.shape, dims))
    ctx.check(weights.reshape(-1).shape[0] == samples.shape[0] and weights.size == samples.shape[0],
              "one-weight-per-sample:" + kind,
              lambda: "%s: %s samples with weights of shape %s" % (what, samples.shape, weights.shape))
    ctx.check(bool(np.all(np.isfinite(samples))), "finite-samples:" + kind, lambda: "%s: %s" % (what, brief(samples)))
    ctx.check(bool(np.all(np.isfinite(weights)) and np.all(weights >= 0)), "finite-weights:" + kind,
              lambda: "%s: %s" % (what, brief(weights)))


def sim_stats(sim, ctx, sig="", nontrivial=True):
    return {"digest": "%08x" % sim.digest, "events": sim.events, "fired": dict(sim.fired),
            "sim_time": sim.now - sim.start, "sig": sig, "nontrivial": nontrivial, "checks": ctx.checks,
            "probes": dict(ctx.probes), "findings": dict(ctx.findings)}
