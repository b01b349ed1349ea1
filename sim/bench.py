"""A simulated benchmark: configuration files, scripted methods and targets, disk, and the parsed results."""
import os
import re
import shutil
import sys

import numpy as np
import yaml

from . import kernel
from .kernel import REAL as SYS, SimFault
from .world import SimTarget

import ais_benchmarks.benchmark  # noqa: F401
import ais_benchmarks.distributions as D
import ais_benchmarks.sampling_methods as SM
from ais_benchmarks.sampling_methods.base import CSamplingMethod

CB = sys.modules["ais_benchmarks.benchmark.CBenchmark"]
CBenchmark = CB.CBenchmark
INT_TAIL = ["proposal_samples", "proposal_evals", "target_evals"]


class SimBenchTarget(SimTarget):
    """A simulated target the benchmark builds from its file."""

    def __init__(self, params):
        super().__init__(params)
        sim = kernel.CUR
        if sim is not None and hasattr(sim, "targets"):
            sim.targets.append(self)


class SimMethod(CSamplingMethod):
    """A scripted sampling method. Every call is recorded.

    params["script"]: yields (samples relative to the ones asked for, cycled; ["f", x] is a fraction), durations
    (seconds, cycled), respect (stop at the time limit), fail (request numbers that raise), ness and acc (reported
    values, cycled), counts (growth of the counters per request), rng (draw samples from the ambient stream), cost
    (seconds per density query).
    """

    def __init__(self, params):
        super().__init__(params)
        self.script = dict(params["script"])
        self.given = {k: v for k, v in params.items()}
        self.requests = 0
        self.generation = -1
        self.gen_requests = 0
        sim = kernel.CUR
        self.sim = sim
        self.log("new", dims=self.ndims, lo=list(map(float, self.space_min)), hi=list(map(float, self.space_max)),
                 tag=self.script.get("tag"))

    def log(self, what, **k):
        sim = kernel.CUR
        if sim is not None and hasattr(sim, "calls"):
            sim.event("method", what)
            sim.calls.append(dict(k, what=what, who=id(self), name=self.name, method=self, now=sim.now,
                                  event=sim.events))

    def cyc(self, key, default, k):
        v = self.script.get(key) or [default]
        return v[k % len(v)]

    def reset(self):
        super().reset()
        self.generation += 1
        self.gen_requests = 0
        self.log("reset")

    def importance_sample(self, target_d, n_samples, timeout=60):
        sim = kernel.CUR
        k = self.requests
        self.requests += 1
        self.gen_requests += 1
        have = len(self.samples)
        self.log("request", n=int(n_samples), timeout=float(timeout), have=have, target=target_d, k=k,
                 gen=self.generation)
        y = self.cyc("yields", 0, k)
        want = max(0, n_samples - have)
        new = max(self.script.get("least", 1), int(want * y[1])) if isinstance(y, list) else max(0, want + y)
        dur = self.cyc("durations", 0.001, k)
        if self.script.get("respect") and dur > timeout:
            new = int(new * max(timeout, 0) / dur) if dur > 0 else new
            dur = max(timeout, 0.0)
        if k in (self.script.get("fail") or []):
            sim.advance(dur / 2)
            sim.fire("method_failure")
            raise SimFault("method call %d failed" % k)
        if new:
            if self.script.get("rng"):
                x = np.random.uniform(self.space_min, self.space_max, size=(new, self.ndims))
            else:
                i = np.arange(have + 1, have + new + 1).reshape(-1, 1)
                u = (i * np.array([0.6180339887, 0.7548776662, 0.5698402910])[:self.ndims]) % 1.0
                x = self.space_min + u * (self.space_max - self.space_min)
            if self.script.get("evaluate", True):
                target_d.prob(x)
            self.samples = np.vstack((self.samples, x)) if self.samples.size else x
        self.weights = np.ones(len(self.samples)) / max(1, len(self.samples))
        c = self.cyc("counts", [new, new, new], k)
        self._num_q_samples += c[0]
        self._num_q_evals += c[1]
        self._num_pi_evals += c[2]
        sim.advance(dur)
        self.grow(k)
        self.log("done", total=len(self.samples), ness=self.get_NESS(), acc=self.get_acceptance_rate(), k=k,
                 gen=self.generation, counters=(self._num_q_samples, self._num_q_evals, self._num_pi_evals))
        return self.samples, self.weights

    def grow(self, k):
        sim = kernel.CUR
        g = self.cyc("heap", 0, k)
        if g and hasattr(sim, "heap_size"):
            sim.heap_size += g

    def get_NESS(self):
        return self.cyc("ness", 0.5, self.gen_requests - 1)

    def get_acceptance_rate(self):
        return self.cyc("acc", 1.0, self.gen_requests - 1)

    def query(self, x):
        sim = kernel.CUR
        if sim is not None:
            sim.event("query")
            sim.advance(self.script.get("cost", 0.0))
            g = self.script.get("query_heap", 0)
            if g and hasattr(sim, "heap_size"):
                sim.heap_size += g
        x = np.asarray(x, dtype=float).reshape(-1, self.ndims)
        u = (x - self.space_min) / (self.space_max - self.space_min)
        return np.prod((0.5 + np.clip(u, 0, 1)) / (self.space_max - self.space_min), axis=1)

    def prob(self, samples):
        return self.query(samples)

    def log_prob(self, samples):
        return np.log(self.query(samples))

    def sample(self, n_samples):
        raise NotImplementedError

    def draw(self, ax):
        return []


for ns in (CB, D, SM):
    ns.SimBenchTarget = SimBenchTarget
    ns.SimMethod = SimMethod


def lit(v):
    """A parameter as the methods file wants it: the text of a Python expression."""
    if isinstance(v, str):
        return repr(v)
    return v


def write_files(root, plan):
    """The three configuration files."""
    targets = []
    for t in plan["targets"]:
        targets.append({"name": t["name"], "type": t.get("type", "SimBenchTarget"), "params": t["params"],
                        "batch_size": t["batch_size"], "nsamples": t["nsamples"], "nsamples_eval": t["nsamples_eval"],
                        "tags": []})
    methods = [{"name": m["name"], "type": m.get("type", "SimMethod"), "debug": bool(m.get("debug")),
                "params": {k: lit(v) for k, v in m["params"].items()}} for m in plan["methods"]]
    c = plan["config"]
    config = {"nreps": c["nreps"], "rseed": c["rseed"], "metrics": c["metrics"],
              "debug": {"text": True, "plot": {"show": bool(c.get("show")), "save": bool(c.get("save_figures")), "path": os.path.join(root, "dbg/")}},
              "animation": {"enable": False, "fps": 1, "animation_path": os.path.join(root, "anim/")},
              "output": {"file": os.path.join(root, "unused.txt"), "make_plots": False,
                         "plots_path": os.path.join(root, "plots/"), "plots_dpi": 50}}
    out = []
    for name, data in (("benchmark", {"targets": targets}), ("methods", {"methods": methods}), ("config", config)):
        path = os.path.join(root, name + ".yaml")
        with SYS.open(path, "w") as f:
            yaml.safe_dump(data, f, sort_keys=False)
        out.append(path)
    return out


class Arena:
    """A scratch directory for one run."""

    def __enter__(self):
        base = os.environ.get("SIM_SCRATCH") or "/tmp"
        self.root = os.path.join(base, "run-%d" % os.getpid())
        shutil.rmtree(self.root, ignore_errors=True)
        SYS.makedirs(self.root)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)
        return False


def content(path):
    try:
        with SYS.open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def arm(sim, root):
    """Give a simulation what a benchmark run needs."""
    sim.root = root
    sim.targets = []
    sim.calls = []
    sim.heap_size = 10 ** 6
    sim.heap_cost = 0.0     # simulated seconds one measurement of the heap takes

    def heap():
        if sim.heap_cost:
            sim.fire("slow_heap_measurement")
            sim.advance(sim.heap_cost)
        return sim.heap_size
    sim.heap = heap
    return sim


def run_bench(files, out, timeout=None, bench=None):
    b = bench or CBenchmark()
    if timeout is not None:
        b.timeout = timeout
    b.run(files[0], files[1], files[2], out)
    return b


def parse(data):
    """Header and rows of a results file, as lists of words, exactly as they are in the file."""
    lines = data.decode().split("\n")
    last = lines.pop()
    return lines[0].split() if lines else [], [l.split() for l in lines[1:]], last


GLUED = re.compile(r"^(\S*\.\d{5}|-?inf|nan)(-?\d{5,}\.\d{3}|-\d{4}\.\d{3})$")


def unglue(head, row):
    """The values of a row whose last metric runs into a wide NESS (a listed finding of R05)."""
    if len(row) == len(head) - 1 and len(row) >= 8:
        m = GLUED.match(row[-7])
        if m:
            return row[:-7] + [m.group(1), m.group(2)] + row[-6:]
    return row


def columns(data):
    """Header and rows as a reader makes sense of them who knows the listed findings of R05."""
    head, rows, last = parse(data)
    if head.count("NESS") == 2:
        head.remove("NESS")     # the metric that is listed but has its column further right
    return head, [unglue(head, r) for r in rows], last


REAL_METHODS = {
    "dm": ("CDeterministicMixtureAIS", {"K": 2, "N": 2, "J": 1000, "sigma": 0.3}),
    "pmc": ("CMixturePMC", {"K": 20, "N": 2, "J": 1000, "sigma": 0.3}),
    "lais": ("CLayeredAIS", {"K": 2, "N": 2, "J": 1000, "L": 2, "sigma": 0.3, "mh_sigma": 0.1}),
    "rej": ("CRejectionSampling", {"scaling": 2, "proposal": "CMultivariateUniform({\"center\": (self.space_max+self.space_min)"
            "/2, \"radius\":(self.space_max-self.space_min) / 2})", "kde_bw": 0.02, "n_samples_kde": 5}),
    "mh": ("CMetropolisHastings", {"n_burnin": 3, "n_steps": 2, "proposal_sigma": 0.2, "kde_bw": 0.02, "n_samples_kde": 5}),
    "nested": ("CNestedSampling", {"proposal": "CMultivariateNormal({\"mean\": np.zeros(self.ndims), \"sigma\": "
               "np.diag(np.ones(self.ndims) * 0.2)})", "N": 8, "kde_bw": 0.02, "n_samples_kde": 5}),
    "multi": ("CMultiNestedSampling", {"proposal": "CMultivariateNormal({\"mean\": np.zeros(self.ndims), \"sigma\": "
              "np.diag(np.ones(self.ndims) * 0.2)})", "N": 14, "kde_bw": 0.02, "n_samples_kde": 5,
              "converged_radius": 0.1, "inflate_factor": 1.5}),
    "hid": ("CHiDaiseeSampling", {"target_ess": 0.8, "n_min": 4, "tau": 0.1}),
    "tp": ("CTreePyramidSampling", {"method": "simple", "resampling": "leaf", "kernel": "haar", "ess_target": 0.9,
           "n_min": 3, "parallel_samples": 4}),
    "tpn": ("CTreePyramidSampling", {"method": "simple", "resampling": "none", "kernel": "normal", "ess_target": 1.5,
            "n_min": 3, "parallel_samples": 2}),
}


class RequestTap:
    """Calls before(method, n) at the beginning of every request to any sampling method."""

    def __init__(self, before, after=None):
        self.depth = 0
        self.orig = []
        for cls in [SimMethod] + sorted({getattr(SM, c) for c, _ in REAL_METHODS.values()}, key=lambda c: c.__name__):
            fn = cls.__dict__.get("importance_sample")
            if fn is not None:
                self.orig.append((cls, fn))
                cls.importance_sample = self.wrap(fn, before, after)

    def wrap(self, fn, before, after):
        def importance_sample(method, *a, **k):
            self.depth += 1
            try:
                if self.depth == 1:
                    before(method)
                res = fn(method, *a, **k)
                if self.depth == 1 and after is not None:
                    after(method, res)
                return res
            finally:
                self.depth -= 1
        return importance_sample

    def close(self):
        for cls, fn in self.orig:
            cls.importance_sample = fn


def rows_on_disk(path):
    """Complete rows after the header, and the whole content."""
    data = content(path)
    return (max(0, data.count(b"\n") - 1) if data else 0), data


def real_method(rnd, name=None, kind=None):
    kind = kind or rnd.choice(sorted(REAL_METHODS))
    cls, p = REAL_METHODS[kind]
    return {"name": name or kind, "type": cls, "params": dict(p), "kind": kind}


def cousin(rnd, m, name):
    """The same method with one parameter changed, or none."""
    p = dict(m["params"])
    k = rnd.choice(sorted(p) + ["none"])
    v = p.get(k)
    if isinstance(v, str) and v.endswith("* 0.2)})"):
        p[k] = v.replace("* 0.2)})", "* %r)})" % rnd.choice([.02, .1, .5]))
    elif isinstance(v, int) and k != "J":
        p[k] = max(v + rnd.choice([1, 2, 3]), 1)
    elif isinstance(v, float):
        p[k] = v * rnd.choice([.5, .9, 1.1])
    return dict(m, name=name, params=p)


REAL_TARGETS = [
    ("CGaussianMixtureModel", {"means": [[1.5], [-4.2], [0.01], [7.5]], "sigmas": [[0.4], [0.05], [0.03], [0.3]],
                               "weights": [0.4, 0.4, 0.1, 0.1], "support": [[-10], [10]]}),
    ("CGaussianMixtureModel", {"means": [[0.0, 0.0], [-0.3, 0.5]], "sigmas": [[0.01, 0.1], [0.01, 0.03]],
                               "weights": [0.5, 0.5], "support": [[-1, -1], [1, 1]]}),
    ("CMultivariateNormal", {"mean": [0.0], "sigma": [[0.2]], "support": [[-5], [5]]}),
    ("Banana2D", {}),
]


def real_target(rnd, name):
    cls, p = rnd.choice(REAL_TARGETS)
    b = rnd.choice([1, 2, 4, 8])
    return {"name": name, "type": cls, "params": dict(p), "batch_size": b, "nsamples": rnd.randint(1, 5 * b),
            "nsamples_eval": rnd.choice([4, 10, 30])}


def kin_target(rnd, t, name):
    """A target on the same domain as another one, or on one with the same centre."""
    from .world import gen_target
    lo, hi = [np.array(v, dtype=float) for v in t["params"]["support"]]
    c, r = (lo + hi) / 2, (hi - lo) / 2 * rnd.choice([.5, 1.0, 2.0])
    p = gen_target(rnd, (c - r).tolist(), (c + r).tolist(), kinds=("gmm", "flat", "slope", "cauchy"))
    p["cost"] = t["params"].get("cost", .0005)
    return dict(t, name=name, params=p)


def unmeasured(data, skip=("T", "MEM")):
    """Header and rows without the measured time and memory columns."""
    head, rows, last = columns(data)
    drop = {k for k, c in enumerate(head) if c in skip}
    return [[w for k, w in enumerate(r) if k not in drop] for r in [head] + rows] + [[last]]


def sim_target(rnd, name, i, dims=None, nsamples=None, batch=None, neval=None, cost=0.0005):
    from .world import gen_domain, gen_target
    dims = dims or rnd.choice([1, 1, 2, 3])
    lo, hi = gen_domain(rnd, dims, cubic=True)
    p = gen_target(rnd, lo, hi, kinds=("gmm", "flat", "slope", "cauchy"))
    p["cost"] = cost
    b = batch or rnd.choice([1, 2, 3, 5, 8])
    return {"name": name, "params": p, "batch_size": b, "nsamples": nsamples or rnd.randint(1, 5 * b),
            "nsamples_eval": neval or rnd.choice([4, 10, 30])}


def sim_method(rnd, name, **script):
    return {"name": name, "params": {"script": script}}


NAMES = ["gmm", "normal", "banana_2", "t-3", "Egg.box", "flower", "m_pmc", "TP_AIS-r", "a", "x9"]
METRICS = ["JSD", "KLD", "EVMSE", "T", "MEM", "NESS"]
REAL_BENCH = ["ais_benchmarks.benchmark.CBenchmark (run, load_*, evaluate_method, write_results)", "ais_benchmarks.metrics",
              "configuration files and results file (real files behind a simulated user-space buffer)"]
STUB_BENCH = ["clock", "heap size", "disk faults", "scripted sampling methods", "target densities (closed form)"]
