"""Pieces shared by the sampler properties."""
import numpy as np

from . import kernel
from .kernel import Sim, SimFault
from .world import *  # noqa: F401,F403
from .world import KnownStop, label_of, SimTarget, build, request, observe, Ctx, gen_sampler, gen_target, gen_domain, KINDS, sim_stats

REAL_SAMPLERS = ["ais_benchmarks.sampling_methods (all classes of the nine methods)", "ais_benchmarks.distributions",
                 "numpy, scipy, scikit-learn"]
STUB_SAMPLERS = ["target density (closed form, simulator owned)", "clock (time.*, timeit.default_timer)",
                 "ambient random stream (numpy global generator, seeded and observed per run)"]
BIG = 1e9


def gen_faults(rnd, horizon, p=0.6):
    """Stalls and clock jumps at event indices within the horizon."""
    f = {"stalls": {}, "jumps": {}}
    if rnd.random() < p:
        for _ in range(rnd.randint(1, 4)):
            f["stalls"][str(rnd.randint(1, horizon))] = rnd.choice([0.01, 0.2, 1.0, 30.0])
    return f


def gen_ops(rnd, cfg, nmax, n_ops, timeouts=0.5, extras=True, resets=0.0):
    """A history: requests with growing sample counts, short time limits, draws, density queries."""
    ops = []
    n = 0
    for _ in range(n_ops):
        r = rnd.random()
        if ops and r < resets:
            ops.append(["reset"])
            n = 0
        elif ops and extras and r < resets + .12:
            ops.append(["sample", rnd.randint(1, 4)])
        elif ops and extras and r < resets + .22:
            ops.append(["prob"])
        else:
            n += rnd.randint(1, max(1, nmax // max(1, n_ops)))
            t = BIG if rnd.random() > timeouts else rnd.choice([0.0, 0.001, 0.005, 0.02, 0.1, 0.5])
            ops.append(["req", n, t])
    return ops


def batch_of(cfg):
    p = cfg["params"]
    k = cfg["kind"]
    d = len(cfg["lo"])
    if k in ("dm", "lais"):
        return p["K"] * p["N"]
    if k == "pmc":
        return p["K"]
    if k == "tp":
        return p["parallel_samples"] + 2 ** d
    return 1


def size_for(rnd, cfg, tier="quick"):
    """A number of samples worth asking this sampler for."""
    b = batch_of(cfg)
    if rnd.random() < .04:
        return rnd.randint(80, 260)
    if b > 4:
        return b * rnd.randint(2, 5)
    return rnd.randint(6, 40 if tier == "quick" else 90)


def patience(cfg, n):
    """Simulated seconds after which a request may end short: bounds the run on targets where progress is slow.
    Evaluations cost at least one simulated millisecond."""
    return 2.5


def simple_sim(plan, max_events=60000):
    return Sim({"read_cost": plan.get("read_cost", 1e-5), "stalls": plan.get("stalls"), "jumps": plan.get("jumps"),
                "wall_offset": plan.get("wall_offset", 0.0), "crash_at": plan.get("crash_at"),
                "oversleep": plan.get("oversleep")}, max_events=max_events)
