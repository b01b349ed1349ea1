"""Samplers start spread over the whole domain."""
import math

import numpy as np

from ..common import *
from .S14 import parts

PID = "S16"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("One or two samplers of a configuration are restarted many times, with requests, interrupted requests, failing targets, "
        "draws and density queries in between; the places of their proposals, or of the live points they evaluate first, are "
        "collected over the restarts. Every place lies in the domain, and the places, their distances to the previous one, to "
        "the same one of the previous start and between coordinates follow the uniform distribution. In some runs the random "
        "stream is forced to the ends of its range and only containment is checked. Non-trivial: at least 150 places.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
SHRINK = ("gaps",)
ASSUME = ["Evenness is decided by the Dvoretzky-Kiefer-Wolfowitz bound with error below 1e-12 per comparison, on 150 to 2000 "
          "places a run; unevenness smaller than that bound goes unnoticed."]
STARTING = [k for k in ("dm", "pmc", "lais", "nested", "multi") if k in KINDS] or ["dm"]


def gen(rnd, i, tier):
    kind = STARTING[i % len(STARTING)]
    dims = some_dims(rnd, [1, 1, 2, 2, 3])
    lo, hi = gen_domain(rnd, dims)
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    p = cfg["params"]
    if kind != "multi" and rnd.random() < .4:
        p["N"] = rnd.choice([1, 2, 5, 10, 25])
    places = rnd.choice([150, 300, 600, 600]) if kind == "multi" else rnd.choice([300, 800, 2000])
    t = gen_target(rnd, lo, hi, kinds=("gmm", "gmm", "slope", "flat", "box"))
    t["cost"] = .001
    rounds = max(3, min(400, places // p["N"]))
    b = batch_of(cfg)
    gaps = {}
    for k in range(rounds):
        if rnd.random() < min(.3, 12 / rounds):
            gaps[str(k)] = rnd.choice([["req", rnd.randint(1, 2) * b, BIG], ["req", rnd.randint(1, 2) * b, .003], ["sample", 2], ["prob"],
                                       ["fail", rnd.randint(1, b + 3)], ["reset"]])
    return {"cfg": cfg, "target": t, "rounds": rounds, "gaps": sorted([int(k), v] for k, v in gaps.items()),
            "pair": rnd.random() < .3, "rebuild": rnd.random() < .25, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 200, .2)["stalls"], "edge": rnd.choice([0] * 7 + [.3])}


def start_places(ctx, cfg, s, target, sim):
    """Where a sampler that was just restarted begins."""
    d = len(cfg["lo"])
    if cfg["kind"] in ("nested", "multi"):
        log = []
        sim.on_eval = lambda t, x, res: log.append(np.array(x)) and None
        try:
            request(ctx, cfg, s, target, 1, 0.0)
        finally:
            sim.on_eval = None
        pts = np.concatenate([x.reshape(-1, d) for x in log]) if log else np.zeros((0, d))
        return pts[:cfg["params"]["N"]], None
    return (lambda ps: (None, None) if ps is None else (np.array([p[0] for p in ps]).reshape(-1, d), ps))(parts(s))


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind, p = cfg["kind"], cfg["params"]
    lo, hi = np.array(cfg["lo"], dtype=float), np.array(cfg["hi"], dtype=float)
    w = hi - lo
    d = len(lo)
    target = SimTarget(plan["target"])
    gaps = dict((int(k), v) for k, v in plan["gaps"])
    flip = np.random.RandomState(plan["seed"] & 0xffff)
    us = []
    with simple_sim(plan, max_events=200000) as sim:
        if plan["edge"]:
            def hook(name, a, k, value):
                if name in ("uniform", "rand", "random", "random_sample") and flip.rand() < plan["edge"]:
                    low, high = (list(a[:2]) + [0.0, 1.0][len(a[:2]):]) if name == "uniform" else (0.0, 1.0)
                    low, high = k.get("low", low), k.get("high", high)
                    v = np.asarray(value, dtype=float)
                    return np.where(flip.rand(*v.shape) < .5, low, v) if v.shape else (low if flip.rand() < .5 else value)
                return value
            sim.rng_hook = hook
        np.random.seed(plan["seed"])
        made = [ctx.call("construct:" + kind, build, cfg) for _ in range(2 if plan["pair"] else 1)]
        fresh = [True] * len(made)
        for k in range(plan["rounds"]):
            j = k % len(made)
            s = made[j]
            if not fresh[j]:
                if plan["rebuild"] and k % 3 == 0:
                    s = made[j] = ctx.call("construct:" + kind, build, cfg)
                else:
                    ctx.call("reset:" + kind, s.reset)
            fresh[j] = False
            places, ps = start_places(ctx, cfg, s, target, sim)
            if places is None:
                ctx.probe("starts_not_understood")
                break
            ctx.check(len(places) == p["N"], "starting-places", lambda: "start %d: %d places, configured are %d" % (k, len(places), p["N"]))
            out = np.any((places < lo - 1e-9 * w) | (places > hi + 1e-9 * w), axis=1)
            ctx.check(not out.any(), "starts-outside:" + kind, lambda: "start %d: %s outside of %s, %s" % (
                k, brief(places[out][0]), brief(lo), brief(hi)))
            if ps is not None:
                share = np.array([x[2] for x in ps])
                ctx.check(np.all(np.abs(share * len(ps) - 1) < 1e-9), "uneven-shares:" + kind, lambda: "start %d: shares %s" % (k, brief(share)))
                want = np.eye(d) * p["sigma"]
                ctx.check(all(close(np.asarray(x[1]).reshape(d, d), want, 1e-9, 1e-300) for x in ps), "spread-at-the-start:" + kind,
                          lambda: "start %d: covariance %s, configured is %r" % (k, brief(ps[0][1]), p["sigma"]))
            us.append((places - lo) / w)
            op = gaps.get(k)
            if op is None:
                continue
            sim.event("op", repr(op))
            sim.fire("gap")
            if op[0] == "req":
                request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))
            elif op[0] == "fail":
                plan_fail(ctx, cfg, s, target, sim, op[1])
            elif op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
            elif kind not in ("nested", "multi"):
                if op[0] == "sample":
                    ctx.call("sample:" + kind, s.sample, op[1])
                else:
                    observe(cfg, s)
    u = np.concatenate(us) if us else np.zeros((0, d))
    n = len(u)
    if not plan["edge"] and n >= 60:
        N = p["N"]
        tests = []
        for a in range(d):
            c = u[:, a]
            tests.append(("coordinate %d" % a, c))
            for lag, what in ((1, "the one before"), (N, "the same one of the start before"), (2 * N, "the same one two starts before")):
                if lag < n - 30:
                    tests.append(("coordinate %d less that of %s" % (a, what), (c[lag:] - c[:-lag]) % 1.0))
                    tests.append(("coordinate %d plus that of %s" % (a, what), (c[lag:] + c[:-lag]) % 1.0))
            for b in range(a):
                tests.append(("coordinate %d less coordinate %d" % (a, b), (c - u[:, b]) % 1.0))
                tests.append(("coordinate %d plus coordinate %d" % (a, b), (c + u[:, b]) % 1.0))
        for what, v in tests:
            m = len(v)
            v = np.sort(v)
            dist = max(np.max(np.arange(1, m + 1) / m - v), np.max(v - np.arange(m) / m))
            limit = math.sqrt(math.log(2 / 1e-13) / (2 * m))
            ctx.check(dist <= limit, "not-spread-over-the-domain:" + kind, lambda: "%s of %d starting places: distance %.3f from the "
                      "uniform distribution (limit %.3f), quartiles %s" % (what, m, dist, limit, brief(np.percentile(v, [0, 25, 50, 75, 100]))))
    return sim_stats(sim, ctx, sig=str((kind, sorted(p.items()))), nontrivial=n >= 150)


def plan_fail(ctx, cfg, s, target, sim, k):
    """A request that the target aborts at its k-th evaluation."""
    seen = [0]

    def stop(t, x, res):
        seen[0] += 1
        if seen[0] == k:
            sim.fire("target-exception")
            raise SimFault("target failed")
    sim.on_eval = stop
    try:
        request(ctx, cfg, s, target, 3 * batch_of(cfg), 2.5)
    except SimFault:
        ctx.probe("aborted_requests")
    finally:
        sim.on_eval = None
