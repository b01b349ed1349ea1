"""Bounded methods stay inside the domain."""
import numpy as np

from ..common import *

PID = "S12"
RUNS = {"quick": 5000, "thorough": 100000}
RULE = ("Bounded samplers with wide steps walk on targets that pull them towards and beyond the bounds, through requests "
        "cut short at arbitrary points, stalls, failing targets, draws and resets, with uniform draws forced to the ends "
        "of their range in some runs; every returned sample and the centres of the adapted proposals of layered importance "
        "sampling have to lie within the bounds. Non-trivial: at least one sample came within 10% of a bound.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
ASSUME = ["The tree pyramid is bounded with its box kernel only; its normal kernel has unbounded proposals by design."]
BOUNDED = ["mh", "nested", "multi", "tp", "hid", "lais"]


def gen(rnd, i, tier):
    kind = BOUNDED[i % len(BOUNDED)]
    dims = some_dims(rnd, [1, 1, 2, 3])
    cubic = kind == "tp" and rnd.random() < .85
    lo, hi = gen_domain(rnd, dims, cubic=True if cubic else None)
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    p = cfg["params"]
    if kind == "tp":
        p["kernel"] = "haar"
    wide = rnd.choice([1, 1, 4, 30])
    for k in ("proposal_sigma", "mh_sigma"):
        if k in p:
            p[k] *= wide
    if kind == "multi":
        p["inflate_factor"] *= wide
    n = size_for(rnd, cfg, tier)
    if kind == "hid" and rnd.random() < .12:
        # deep trees
        n = rnd.randint(150, 400)
        p.update(n_min=2, target_ess=.95, tau=5.0)
    t = gen_target(rnd, lo, hi, kinds=("gmm", "gmm", "slope", "flat", "box", "cauchy"))
    if t["kind"] == "gmm" and rnd.random() < .7:
        # modes at and beyond the bounds
        t["means"] = [[rnd.choice([a, b, a - .5 * (b - a), b + .2 * (b - a), (a + b) / 2]) for a, b in zip(lo, hi)]
                      for _ in t["means"]]
        t["sigmas"] = [[((b - a) * rnd.uniform(.1, .6)) ** 2 for a, b in zip(lo, hi)] for _ in t["means"]]
    t["cost"] = rnd.choice([0.001, 0.004])
    if rnd.random() < .2:
        t["fail"] = [rnd.randint(1, 3 * n)]
    if rnd.random() < .3:
        a = rnd.randint(0, n)
        t["zero"] = [[a, a + rnd.randint(1, n)]]
    return {"cfg": cfg, "target": t, "ops": gen_ops(rnd, cfg, n, rnd.randint(1, 5), timeouts=.5, extras=True, resets=.15),
            "seed": rnd.randint(0, 2 ** 31 - 1), "stalls": gen_faults(rnd, 6 * n, .4)["stalls"],
            "edge": rnd.choice([0, 0, 0, .1, .5])}


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    lo, hi = np.array(cfg["lo"]), np.array(cfg["hi"])
    w = hi - lo
    cubic = np.ptp(w) < 1e-9
    target = SimTarget(plan["target"])
    near = 0
    flip = np.random.RandomState(plan["seed"] & 0xffff)

    def inside(x, what):
        nonlocal near
        x = np.asarray(x, dtype=float).reshape(-1, len(lo))
        out = np.any((x < lo - 1e-9 * w) | (x > hi + 1e-9 * w), axis=1)
        near += int(np.sum(np.any((x < lo + .1 * w) | (x > hi - .1 * w), axis=1)))
        cls = "outside:" + kind
        if kind == "tp" and not cubic:
            c, r = (lo + hi) / 2, np.max(w) / 2
            cube = np.all(np.abs(x - c) <= r * (1 + 1e-9), axis=1)
            if np.all(cube):
                cls = "outside:tp:cube-around-the-domain"
        ctx.check(not np.any(out), cls, lambda: "%s: %s outside %s..%s" % (what, brief(x[out][:1]), lo, hi))

    def edge(name, a, k, res):
        if name == "uniform" and isinstance(res, np.ndarray) and res.ndim == 2:
            low = a[0] if len(a) > 0 else k.get("low", 0.0)
            high = a[1] if len(a) > 1 else k.get("high", 1.0)
            m = flip.random_sample(res.shape) < plan["edge"]
            top = np.nextafter(np.broadcast_to(np.asarray(high, dtype=float), res.shape), -np.inf)
            sim.fire("rng_range_end", int(np.sum(m)))
            return np.where(m, np.where(flip.random_sample(res.shape) < .5, np.broadcast_to(low, res.shape), top), res)
        return res

    def chains(s, what):
        if kind == "lais":
            try:
                c = np.array([np.array(m.loc, dtype=float).reshape(-1) for m in s.model.models])
            except Exception:
                ctx.probe("chain_states_not_seen")
                return
            inside(c, what)
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        if plan["edge"]:
            sim.rng_hook = edge
        s = ctx.call("construct:" + kind, build, cfg)
        sim.on_eval = lambda t, x, res: chains(s, "chain state during a request") and None
        held = 0
        for op in plan["ops"]:
            try:
                if op[0] == "reset":
                    ctx.call("reset:" + kind, s.reset)
                    held = 0
                elif op[0] == "req":
                    samples, _ = request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))
                    held = len(samples)
                    if kind != "lais":
                        inside(samples, "importance_sample")
                elif op[0] == "sample" and held and kind in ("mh", "tp", "hid"):
                    inside(ctx.call("sample:" + kind, s.sample, op[1]), "sample")
            except SimFault:
                ctx.probe("failed_requests")
                if kind == "tp":
                    break       # nothing is promised about a tree whose request was aborted
            chains(s, "chain state")
        sim.on_eval = sim.rng_hook = None
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=near > 0)
