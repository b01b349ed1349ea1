"""A sampler's proposal is a probability density."""
import copy

import numpy as np

from ..common import *

PID = "S07"
RUNS = {"quick": 3000, "thorough": 50000}
RULE = ("A random sampler goes through a history of requests (cut short, on targets that are zero for stretches or "
        "everywhere, with slow evaluations) and draws. After every operation its density is integrated numerically over "
        "the line or the plane (nodes refined around the domain and the components), compared with its log density and "
        "evaluated at draws, some of which are forced to the lower end of the random generator's range. Non-trivial: at "
        "least one density was integrated after samples were obtained.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
ASSUME = ["Integrals are decided in one and two dimensions; in three only positivity and the logarithm are."]
GX, GW = np.polynomial.legendre.leggauss(6)


def gen(rnd, i, tier):
    kind = KINDS[i % len(KINDS)]
    dims = rnd.choice([1, 1, 1, 2, 2, 3])
    lo, hi = gen_domain(rnd, dims, cubic=True if kind == "tp" else None)
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    n = size_for(rnd, cfg, tier)
    t = gen_target(rnd, lo, hi)
    t["cost"] = rnd.choice([0.001, 0.004])
    r = rnd.random()
    if r < .1:
        t["zero"] = [[0, 10 ** 9]]
    elif r < .3:
        a = rnd.randint(0, n)
        t["zero"] = [[a, a + rnd.randint(1, 2 * n)]]
    ops = gen_ops(rnd, cfg, n, rnd.randint(1, 4), timeouts=.4, extras=True, resets=.1)
    return {"cfg": cfg, "target": t, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 6 * n, .4)["stalls"], "edge": rnd.choice([0, 0, .2, 1])}


def components(s):
    """(location, covariance) of the components, when they are stored the usual way: only used to place nodes."""
    out = []
    try:
        for m in s.model.models:
            if m.type == "normal":
                out.append((np.array(m.loc, dtype=float).reshape(-1), np.array(m.scale, dtype=float)))
    except Exception:
        pass
    return out


def cell_edges(cfg, s, kind):
    """Bounds of the cells along each axis, when they are stored the usual way: only used to place nodes."""
    try:
        T = s.T
        w = np.max(np.array(cfg["hi"]) - np.array(cfg["lo"]))
        if kind == "tp":
            c, r = np.array(T.centers, dtype=float), np.array(T.radii, dtype=float)
        else:
            c = np.array([n.center for n in T.nodes], dtype=float)
            r = np.array([n.radius for n in T.nodes], dtype=float)
        if np.min(r) < 1e-7 * w:
            return None     # cells too small to tell from rounding of their bounds
        return [np.concatenate((e[:, 0], e[:, 1])) for e in np.moveaxis(np.stack((c - r, c + r), axis=2), 1, 0)]
    except Exception:
        return None


def integral_1d(f, cfg, draws, comps, haar, edges):
    if haar and edges is None:
        return None, None
    lo, hi = cfg["lo"][0], cfg["hi"][0]
    w = hi - lo
    nodes = [lo + w * np.arange(0, 257) / 256.0]
    z = np.concatenate([np.linspace(0, 9, 28), [11, 14, 20, 40]])
    z = np.concatenate([-z[::-1], z])
    for m, c in comps:
        nodes.append(m[0] + np.sqrt(c[0, 0]) * z)
    g = w * 10.0 ** np.linspace(-5, 1.5, 27)
    g = np.concatenate([-g[::-1], [0.0], g])
    for x in draws[:12]:
        nodes.append(x[0] + g)
    nodes.append((lo + hi) / 2 + g * 4)
    if haar:
        nodes.append(edges[0])
    x = np.unique(np.concatenate(nodes))
    a, b = x[:-1], x[1:]
    h = (b - a) / 2
    pts = (a + h)[:, None] + h[:, None] * GX[None]
    v = np.asarray(f(pts.reshape(-1, 1)), dtype=float).reshape(pts.shape)
    return float(np.sum(v * GW[None] * h[:, None])), v


def integral_2d(f, cfg, comps, haar, edges):
    lo, hi = np.array(cfg["lo"]), np.array(cfg["hi"])
    if haar:
        if edges is None:
            return None, None
        ex = [np.unique(np.concatenate((e, [a, b]))) for e, a, b in zip(edges, lo, hi)]
        # edges that differ by rounding bound the same cells
        ex = [e[np.concatenate(([True], np.diff(e) > 1e-11 * (b - a)))] for e, a, b in zip(ex, lo, hi)]
        if len(ex[0]) * len(ex[1]) > 8000:
            return None, None
        mid = [(e[1:] + e[:-1]) / 2 for e in ex]
        area = np.outer(np.diff(ex[0]), np.diff(ex[1])).reshape(-1)
        xs = np.array(np.meshgrid(*mid, indexing="ij")).reshape(2, -1).T
        v = np.asarray(f(xs), dtype=float).reshape(-1)
        return float(np.sum(v * area)), v
    if not comps:
        return None, None
    ev = [np.linalg.eigvalsh(c) for m, c in comps]
    smin = np.sqrt(max(min(e.min() for e in ev), 1e-30))
    a = np.min([m - 7.5 * np.sqrt(np.diag(c)) for m, c in comps], axis=0)
    b = np.max([m + 7.5 * np.sqrt(np.diag(c)) for m, c in comps], axis=0)
    n = np.ceil((b - a) / (.8 * smin)).astype(int) + 1
    if not np.all(np.isfinite(n)) or n[0] * n[1] > 12000:
        return None, None
    h = (b - a) / n
    xs = np.array(np.meshgrid(*[a[d] + h[d] * (np.arange(n[d]) + .5) for d in range(2)])).reshape(2, -1).T
    v = np.asarray(f(xs), dtype=float).reshape(-1)
    return float(np.sum(v) * np.prod(h)), v


def check_density(ctx, cfg, s, plan, step, sim):
    kind = cfg["kind"]
    d = len(cfg["lo"])
    proposal = s
    state = np.random.get_state()
    if kind != "mh":
        try:
            proposal = copy.deepcopy(s)
        except RecursionError:
            return False    # a tree hundreds of levels deep, whose cells have the size of rounding errors

    def edge(name, a, k, res):
        if name == "uniform" and isinstance(res, np.ndarray) and res.ndim == 2:
            low = a[0] if len(a) > 0 else k.get("low", 0.0)
            m = np.random.random_sample(res.shape) < plan["edge"]
            sim.fire("rng_lower_end", int(np.sum(m)))
            return np.where(m, np.broadcast_to(low, res.shape), res)
        return res
    draws = np.zeros((0, d))
    if kind != "mh":
        if plan["edge"]:
            sim.rng_hook = edge
        draws = np.asarray(ctx.call("sample:" + kind, proposal.sample, 12), dtype=float)
        sim.rng_hook = None
        ctx.check(draws.shape == (12, d) and bool(np.all(np.isfinite(draws))), "draws:" + kind,
                  lambda: "sample(12): %s" % brief(draws))
    np.random.set_state(state)
    prob = lambda x: ctx.call("prob:" + kind, s.prob, x)
    logp = lambda x: ctx.call("log_prob:" + kind, s.log_prob, x)
    comps = components(s)
    haar = kind == "hid" or (kind == "tp" and cfg["params"]["kernel"] == "haar")
    total = v = None

    def integrate(f):
        if d == 1:
            return integral_1d(f, cfg, draws, comps, haar, cell_edges(cfg, s, kind) if haar else None)
        if d == 2:
            return integral_2d(f, cfg, comps, haar, cell_edges(cfg, s, kind) if haar else None)
        return None, None
    w = float(np.max(np.array(cfg["hi"]) - np.array(cfg["lo"])))
    narrow = any(np.min(np.diag(c)) < (1e-7 * w) ** 2 for m, c in comps)
    if not haar and (narrow or len(comps) > 150):
        integrate = lambda f: (None, None)      # components of the size of rounding errors, or too many of them
        ctx.probe("not_integrated")
    scaled = False
    if kind == "rej":
        pts = np.vstack((draws, probe_points(cfg)))
        ref = copy.deepcopy(s.proposal_dist)
        want = np.asarray(ref.prob(pts)).reshape(-1) * cfg["params"]["scaling"]
        scaled = close(np.asarray(prob(pts)).reshape(-1), want, 1e-12)
        f = (lambda x: np.asarray(s.proposal_dist.prob(x))) if scaled else prob
        if scaled:
            # the density used for acceptance is the scaled proposal, by design; the approximation is in log_prob
            ctx.violate("rejection-prob-is-scaled-proposal", "prob is scaling times the proposal density")
            f = lambda x: np.exp(np.asarray(logp(x), dtype=float))
        total, v = integrate(f)
    else:
        total, v = integrate(prob)
    if total is not None:
        ctx.check(bool(np.all(np.isfinite(v)) and np.all(v >= 0)), "negative-density:" + kind,
                  lambda: "step %d: density values from %r to %r" % (step, np.min(v), np.max(v)))
        tol = 5e-3 if d == 1 else 2e-2
        ctx.check(abs(total - 1) <= tol, "integral:" + kind, lambda: "step %d: the density integrates to %.9g" % (step, total))
        ctx.probe("densities_integrated")
    if not scaled:
        pts = np.vstack((draws, probe_points(cfg)))
        pv = np.asarray(prob(pts), dtype=float).reshape(-1)
        lv = np.asarray(logp(pts), dtype=float).reshape(-1)
        ctx.check(bool(np.all(np.isfinite(pv)) and np.all(pv >= 0)), "negative-density:" + kind, lambda: brief(pv))
        big = pv > 1e-200
        ctx.check(bool(np.all(np.abs(lv[big] - np.log(pv[big])) <= 1e-6 * (1 + np.abs(lv[big])))), "log-density:" + kind,
                  lambda: "step %d: log density %s of density %s" % (step, brief(lv[big]), brief(pv[big])))
        ctx.check(bool(np.all(lv[pv == 0] < -400)), "log-density:" + kind,
                  lambda: "step %d: log density %s where the density is zero" % (step, brief(lv[pv == 0])))
        if haar and cell_edges(cfg, s, kind) is None:
            return False    # cells of the size of rounding errors
        ctx.check(bool(np.all(pv[:len(draws)] > 0)), "drawn-where-density-is-zero:" + kind,
                  lambda: "step %d: drew %s with density %s" % (step, brief(draws[pv[:len(draws)] <= 0]), 0))
    return total is not None


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    target = SimTarget(plan["target"])
    n_int = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:" + kind, build, cfg)
        held = 0
        for step, op in enumerate(plan["ops"]):
            if op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                held = 0
                continue
            if op[0] == "req":
                samples, w = request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))
                held = len(samples)
            elif op[0] == "sample" and held:
                ctx.call("sample:" + kind, s.sample, op[1])
            if held == 0 and (kind in ("rej", "mh", "nested", "multi") or op[0] != "req"):
                continue
            target.quiet = True
            ok = check_density(ctx, cfg, s, plan, step, sim)
            target.quiet = False
            if ok and held:
                n_int += 1
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=n_int > 0)
