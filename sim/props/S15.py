"""Multi-ellipsoid nested sampling climbs in every cluster."""
from collections import Counter

import numpy as np

from ..common import *

PID = "S15"
RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("A multi-ellipsoid nested sampler goes through a history of growing requests that are cut short at arbitrary points, "
        "stalled, aborted by a failing target and repeated, on targets with one or several modes. All candidates drawn and all points evaluated are observed; "
        "a reference sampler decides from them which live points are recorded and replaced, cluster by cluster. Non-trivial: at "
        "least three samples were recorded.")
REAL = REAL_SAMPLERS + ["sklearn.cluster.KMeans"]
STUB = STUB_SAMPLERS
ASSUME = ["Which points form a cluster and whether its ellipsoid has converged is read from the sampler."]


def two_groups(x):
    """The live points as two clearly separated groups, or None: a cut along one axis with a gap ten times as wide as either
    group is long, enough points on both sides and far less volume in the two parts than in the whole."""
    n, d = x.shape
    for a in range(d):
        order = np.argsort(x[:, a])
        v = x[order, a]
        gaps = np.diff(v)
        k = int(np.argmax(gaps)) + 1
        left, right = order[:k], order[k:]
        if min(len(left), len(right)) < max(4, d + 2):
            continue
        if max(np.linalg.norm(np.ptp(x[g], axis=0)) for g in (left, right)) * 10 > gaps[k - 1] or gaps[k - 1] < .3:
            continue
        size = (lambda y: float(np.std(y))) if d == 1 else (lambda y: float(np.linalg.det(np.cov(y, rowvar=False))))
        parts, whole = [size(x[left]), size(x[right])], size(x)
        if min(parts) > 1e-14 * whole and min(parts) > 1e-40 and sum(parts) < .4 * whole:
            return left, right
    return None


def gen_modes(rnd, tier):
    """Two narrow modes far apart: sooner or later the live points sit in both."""
    dims = rnd.choice([1, 1, 2])
    lo = [rnd.choice([0.0, -2.0, 5.0])] * dims
    side = rnd.choice([1.0, 2.0, 6.0])
    hi = [a + side for a in lo]
    cfg = gen_sampler(rnd, "multi", lo=lo, hi=hi)
    cfg["params"].update(N=rnd.randint(12, 24), converged_radius=1e-6 * side, inflate_factor=rnd.choice([1.1, 1.5, 2.0]))
    w = rnd.uniform(.35, .65)
    f = [.15, .85] if rnd.random() < .5 else [.85, .15]
    t = {"kind": "gmm", "dims": dims, "support": [list(lo), list(hi)], "means": [[a + side * q for a in lo] for q in f],
         "sigmas": [[(rnd.uniform(.01, .02) * side) ** 2] * dims for _ in range(2)], "weights": [w, 1 - w], "cost": .001}
    n = 3 * cfg["params"]["N"]
    ops = [["req", n, BIG]] + [["req", n + k * rnd.randint(2, 4), BIG] for k in range(1, 9)]
    return {"cfg": cfg, "target": t, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1), "stalls": {}}


def gen(rnd, i, tier):
    if rnd.random() < .12:
        return gen_modes(rnd, tier)
    dims = some_dims(rnd, [1, 1, 2, 2, 3])
    lo, hi = gen_domain(rnd, dims)
    cfg = gen_sampler(rnd, "multi", lo=lo, hi=hi)
    if rnd.random() < .3:
        cfg["params"]["N"] = rnd.randint(2 * dims + 2, 40)
    if rnd.random() < .2:
        cfg["params"]["converged_radius"] = rnd.choice([.5, 1.0])
    n = rnd.randint(4, 60 if tier == "quick" else 150)
    t = gen_target(rnd, lo, hi)
    if rnd.random() < .5:
        t = gen_target(rnd, lo, hi, kinds=("gmm",))
    t["cost"] = rnd.choice([0.001, 0.004])
    if rnd.random() < .25:
        t["fail"] = sorted({rnd.randint(1, 4 * n) for _ in range(rnd.randint(1, 3))})
    if rnd.random() < .4:
        t["slow"] = {str(rnd.randint(1, 3 * n)): rnd.choice([.05, 1, 10]) for _ in range(rnd.randint(1, 4))}
    ops = []
    for op in gen_ops(rnd, cfg, n, rnd.randint(1, 7), timeouts=.5, extras=True, resets=.1):
        ops.append(op)
        if op[0] == "req" and rnd.random() < .25:
            ops.append(list(op))
    return {"cfg": cfg, "target": t, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 6 * n, .5)["stalls"]}


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    p = cfg["params"]
    N, dims = p["N"], len(cfg["lo"])
    lo, hi = np.array(cfg["lo"]), np.array(cfg["hi"])
    target = SimTarget(plan["target"])
    pdf = target.pdf
    most = 0
    Draws.install()
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:multi", build, cfg)
        log = []
        sim.on_eval = lambda t, x, res: log.append(("eval", np.array(x), None)) and None
        sim.on_draw = lambda d, x, depth: log.append(("draw", np.array(x), d)) and None if depth == 0 else None
        chances = splits = 0
        gap, live, points = None, None, np.zeros((0, dims))
        for step, op in enumerate(plan["ops"]):
            if op[0] == "reset":
                ctx.call("reset:multi", s.reset)
                gap, live, points = None, None, np.zeros((0, dims))
                continue
            if op[0] != "req":
                if len(points):
                    target.quiet = True
                    observe(cfg, s)
                    if op[0] == "sample":
                        ctx.call("sample:multi", s.sample, op[1])
                    target.quiet = False
                continue
            del log[:]
            before = np.array(s.live_points)
            t0, limit = sim.now, min(op[2], patience(cfg, op[1]))
            try:
                samples, w = request(ctx, cfg, s, target, op[1], limit)
            except SimFault:
                ctx.probe("failed_requests")
                # which points it recorded before the failure is settled by the next request
                if gap is None:
                    gap = [before.tolist()]
                gap.append([e[1].reshape(-1).tolist() for e in log if e[0] == "eval" and len(e[1]) == 1])
                live = None
                continue
            late = sim.now - t0 >= limit
            samples = samples.reshape(-1, dims)
            if gap is not None:
                gap.append([e[1].reshape(-1).tolist() for e in log if e[0] == "eval" and len(e[1]) == 1])
                ctx.check(len(samples) >= len(points) and np.array_equal(samples[:len(points)], points), "earlier-samples",
                          lambda: "step %d: the samples recorded earlier changed" % step)
                pool = Counter(tuple(x) for part in gap for x in part)
                have = Counter(tuple(x) for x in np.vstack((samples[len(points):], np.array(s.live_points))).tolist())
                extra = have - pool
                ctx.check(not extra, "recorded-twice", lambda: "step %d, after a failure: %s is held more often than it was "
                          "found" % (step, list(extra)[0]))
                gap, live, points = None, np.array(s.live_points), samples
                continue
            got = [e for e in log if e[0] == "eval"]
            ctx.check(len(got) > 0 and len(got[0][1]) == N, "live-points-evaluated", lambda: "step %d: %d points evaluated first, "
                      "%d live points" % (step, len(got[0][1]) if got else 0, N))
            start = got[0][1].reshape(-1, dims)
            if live is not None:
                ctx.check(np.array_equal(np.sort(start, axis=0), np.sort(live, axis=0)), "live-points-changed",
                          lambda: "the live points of step %d are not those left by the last request" % step)
            else:
                ctx.check(bool(np.all(start >= lo) and np.all(start <= hi)), "live-points-outside", lambda: "step %d" % step)
            ells = getattr(s, "ellipsoids", None)
            try:
                groups = [np.flatnonzero(np.asarray(e.indices)) for e in ells]
                done = [bool(not e.volume > p["converged_radius"] ** dims) for e in ells]
            except Exception:
                ctx.probe("clusters_not_understood")
                live, points = np.array(s.live_points), samples
                continue
            most = max(most, len(groups))
            if len(groups) > 1:
                ctx.probe("requests_with_clusters")
            ctx.check(sorted(np.concatenate(groups).tolist()) == list(range(N)), "partition",
                      lambda: "step %d: clusters %s of %d live points" % (step, brief([g.tolist() for g in groups]), N))
            apart = two_groups(start)
            if apart is not None:
                sim.fire("separated_groups")
                chances += 1
                splits += all(not set(g.tolist()) & set(apart[0].tolist()) or not set(g.tolist()) & set(apart[1].tolist()) for g in groups)
                # the clustering draws its first centres and may fail now and then
                ctx.check(chances < 3 or splits > 0, "never-split", lambda: "step %d: in each of %d requests the live points lay in two "
                          "far apart groups and were left in one cluster" % (step, chances))
            centres = [start[g].mean(axis=0) for g in groups]
            # candidates: a draw, then its evaluation
            cand = []
            ev = [e for e in log if e[0] == "draw" or len(e[1]) == 1]
            if len(start) == 1 and ev and ev[0][0] == "eval":
                ev = ev[1:]
            k = 0
            clear = True
            while k < len(ev):
                if ev[k][0] != "draw" or k + 1 >= len(ev) or ev[k + 1][0] != "eval":
                    clear = False
                    break
                cand.append((ev[k][2], ev[k][1].reshape(-1), ev[k + 1][1].reshape(-1)))
                k += 2
            if not clear:
                ctx.probe("evaluations_not_understood")
                live, points = np.array(s.live_points), samples
                continue
            now = start.copy()
            vals = pdf(now)
            rec, unique = [], True
            need = int(np.ceil(max(op[1] - len(points), 0) / len(groups)))
            k = 0
            for g, c, conv in zip(groups, centres, done):
                for r in range(need):
                    j = g[int(np.argmin(vals[g]))]
                    m = vals[j]
                    if np.sum(vals[g] <= m * (1 + 1e-9)) > 1:
                        unique = False
                    found = False
                    while k < len(cand) and not found:
                        d, raw, x = cand[k]
                        if not close(np.asarray(d.loc, dtype=float).reshape(-1), c, 1e-9, 1e-12):
                            break
                        k += 1
                        ctx.check(close(np.clip(raw, lo, hi), x, 1e-12, 1e-12), "candidate",
                                  lambda: "step %d: %s drawn, %s evaluated" % (step, raw, x))
                        v = pdf(x.reshape(1, -1))[0]
                        found = v >= m or conv
                    if not found:
                        break
                    rec.append((now[j].copy(), m))
                    now[j], vals[j] = x, v
            ctx.check(k == len(cand), "candidate-of-no-cluster", lambda: "step %d: candidate %d of %d is drawn about %s, clusters at %s" % (
                step, k, len(cand), brief(np.asarray(cand[k][0].loc)), brief(np.array(centres))))
            new = samples[len(points):]
            ctx.check(len(samples) >= len(points) and np.array_equal(samples[:len(points)], points), "earlier-samples",
                      lambda: "step %d: the samples recorded earlier changed" % step)
            ctx.check(len(new) == len(rec), "recorded-count", lambda: "step %d: %d samples recorded, the candidates give %d" % (
                step, len(new), len(rec)))
            if not late:
                ctx.check(len(new) == need * len(groups), "cluster-share", lambda: "step %d: %d samples recorded, %d for each of %d "
                          "clusters expected" % (step, len(new), need, len(groups)))
            if len(new):
                ctx.check(close(pdf(new), np.array([r[1] for r in rec]), 1e-9), "not-the-least-likely",
                          lambda: "step %d: likelihoods %s, the least likely live points of the clusters had %s" % (
                              step, brief(pdf(new)), brief([r[1] for r in rec])))
            left = np.array(s.live_points)
            if unique:
                if len(new):
                    ctx.check(np.array_equal(new, np.array([r[0] for r in rec])), "not-the-least-likely",
                              lambda: "step %d: %s, expected %s" % (step, brief(new), brief([r[0] for r in rec])))
                ctx.check(np.array_equal(np.sort(left, axis=0), np.sort(now, axis=0)), "live-points-left",
                          lambda: "step %d: live points %s, expected %s" % (step, brief(left), brief(now)))
            else:
                ctx.check(close(np.sort(pdf(left)), np.sort(vals), 1e-9), "live-points-left",
                          lambda: "step %d: likelihoods of the live points %s, expected %s" % (step, brief(np.sort(pdf(left))), brief(np.sort(vals))))
            live, points = left, samples
        held = len(points)
    return sim_stats(sim, ctx, sig="%d" % most, nontrivial=held >= 3)
