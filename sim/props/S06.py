"""Importance weights are target over proposal."""
import copy

import numpy as np

from ais_benchmarks.distributions import CMultivariateNormal
from ..common import *

PID = "S06"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("A random sampler answers a history of requests of random sizes, some cut short, on targets with zero-density "
        "stretches. The weights returned at every step are recomputed from the recorded target values and from the "
        "arguments of the random generator calls that drew the samples. Non-trivial: weights of at least one request were "
        "recomputed.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS


def gen(rnd, i, tier):
    cfg = gen_sampler(rnd, KINDS[i % len(KINDS)])
    kind = cfg["kind"]
    n = size_for(rnd, cfg, tier)
    t = gen_target(rnd, cfg["lo"], cfg["hi"], scaled=.12)
    t["cost"] = rnd.choice([0.001, 0.004])
    if kind in ("dm", "pmc", "lais") and rnd.random() < .3:
        a = rnd.randint(0, n)
        t["zero"] = [[a, a + rnd.randint(1, n)]]
    ops = gen_ops(rnd, cfg, n, rnd.randint(1, 6), timeouts=.3, resets=.1)
    return {"cfg": cfg, "target": t, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 6 * n, .4)["stalls"]}


def normal_pdf(x, mean, cov):
    mean = np.asarray(mean, dtype=float).reshape(-1)
    cov = np.asarray(cov, dtype=float)
    d = np.atleast_2d(x) - mean
    q = np.einsum("ij,jk,ik->i", d, np.linalg.inv(cov), d)
    return np.exp(-.5 * q) / np.sqrt((2 * np.pi) ** len(mean) * np.linalg.det(cov))


def proportional(ctx, kind, w, want, what):
    """w = C * want for one constant C."""
    w = np.asarray(w, dtype=float).reshape(-1)
    want = np.asarray(want, dtype=float).reshape(-1)
    big = want > 1e-200
    if not np.any(big):
        return
    ok = w > 0
    ctx.check(bool(np.all(ok[big])), "weight-lost:" + kind, lambda: "%s: weights %s for target/proposal %s" % (
        what, brief(w[big]), brief(want[big])))
    top = want > want.max() * 1e-12
    r = w[top] / want[top]
    ctx.check(bool(r.max() - r.min() <= 1e-6 * r.max()), "weight-not-target-over-proposal:" + kind,
              lambda: "%s: weights over target/proposal range from %.17g to %.17g (samples %d and %d of %d)" % (
                  what, r.min(), r.max(), np.flatnonzero(top)[r.argmin()], np.flatnonzero(top)[r.argmax()], len(w)))
    zero = want == 0
    ctx.check(bool(np.all(w[zero] == 0)), "weight-without-density:" + kind, lambda: "%s: %s" % (what, brief(w[zero])))
    ctx.probe("weights_recomputed", len(w))


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    p = cfg["params"]
    lo, hi = np.array(cfg["lo"], dtype=float), np.array(cfg["hi"], dtype=float)
    d = len(lo)
    vol = float(np.prod(hi - lo))
    target = SimTarget(plan["target"])
    values = {}
    drawn = {}

    def on_eval(t, x, res):
        for row, v in zip(np.asarray(x, dtype=float), res):
            values[row.tobytes()] = float(v)

    def log(dist, res, depth):
        if not isinstance(dist, CMultivariateNormal) or np.ndim(res) != 2 or np.shape(res)[1] != d:
            return
        mean, cov = np.array(dist.loc, dtype=float).reshape(-1), np.array(dist.scale, dtype=float)
        for row in res:
            drawn[np.asarray(row, dtype=float).tobytes()] = (mean, cov)

    def tvals(xs):
        return np.array([values.get(np.asarray(x, dtype=float).tobytes(), np.nan) for x in xs])

    def tree_cells(s):
        """Cells of the tree, if it is stored the usual way."""
        T = getattr(s, "T", None)
        try:
            if kind == "tp":
                leaves = [(np.array(l.center, dtype=float), np.broadcast_to(np.array(l.radius, dtype=float), (d,)))
                          for l in T.leaves]
            else:
                leaves = [(np.array(T.nodes[j].center, dtype=float), np.array(T.nodes[j].radius, dtype=float))
                          for j in T.leaves]
        except Exception:
            return None
        return leaves

    done = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        Draws.install()
        sim.on_draw = log
        sim.on_eval = on_eval
        s = ctx.call("construct:" + kind, build, cfg)
        held = 0
        qs = []        # target over proposal, sample by sample (population methods)
        for op in plan["ops"]:
            if op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                held, qs = 0, []
                continue
            if op[0] == "sample":
                if held:
                    ctx.call("sample:" + kind, s.sample, op[1])
                continue
            if op[0] == "prob":
                observe(cfg, s)
                continue
            n = op[1]
            snap = None
            if kind == "pmc":
                n = held + 1
                snap = copy.deepcopy(s)
            samples, w = request(ctx, cfg, s, target, n, min(op[2], patience(cfg, n)))
            w = w.reshape(-1)
            if len(samples) == 0:
                held = 0
                continue
            what = "after request(%d)" % n
            ctx.check(bool(np.all(np.isfinite(w)) and np.all(w >= 0)), "not-finite:" + kind, lambda: brief(w))
            tv = tvals(samples)
            if np.any(np.isnan(tv)):
                bad = int(np.flatnonzero(np.isnan(tv))[0])
                ctx.check(False, "sample-not-evaluated:" + kind, lambda: "%s: sample %d (%s) was never evaluated" % (
                    what, bad, samples[bad]))
            done += 1
            if kind in ("dm", "lais"):
                B = p["K"] * p["N"]
                ctx.check(len(samples) % B == 0, "partial-batch:" + kind, lambda: "%d samples" % len(samples))
                for b in range(len(qs) // B, len(samples) // B):
                    xs = samples[b * B:(b + 1) * B]
                    comp = [drawn.get(np.asarray(x).tobytes()) for x in xs]
                    if any(c is None for c in comp):
                        ctx.probe("origin_unknown")
                        qs = None
                        break
                    q = np.mean([normal_pdf(xs, m, c) for m, c in comp], axis=0)
                    qs.extend(list(tv[b * B:(b + 1) * B] / q))
                if qs is None:
                    break
                proportional(ctx, kind, w, np.array(qs), what)
                if np.sum(w) > 0:
                    ctx.check(abs(np.sum(w) - 1) < 1e-9, "not-normalised:" + kind, lambda: "weights sum to %.17g" % np.sum(w))
            elif kind == "pmc":
                new = slice(held, len(samples))
                if len(samples) > held:
                    # the density of the mixture in force, from its parts
                    xs = samples[new]
                    q = np.array([float(np.asarray(snap.prob(x)).reshape(-1)[0]) for x in xs])
                    for x, qx in zip(xs, q):
                        m = drawn.get(np.asarray(x).tobytes())
                        if m is not None:
                            ctx.check(qx > 0, "drawn-where-density-is-zero:pmc", lambda: "%s" % x)
                    ratio = tv[new] / q
                    proportional(ctx, kind, w[new], ratio, what)
                    tot = float(np.sum(w[new]))
                    ctx.check(tot == 0 or abs(tot - 1) < 1e-9, "not-normalised:" + kind,
                              lambda: "weights of the batch sum to %.17g" % tot)
            elif kind in ("rej", "mh"):
                ctx.check(bool(np.all(np.abs(w - 1.0 / len(w)) < 1e-12)), "not-equal-weights:" + kind,
                          lambda: "%s: %s" % (what, brief(w)))
                ctx.probe("weights_recomputed", len(w))
            elif kind in ("nested", "multi"):
                i = np.arange(len(samples))
                prior = np.exp(-i / p["N"]) - np.exp(-(i + 1) / p["N"])
                proportional(ctx, kind, w, tv * prior, what)
                if np.sum(w) > 0:
                    ctx.check(abs(np.sum(w) - 1) < 1e-9, "not-normalised:" + kind, lambda: "weights sum to %.17g" % np.sum(w))
            else:
                cells = tree_cells(s)
                pos = tv > 1e-200
                if kind == "hid":
                    raw = True
                    scale = 1.0
                else:
                    ess = p["ess_target"]
                    raw = not (ess is None or ess > 1.0)
                    scale = 1.0
                if not raw:
                    tot = float(np.sum(w))
                    ctx.check(tot == 0 or abs(tot - 1) < 1e-9, "not-normalised:" + kind, lambda: "weights sum to %.17g" % tot)
                if kind == "tp" and p["kernel"] == "normal":
                    if p["resampling"] == "none":
                        comp = [drawn.get(np.asarray(x).tobytes()) for x in samples]
                        if all(c is not None for c in comp):
                            q = np.array([normal_pdf(x, *c)[0] for x, c in zip(samples, comp)])
                            if raw:
                                ctx.check(close(w[pos], tv[pos] / q[pos], 1e-6), "weight-not-target-over-proposal:tp",
                                          lambda: "%s: %s vs %s" % (what, brief(w[pos]), brief(tv[pos] / q[pos])))
                            else:
                                proportional(ctx, kind, w, tv / q, what)
                    elif cells is not None and not raw:
                        # leaves in the order of the returned samples: nearest centre in units of the cell
                        node_of = {l.node_idx: l for l in s.T.leaves}
                        order = [node_of[j] for j in sorted(node_of)]
                        if len(order) == len(samples):
                            c = np.array([l.center for l in order], dtype=float)
                            r = np.array([np.broadcast_to(l.radius, (d,)) for l in order], dtype=float)
                            z = (samples - c) / (2 * r)
                            # kernel: covariance 0.5 in units of the cell width
                            q = np.exp(-.5 * np.sum(z * z, axis=1) / .5) / np.prod(2 * r, axis=1)
                            proportional(ctx, kind, w, tv / q, what)
                    held = len(samples)
                    continue
                # uniform cells: the weight over the target is the volume of a cell of the tree
                if np.any(pos):
                    v = w[pos] / tv[pos]
                    per = 1 if kind == "hid" else d
                    rootvol = vol if kind == "hid" else float(np.max(hi - lo)) ** d
                    ref = rootvol if raw else v.max()
                    k = np.log2(ref / v) / per
                    ctx.check(bool(np.all(np.abs(k - np.round(k)) < 1e-6)) and bool(np.all(np.round(k) >= 0)),
                              "weight-not-cell-volume:" + kind,
                              lambda: "%s: weight over target %s is no cell of a domain of volume %g" % (what, brief(v), rootvol))
                    ctx.probe("weights_recomputed", len(v))
                    if cells is not None:
                        tot = sum(float(np.prod(2 * r)) for c, r in cells)
                        ctx.check(abs(tot - rootvol) <= 1e-9 * rootvol, "cells-do-not-tile:" + kind,
                                  lambda: "the volume of %d cells is %.17g, of the domain %.17g" % (len(cells), tot, rootvol))
                        C = np.array([c for c, r in cells])
                        R = np.array([r for c, r in cells])
                        V = np.prod(2 * R, axis=1)
                        ov = np.abs(C[:, None] - C[None]) < (R[:, None] + R[None]) * (1 - 1e-9)
                        ctx.check(int(np.sum(np.all(ov, axis=2))) == len(C), "cells-overlap:" + kind, "cells overlap")
                        best = None
                        for x, vi in zip(samples[pos], v):
                            inside = np.all(np.abs(x - C) <= R * (1 + 1e-9), axis=1)
                            ctx.check(bool(np.any(inside)), "sample-outside-cells:" + kind, lambda: "%s" % x)
                            rr = vi / V[inside]
                            if raw:
                                ctx.check(bool(np.any(np.abs(rr - 1) < 1e-6)), "weight-of-another-cell:" + kind,
                                          lambda: "%s: sample %s has weight/target %.17g in a cell of volume %s" % (
                                              what, x, vi, V[inside]))
                            else:
                                if best is None:
                                    best = rr
                                else:
                                    best = np.array([b for b in best if np.any(np.abs(rr / b - 1) < 1e-6)])
                                ctx.check(best.size > 0, "weight-of-another-cell:" + kind,
                                          lambda: "%s: sample %s has weight/target %.17g in a cell of volume %s" % (
                                              what, x, vi, V[inside]))
            held = len(samples)
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=done > 0)
