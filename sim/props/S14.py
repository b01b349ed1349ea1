"""The proposals follow what the sampler has learned."""
import math

import numpy as np

from ..common import *

PID = "S14"
RUNS = {"quick": 4500, "thorough": 120000}
RULE = ("Samplers are driven one iteration at a time (with resets, draws, density queries, interrupted requests and stretches "
        "of zero density in between) and their proposals before and after are compared with the ones their adaptation rule "
        "prescribes for the samples and weights of the iteration. Non-trivial: at least three iterations adapted.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
SHRINK = ("steps",)
ASSUME = ["Random choices (which sample a proposal moves to, which cell is sampled) are compared with their probabilities by "
          "an exact bound with error below 1e-12 per run; biases smaller than that bound go unnoticed.",
          "Cells are compared while they are wider than 1e-6 of the domain.",
          "The proposals are read from the model the sampler offers and, for trees, from the nodes of the tree."]


def gen(rnd, i, tier):
    kind = KINDS[i % len(KINDS)]
    dims = some_dims(rnd, [1, 1, 2, 2, 3])
    lo, hi = gen_domain(rnd, dims, cubic=True if kind == "tp" else None)
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    p = cfg["params"]
    many = rnd.random() < .25
    steps = rnd.randint(3, 8)
    if many and kind == "dm":
        p["N"], p["K"] = rnd.randint(12, 24), rnd.randint(1, 2)
        steps = rnd.randint(8, 12)
        if rnd.random() < .2:
            p["N"], p["K"] = rnd.randint(30, 60), 1
    elif many and kind == "hid":
        steps = rnd.choice([150, 250])
        p["n_min"] = rnd.randint(2, 6)
    elif kind == "hid":
        steps = rnd.randint(10, 60)
    elif kind == "tp":
        steps = rnd.randint(3, 12)
        p["kernel"] = rnd.choice(["haar", "haar", "haar", "normal"])
        if rnd.random() < .25:
            steps = rnd.randint(15, 40)
            p.update(ess_target=rnd.choice([.8, .95]), n_min=rnd.randint(4, 12), parallel_samples=rnd.choice([1, 1, 2]), kernel="haar", resampling="none")
    elif many and "n_samples_kde" in p:
        p["n_samples_kde"] = rnd.choice([30, 60, 250])
    t = gen_target(rnd, lo, hi, kinds=("gmm", "gmm", "gmm", "slope", "cauchy", "flat", "box"), scaled=0.0 if kind == "rej" else .08)
    t["cost"] = .001
    n = size_for(rnd, cfg, tier)
    if rnd.random() < .15:
        a = rnd.randint(0, n)
        t["zero"] = [[a, a + rnd.randint(1, n + 3)]]
    ops = []
    for _ in range(steps):
        r = rnd.random()
        if r < (.03 if steps < 60 else .004) and ops:
            ops.append(["reset"])
        elif r < .1 and ops:
            ops.append(["sample", rnd.randint(1, 3)])
        elif r < .16 and ops:
            ops.append(["prob"])
        ops.append(["step", rnd.randint(1, 6)])
    return {"cfg": cfg, "target": t, "steps": ops, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 6 * n, .3)["stalls"]}


def parts(s):
    """The components of the model a sampler offers: [centre, covariance, share]."""
    m = getattr(s, "model", None)
    try:
        w = np.array(m.weights, dtype=float).reshape(-1)
        return [(np.array(c.loc, dtype=float).reshape(-1), np.array(c.scale, dtype=float), float(v))
                for c, v in zip(m.models, w / np.sum(w))]
    except AttributeError:
        return None


def log_normal(x, mean, cov):
    d = np.atleast_2d(x) - mean
    q = np.einsum("ij,ij->i", d, np.linalg.solve(cov, d.T).T)
    return -.5 * (q + len(mean) * math.log(2 * math.pi) + np.linalg.slogdet(cov)[1])


class Fair:
    """Random choices compared with their probabilities. Against every alternative the product of the ratios of probabilities
    is a martingale under the prescribed ones: it reaches 10**12 in less than one run of 10**12."""

    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what
        self.n = 0
        self.score = {}

    def add(self, p, k, **others):
        p = np.asarray(p, dtype=float)
        p = p / np.sum(p)
        if not p[k] > 0:
            self.ctx.check(False, self.what, "something of probability zero was chosen")
            return
        order = np.argsort(p)
        mid = np.cumsum(p[order]) - p[order] / 2
        rank = np.empty(len(p))
        rank[order] = mid
        others.update(even=np.ones(len(p)), flatter=np.sqrt(p), steeper=p ** 2, likely=p * rank, unlikely=p * (1 - rank),
                      reverse=1 - p if len(p) > 1 else p)
        for name, q in others.items():
            q = np.asarray(q, dtype=float)
            if np.sum(q) > 0:
                self.score[name] = self.score.get(name, 0.0) + math.log(.1 + .9 * q[k] / np.sum(q) / p[k])
        self.n += 1

    def done(self):
        self.ctx.probe("choices_compared", self.n)
        for name, v in sorted(self.score.items()):
            self.ctx.check(v < math.log(1e12 * len(self.score)), self.what, lambda: "%d choices are %.3g times as likely under %r "
                           "than under the prescribed probabilities" % (self.n, math.exp(min(v, 600)), name))


def offered(ctx, cfg, s, target, comps, pts):
    """The density of the sampler is the one of its components."""
    kind = cfg["kind"]
    target.quiet = True
    got = np.asarray(ctx.call("log_prob:" + kind, s.log_prob, pts), dtype=float).reshape(-1)
    target.quiet = False
    terms = np.array([log_normal(pts, c, S) + (math.log(a) if a > 0 else -np.inf) for c, S, a in comps])
    top = terms.max(axis=0)
    want = top + np.log(np.sum(np.exp(terms - top), axis=0))
    ok = np.abs(got - want) <= 1e-6 * (1 + np.abs(want))
    ok |= (want < -600) & (got < -600)
    ctx.check(bool(np.all(ok)), "not-the-mixture:" + kind, lambda: "log density %s at %s, of the components %s" % (
        brief(got), brief(pts), brief(want)))


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    target = SimTarget(plan["target"])
    target.keep = False
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:" + kind, build, cfg)
        j = {"dm": Normals, "lais": Normals, "pmc": Normals, "hid": Cells, "tp": Cells}.get(kind, Kernels)(ctx, cfg, s, target, sim)
        for op in plan["steps"]:
            sim.event("op", repr(op))
            if op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                j.reset()
            elif op[0] == "step":
                j.step(op[1])
            elif j.held and kind != "mh":
                before = j.snapshot()
                target.quiet = True
                if op[0] == "sample":
                    ctx.call("sample:" + kind, s.sample, op[1])
                else:
                    ctx.call("prob:" + kind, s.prob, probe_points(cfg))
                target.quiet = False
                after = j.snapshot()
                ctx.check(before is None or repr(before) == repr(after), "moved-by-a-query:" + kind, lambda: "%s: %s, then %s" % (
                    op[0], repr(before)[:200], repr(after)[:200]))
        j.end()
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=j.adapted > 2)


class Base:
    def __init__(self, ctx, cfg, s, target, sim):
        self.ctx, self.cfg, self.s, self.target, self.sim = ctx, cfg, s, target, sim
        self.kind, self.p = cfg["kind"], cfg["params"]
        self.d = len(cfg["lo"])
        self.lo, self.hi = np.array(cfg["lo"], dtype=float), np.array(cfg["hi"], dtype=float)
        self.adapted = 0
        self.fair = Fair(ctx, "choices-do-not-follow-the-weights:" + self.kind)
        self.seen = []
        sim.on_eval = lambda t, x, res: self.seen.extend(zip(np.array(x, dtype=float).reshape(-1, self.d), np.array(res, dtype=float).reshape(-1)))
        self.reset()

    def reset(self):
        self.held = 0

    def end(self):
        self.fair.done()

    def ask(self, n, t=2.5):
        self.seen = []
        x, w = request(self.ctx, self.cfg, self.s, self.target, n, t)
        w = w.reshape(-1)
        return x.reshape(len(w), self.d), w


class Normals(Base):
    """Population methods: a mixture of normals that moves after every iteration."""

    def snapshot(self):
        return parts(self.s)

    def step(self, k):
        ctx, kind, p = self.ctx, self.kind, self.p
        old = self.snapshot()
        x, w = self.ask(self.held + 1)
        new = self.snapshot()
        batch = p["K"] if kind == "pmc" else p["K"] * p["N"]
        xs, ws = x[self.held:], w[self.held:]
        self.held = len(x)
        if old is None or new is None or len(xs) != batch:
            ctx.probe("not_compared")
            return
        ctx.check(len(new) == p["N"], "components:" + kind, lambda: "%d components instead of %d" % (len(new), p["N"]))
        offered(ctx, self.cfg, self.s, self.target, new, np.vstack((xs[:3], [c for c, S, a in new[:3]], probe_points(self.cfg, 2))))
        same_ = all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and abs(a[2] - b[2]) < 1e-12 for a, b in zip(old, new))
        if kind == "pmc":
            self.pmc(old, new, xs, same_)
            return
        S = np.eye(self.d) * p["sigma"]
        for c, cov, a in new:
            ctx.check(cov.shape == S.shape and bool(np.all(np.abs(cov - S) <= 1e-9 * p["sigma"])), "covariance:" + kind,
                      lambda: "%s instead of %g" % (brief(cov), p["sigma"]))
            ctx.check(abs(a - 1 / len(new)) < 1e-9, "shares:" + kind, lambda: "a share of %r of %d components" % (a, len(new)))
        if kind == "lais":
            at = np.array([e[0] for e in self.seen])
            for k, ((c, _, _), (b, _, _)) in enumerate(zip(new, old)):
                ctx.check(np.array_equal(c, b) or bool(np.any(np.all(np.abs(at - c) <= 1e-12, axis=1))), "not-a-state:lais",
                          lambda: "component %d moved from %s to %s, where the target was not evaluated" % (k, b, c))
            self.adapted += not same_
            return
        # the last iteration's own weights: those of earlier ones are normalised with them, which keeps proportions
        if not np.sum(ws) > 0:
            ctx.check(same_, "moved-without-weights:dm", lambda: "weights %s" % brief(ws))
            return
        self.adapted += 1
        for k, (c, _, _) in enumerate(new):
            hit = np.flatnonzero(np.all(np.abs(xs - c) <= 1e-12 * (1 + np.abs(c)), axis=1))
            ctx.check(len(hit) > 0, "not-a-sample:dm", lambda: "component %d is centred on %s, not a sample of the iteration" % (k, c))
            if len(hit):
                ctx.check(bool(np.any(ws[hit] > 0)), "weightless-sample:dm", lambda: "component %d is centred on a sample without weight" % k)
                if len(hit) == 1:
                    self.fair.add(ws, hit[0])

    def pmc(self, old, new, xs, same_):
        ctx, p = self.ctx, self.p
        f = {a.tobytes(): v for a, v in self.seen}
        tv = np.array([f.get(np.asarray(x, dtype=float).tobytes(), np.nan) for x in xs])
        if np.any(np.isnan(tv)):
            ctx.probe("not_compared")
            return
        lq = np.array([log_normal(xs, c, S) for c, S, a in old])
        la = np.array([math.log(a) if a > 0 else -np.inf for c, S, a in old])
        joint = la[:, None] + lq
        top = joint.max(axis=0)
        mix = top + np.log(np.sum(np.exp(joint - top), axis=0))
        with np.errstate(all="ignore"):
            w = np.exp(np.log(tv) - mix)
        if not np.sum(w) > 0:
            ctx.check(same_, "moved-without-weights:pmc", lambda: "target %s" % brief(tv))
            return
        w = w / np.sum(w)
        rho = np.exp(joint - mix)
        self.adapted += 1
        shares = rho @ w
        for k, (c, S, a) in enumerate(new):
            al = shares[k]
            ctx.check(abs(a - al) <= 1e-7, "shares:pmc", lambda: "component %d: share %r, expected %r" % (k, a, al))
            if al < 1e-9:
                continue
            v = w * rho[k] / al
            mu = v @ xs
            spread = float(np.max(np.ptp(xs, axis=0))) + 1e-12
            ctx.check(bool(np.all(np.abs(c - mu) <= 1e-5 * spread)), "mean:pmc", lambda: "component %d: centre %s, expected %s" % (k, c, mu))
            dx = xs - mu
            right = (dx * v[:, None]).T @ dx
            total = dx.T @ dx

            def fits(m):
                if np.any(np.abs(m - 10) < 1e-5):
                    return True     # whether it is above 10 is a matter of rounding
                m = np.diag(np.full(self.d, 10.0)) if np.any(m > 10) else m
                return bool(np.all(np.abs(S - m) <= 1e-4 * np.max(np.abs(m))))
            if not fits(right):
                ctx.check(fits(total), "covariance:pmc", lambda: "component %d: covariance %s, expected %s" % (k, brief(S), brief(right)))
                ctx.violate("pmc-covariance-is-the-unweighted-scatter", "component %d has covariance %s, the sum over all samples; eq. "
                            "14.3 of the algorithm gives %s" % (k, brief(S), brief(right)))


class Kernels(Base):
    """Chains, rejection and nested sampling: kernels on samples held."""

    def snapshot(self):
        return None

    def step(self, k):
        ctx, kind, p = self.ctx, self.kind, self.p
        x, w = self.ask(self.held + k)
        self.held = len(x)
        if not self.held:
            return
        pts = np.vstack((x[-2:], probe_points(self.cfg, 2)))
        self.target.quiet = True
        if kind == "mh" or k % 2:
            ctx.call("log_prob:" + kind, self.s.log_prob, pts)     # may build the approximation now
        self.target.quiet = False
        new = parts(self.s)
        if new is None:
            ctx.probe("not_compared")
            return
        self.adapted += 1
        ctx.check(len(new) == p["n_samples_kde"], "components:" + kind, lambda: "%d components instead of %d" % (len(new), p["n_samples_kde"]))
        S = np.eye(self.d) * p["kde_bw"]
        n = len(x)
        # samples that are the same point
        same_as = np.array([int(np.argmax(np.all(np.abs(x - a) <= 2e-12 * (1 + np.abs(a)), axis=1))) for a in x])
        groups = []
        for c, cov, a in new:
            ctx.check(cov.shape == S.shape and bool(np.all(np.abs(cov - S) <= 1e-9 * p["kde_bw"])), "bandwidth:" + kind,
                      lambda: "%s instead of %g" % (brief(cov), p["kde_bw"]))
            ctx.check(abs(a - 1 / len(new)) < 1e-9, "shares:" + kind, lambda: "a share of %r of %d components" % (a, len(new)))
            hit = np.flatnonzero(np.all(np.abs(x - c) <= 1e-12 * (1 + np.abs(c)), axis=1))
            ctx.check(len(hit) > 0, "not-a-sample:" + kind, lambda: "a component is centred on %s, not one of the %d samples" % (c, n))
            if len(hit) and n > 1:
                groups.append(int(same_as[hit[0]]))
        if n > 1:
            fold = lambda v: np.bincount(same_as, weights=np.asarray(v, dtype=float), minlength=int(same_as.max()) + 1)
            i = np.arange(n)
            others = dict(recent=fold(i >= n - 10), older=fold(i < n - 10), first=fold(i < n // 2), last=fold(i >= n // 2),
                          rising=fold(i + 1), falling=fold(n - i),
                          all_but_newest=fold(i < n - 1), all_but_oldest=fold(i > 0))
            for k in groups:
                self.fair.add(fold(np.ones(n)), k, **others)
        offered(ctx, self.cfg, self.s, self.target, new, pts)


class Cells(Base):
    """Trees: which cells are divided, which are sampled, and how much mass each has."""

    def reset(self):
        super().reset()
        self.ref = {}
        self.zeros = False

    def cells(self):
        T = getattr(self.s, "T", None)
        try:
            if self.kind == "tp":
                c = [(np.array(l.center, dtype=float), np.broadcast_to(np.array(l.radius, dtype=float), (self.d,)).copy()) for l in T.leaves]
            else:
                c = [(np.array(T.nodes[k].center, dtype=float), np.array(T.nodes[k].radius, dtype=float)) for k in T.leaves]
        except Exception:
            return None
        return c if min(float(np.min(r)) for _, r in c) > 1e-6 * float(np.max(self.hi - self.lo)) else None

    def snapshot(self):
        return self.cells()

    @staticmethod
    def key(c):
        return c[0].tobytes() + c[1].tobytes()

    def where(self, cells, x):
        """The cell of each point; -1 if rounding decides."""
        C, R = np.array([c for c, r in cells]), np.array([r for c, r in cells])
        m = np.all(np.abs(np.asarray(x)[:, None] - C[None]) <= R[None] * (1 + 1e-9), axis=2)
        return np.where(m.sum(axis=1) == 1, m.argmax(axis=1), -1)

    def masses(self, cells, want):
        ctx, kind = self.ctx, self.kind
        if not np.sum(want) > 0 or not np.all(np.isfinite(want)):
            return
        pts = np.array([c + r * .31 for c, r in cells])[:40]
        vol = np.array([float(np.prod(2 * r)) for c, r in cells])[:40]
        want = (want / np.sum(want))[:40]
        self.target.quiet = True
        got = np.asarray(ctx.call("prob:" + kind, self.s.prob, pts), dtype=float).reshape(-1) * vol
        self.target.quiet = False
        ctx.check(bool(np.all(np.abs(got - want) <= 1e-7)), "mass-of-a-cell:" + kind, lambda: "masses %s, learned %s" % (brief(got), brief(want)))

    def step(self, k):
        old = self.cells()
        first = self.held == 0
        if self.kind == "hid":
            x, w = self.ask(self.held + 1, 2.5)
        else:
            # one iteration, however many samples it yields
            x, w = self.ask(10 ** 6, 1e-9)
        new = self.cells()
        before, self.held = self.held, len(x)
        if old is None or new is None:
            self.ref = None
            self.ctx.probe("not_compared")
            return
        (self.daisee if self.kind == "hid" else self.pyramid)(old, new, x, w, before, first)
        self.prev = (x, w)

    def grouped(self, cells, x, w):
        """Weights by cell, or None."""
        g = [[] for _ in cells]
        for k, b in zip(self.where(cells, x), w):
            if k < 0:
                return None
            g[k].append(b)
        return g

    def pyramid(self, old, new, x, w, before, first):
        ctx, p = self.ctx, self.p
        ess = p["ess_target"]
        raw = ess is not None and ess <= 1.0
        if p["kernel"] != "haar":
            return
        g = self.grouped(new, x, w)
        if g is not None and not raw:
            ctx.check(all(len(a) == 1 for a in g), "samples-per-cell:tp", lambda: "%s samples in the cells" % [len(a) for a in g][:20])
            self.masses(new, np.array([a[0] for a in g]))
        if first or not hasattr(self, "prev") or len(self.prev[0]) != before:
            return
        gone = {self.key(c) for c in old} - {self.key(c) for c in new}
        kids = len(new) - len(old)
        ctx.check(kids == len(gone) * (2 ** self.d - 1), "not-divided:tp", lambda: "%d cells gave way to %d" % (len(gone), kids + len(gone)))
        if p["resampling"] != "none":
            return
        g = self.grouped(old, *self.prev)
        if g is None:
            return
        value = np.array([np.mean(a) if a else 0.0 for a in g]) * np.array([float(np.prod(r)) for c, r in old])
        out = np.array([self.key(c) in gone for c in old])
        if raw:
            if self.zeros:
                return      # samples without weight are not returned
            n = np.array([len(a) for a in g])
            size = np.array([sum(a) ** 2 / sum(b * b for b in a) if a else 0.0 for a in g])
            may = (n >= p["n_min"]) & (size <= ess * n * (1 + 1e-9))
            must = (n >= p["n_min"]) & (size <= ess * n * (1 - 1e-9))
            ctx.check(bool(np.all(may[out])), "divided-too-early:tp", lambda: "a cell with %s samples of effective size %s was divided" % (
                n[out & ~may], size[out & ~may]))
            if np.any(must):
                best = int(np.argmax(np.where(must, value, -1)))
                tie = must & (value >= value[best] * (1 - 1e-9))
                ctx.check(bool(np.any(out[tie])), "not-divided:tp", lambda: "the cell of largest value among those due was not divided")
                if np.any(out) and np.any(must & ~out):
                    a, b = float(np.min(value[out])), float(np.max(value[must & ~out]))
                    ctx.check(a >= b * (1 - 1e-9), "smaller-cell-divided:tp", lambda: "a cell of value %.17g was divided before one of value %.17g" % (a, b))
                self.adapted += 1
            return
        if ess is not None:
            return          # due by their number of samples, of which only the last is returned
        self.adapted += 1
        ctx.check(bool(np.any(out)), "not-divided:tp", "no cell was divided")
        if np.any(out) and np.any(~out):
            a, b = float(np.min(value[out])), float(np.max(value[~out]))
            ctx.check(a >= b * (1 - 1e-9), "smaller-cell-divided:tp", lambda: "a cell of value %.17g was divided before one of value %.17g" % (a, b))

    def ask(self, n, t=2.5):
        r = super().ask(n, t)
        if not hasattr(self, "all") or self.held == 0:
            self.all, self.late = {}, []
        self.zeros |= any(not v > 0 for _, v in self.seen)
        for a, v in self.late:
            self.all[a.tobytes()] = v
        if self.seen:
            self.all[self.seen[0][0].tobytes()] = self.seen[0][1]
        self.late = self.seen[1:]      # a division evaluates again what a later step will use
        return r

    # --- HiDaisee
    def daisee(self, old, new, x, w, before, first):
        ctx, p = self.ctx, self.p
        if first:
            self.ref = {self.key(old[0]): {"q": 0.0, "up": None, "kids": None, "n": 0}} if len(old) == 1 else None
        if len(x) != before + 1:
            self.ref = None
            return
        g = self.grouped(new, x, w)
        if g is not None:
            self.masses(new, np.array([np.mean(a) if a else 0.0 for a in g]))
        gone = {self.key(c) for c in old} - {self.key(c) for c in new}
        ctx.check(len(gone) <= 1 and len(new) == len(old) + len(gone), "not-divided:hid", lambda: "%d cells became %d, %d of them gone" % (
            len(old), len(new), len(gone)))
        # the new point: the one evaluated first
        if not self.seen or len(gone) > 1:
            self.ref = None
            return
        at, v = self.seen[0]
        home = self.where(old, x)
        k = int(self.where(old, [at])[0])
        go = self.grouped(old, x, w)
        if k < 0 or go is None:
            self.ref = None
            return
        # weights in the cells before the division: the target times the volume of the cell
        vol = [float(np.prod(2 * r)) for c, r in old]
        ws = np.array([self.value(a) for a in x[home == k]]) * vol[k]
        size = float(np.sum(ws) ** 2 / np.sum(ws * ws)) if np.sum(ws) > 0 else float("nan")
        due = len(ws) >= p["n_min"] and size < p["target_ess"] * len(ws)
        clear = len(ws) < p["n_min"] or abs(size - p["target_ess"] * len(ws)) > 1e-9 * len(ws)
        key = self.key(old[k])
        if clear:
            ctx.check((key in gone) == due and not gone - {key}, "division:hid", lambda: "a cell with %d samples of effective size %r (%d and %g needed) "
                      "was %sdivided" % (len(ws), size, p["n_min"], p["target_ess"], "" if key in gone else "not "))
        self.adapted += key in gone
        # probabilities of the cells
        if self.ref is None or any(self.key(c) not in self.ref for c in old):
            self.ref = None
            return
        ref = self.ref
        if before > 0:
            at_, up = key, ref[key]["up"]
            while up is not None:
                kids = ref[up]["kids"]
                pr = np.array([ref[c]["q"] for c in kids])
                if np.all(np.isfinite(pr)) and np.all(pr > 0):
                    n_ = np.array([ref[c]["n"] for c in kids])
                    self.fair.add(pr, kids.index(at_), lower=pr * [2, 1], upper=pr * [1, 2],
                                  lower_new=pr * ([2, 1] if not n_[0] else 1), upper_new=pr * ([1, 2] if not n_[1] else 1), emptier=1 / (1 + n_), fuller=1 + n_)
                else:
                    ctx.probe("cells_without_probability")
                at_, up = up, ref[up]["up"]
        # what the choice of the cell learns
        sigma = math.sqrt(4.14 * math.log2(2 * math.e)) * p["tau"]
        boost = lambda n: sigma * math.sqrt(math.log(before) / n) if before > 0 else float("nan")
        tot = 0.0
        for n_, c in enumerate(old):
            if n_ == k:
                tot += float(np.mean(ws)) + boost(len(ws))
            elif go[n_]:
                tot += float(np.mean(go[n_])) + boost(len(go[n_]))
        up = key
        while up is not None:
            ref[up]["n"] += 1
            up = ref[up]["up"]
        ref[key]["q"] = (float(np.mean(ws)) + boost(len(ws))) / tot if tot else float("nan")
        up = ref[key]["up"]
        while up is not None:
            ref[up]["q"] = sum(ref[c]["q"] for c in ref[up]["kids"])
            up = ref[up]["up"]
        if key in gone:
            fresh = [c for c in new if self.key(c) not in {self.key(o) for o in old}]
            kids = [self.key(c) for c in sorted(fresh, key=lambda c: list(c[0]))]
            ref[key]["kids"] = kids
            for c in kids:
                ref[c] = {"q": ref[key]["q"] / 2, "up": key, "kids": None, "n": 0}

    def value(self, x):
        return self.all.get(np.asarray(x, dtype=float).tobytes(), float("nan"))
