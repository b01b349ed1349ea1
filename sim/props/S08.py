"""Only proposals that pass the acceptance test are kept."""
import math

import numpy as np

import ais_benchmarks.distributions as D
from .. import kernel
from ..common import *

PID = "S08"
RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("A rejection, Metropolis-Hastings or layered sampler goes through a history of requests (cut short, failing, on slow "
        "targets), draws and resets while the simulator records every candidate and decides the uniform draws, extreme "
        "legal values included. The kept samples are compared with the ones an acceptance test on the recorded draws "
        "keeps, and the centres of the layered sampler's proposals with the ones such chains lead to. Non-trivial: at least one candidate was kept and one was not.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
ASSUME = ["Candidates are recorded where a proposal distribution of the package is sampled; an acceptance test that ties "
          "to within rounding, or compares two states of zero density, is not decided."]
U_MAX = 1.0 - 2.0 ** -53


def gen(rnd, i, tier):
    kind = ["rej", "mh", "lais", "mh"][i % 4]
    dims = some_dims(rnd, [1, 1, 2, 3])
    lo, hi = gen_domain(rnd, dims)
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    if kind == "mh" and rnd.random() < .4:
        cfg["params"]["proposal_d"] = gen_moves(rnd, lo, hi)
    n = rnd.randint(4, 30) * (batch_of(cfg) if rnd.random() < .3 else 1)
    t = gen_target(rnd, lo, hi, scaled=.12)
    t["cost"] = rnd.choice([0.001, 0.004])
    if rnd.random() < .15:
        t["fail"] = sorted({rnd.randint(1, 4 * n) for _ in range(rnd.randint(1, 2))})
    r = rnd.random()
    if r < .35:
        us = None
        if rnd.random() < .2:
            n = rnd.randint(150, 500) * (1 if kind != "lais" else batch_of(cfg))
            t["cost"] = .001
            cfg["params"].update({"rej": {"scaling": 6}}.get(kind, {}))
    elif r < .6:
        us = [rnd.choice([0.0, 0.0, 1e-300, .5, U_MAX])]
    else:
        us = [rnd.choice([0.0, 1e-12, .05, .2, .4, .6, .9, .99, U_MAX]) for _ in range(rnd.randint(2, 9))]
    return {"cfg": cfg, "target": t, "u": us, "seed": rnd.randint(0, 2 ** 31 - 1),
            "ops": gen_ops(rnd, cfg, n, rnd.randint(1, 5), timeouts=.5, extras=True, resets=.15),
            "stalls": gen_faults(rnd, 6 * n, .5)["stalls"]}


class Recorder:
    """Every candidate drawn from a proposal distribution and every uniform draw outside of them."""

    def __init__(self, sim, us):
        self.cand = []
        self.src = []        # the distribution each candidate came from
        self.us = []
        self.inside = 0
        self.tests = []      # all the uniform draws of the run, unless they are scripted
        self.script = us
        self.n = 0
        sim.rng_hook = self.hook
        self.sim = sim
        self.orig = []
        for cls in (D.CMultivariateNormal, D.CMultivariateUniform):
            self.orig.append((cls, cls.__dict__["sample"]))
            cls.sample = self.wrap(cls.__dict__["sample"])

    def wrap(self, fn):
        def sample(dist, *a, **k):
            self.inside += 1
            try:
                res = fn(dist, *a, **k)
            finally:
                self.inside -= 1
            if not self.inside and self.on:
                new = np.array(res, dtype=float).reshape(-1, self.dims)
                self.cand.extend(new)
                self.src.extend([dist] * len(new))
            return res
        return sample

    on = True

    def hook(self, name, a, k, res):
        if self.inside or not self.on or name not in ("uniform", "rand", "random", "random_sample"):
            return res
        if self.script:
            r = np.empty(np.shape(res)).reshape(-1)
            for j in range(r.size):
                r[j] = self.script[self.n % len(self.script)]
                self.n += 1
            self.sim.fire("forced_uniform", r.size)
            res = r.reshape(np.shape(res)) if np.shape(res) else float(r[0])
        self.us.extend(np.array(res, dtype=float).reshape(-1))
        if not self.script:
            self.tests.extend(np.array(res, dtype=float).reshape(-1))
        return res

    def close(self):
        for cls, fn in self.orig:
            cls.sample = fn


class Ambiguous(Exception):
    pass


def passes(p_new, p_old, u, q_back=1.0, q_forth=1.0):
    """Whether p_new q_back / (p_old q_forth) exceeds u."""
    if q_forth == 0:
        raise Ambiguous()       # only where the bounds cut a move short
    p_new, p_old = p_new * q_back, p_old * q_forth
    if p_old == 0 and p_new == 0:
        raise Ambiguous()
    if p_new == 0:
        return False
    if p_old == 0:
        return True
    r = p_new / p_old
    if u > 0 and abs(r / u - 1) < 1e-9:
        raise Ambiguous()
    return r > u


def chain(cfg, target, x0, segs, retry, resume):
    """Reported states and number of refused moves. segs: one list of (step, u) per operation."""
    lo, hi = np.array(cfg["lo"]), np.array(cfg["hi"])
    x = x0
    burn = cfg["params"]["n_burnin"]
    q = lambda z: 1.0
    if "proposal_d" in cfg["params"]:
        m = moves(cfg["params"]["proposal_d"])
        q = lambda z: float(m.prob(z.reshape(1, -1))[0])
    steps = cfg["params"]["n_steps"]
    out, count, refused = [], 0, 0
    for seg in segs:
        if not resume:
            count = 0
        for step, u in seg:
            y = np.clip(x + step, lo, hi)
            ok = passes(target.pdf(y)[0], target.pdf(x)[0], u, q(x - y), q(y - x))
            refused += not ok
            if ok:
                x = y
            if ok or not retry:
                if burn > 0:
                    burn -= 1
                    continue
                count += 1
                if count == steps:
                    out.append(x)
                    count = 0
    return np.array(out).reshape(len(out), len(cfg["lo"])), refused


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    target = SimTarget(plan["target"])
    kept = refused = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        rec = Recorder(sim, plan["u"])
        rec.dims = len(cfg["lo"])
        try:
            s = ctx.call("construct:" + kind, build, cfg)
            real_reset = s.reset
            del rec.tests[:]

            def reset():
                k = len(rec.tests)
                real_reset()
                del rec.tests[k:]       # draws that place the start of a sampler
            s.reset = reset
            try:
                kept, refused = history(ctx, cfg, plan, sim, rec, s, target)
            except Ambiguous:
                ctx.probe("ambiguous")
            even(ctx, kind, rec.tests)
        finally:
            rec.close()
            sim.rng_hook = None
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=kept > 0 and refused > 0)


def even(ctx, kind, us):
    """The tests are passed with the probability they ask for only if their draws are uniform."""
    m = len(us)
    if m < 12:
        return
    ctx.probe("test_draws", m)
    v = np.sort(np.array(us))
    dist = max(np.max(np.arange(1, m + 1) / m - v), np.max(v - np.arange(m) / m))
    limit = math.sqrt(math.log(2 / 1e-12) / (2 * m))
    ctx.check(dist <= limit, "tests-not-uniform:" + kind, lambda: "%d acceptance tests: their draws are at distance %.3f from uniform ones "
              "(limit %.3f), quartiles %s" % (m, dist, limit, brief(np.percentile(v, [0, 25, 50, 75, 100]))))


def layers(ctx, cfg, plan, rec, s, target):
    """The proposals of the layered sampler move by Metropolis-Hastings chains."""
    n, steps = cfg["params"]["N"], cfg["params"]["L"]
    lo, hi = np.array(cfg["lo"]), np.array(cfg["hi"])
    kept = refused = held = 0

    def locs():
        return np.array([np.array(q.loc, dtype=float).reshape(-1) for q in s.proposals])
    mine = getattr(s, "mhproposal", None)
    if mine is None:
        ctx.probe("moves_not_seen")
        return 0, 0
    at = locs()
    for op in plan["ops"]:
        rec.cand, rec.src, rec.us = [], [], []
        if op[0] == "reset":
            ctx.call("reset:lais", s.reset)
            at = locs()
            held = 0
            continue
        if op[0] != "req":
            rec.on = False
            target.quiet = True
            if held and op[0] == "sample":
                s.sample(op[1])
            elif held:
                observe(cfg, s)
            target.quiet = False
            rec.on = True
        else:
            try:
                held = len(request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))[0])
            except SimFault:
                ctx.probe("failed_requests")
                return kept, refused
        step = [c for c, q in zip(rec.cand, rec.src) if q is mine]
        if not step and rec.us:
            ctx.probe("moves_not_seen")
            return 0, 0
        ctx.check(len(step) == len(rec.us), "one-draw-per-move", lambda: "%d proposed moves, %d uniform draws" % (len(step), len(rec.us)))
        ctx.check(len(step) % (n * steps) == 0, "moves-per-iteration", lambda: "%d moves of %d proposals, %d each" % (len(step), n, steps))
        got = locs()
        # every proposal in turn, or every step of all proposals in turn
        want = []
        k0 = r0 = 0
        for order in (lambda j: j // steps % n, lambda j: j % n):
            x, k, r = at.copy(), 0, 0
            for j, (d, u) in enumerate(zip(step, rec.us)):
                i = order(j)
                y = np.clip(x[i] + d, lo, hi)
                if passes(target.pdf(y)[0], target.pdf(x[i])[0], u):
                    x[i] = y
                    k += 1
                else:
                    r += 1
            want.append(x)
            k0, r0 = max(k, k0), max(r, r0)
        kept, refused = kept + k0, refused + r0
        ctx.check(any(close(w, got, 1e-12, 1e-12) for w in want), "proposals-differ:lais", lambda: "the %d moves of this %s lead the proposals "
                  "to %s, they are at %s" % (len(step), op[0], brief(want[0]), brief(got)))
        at = got
        ctx.probe("proposal_moves", len(step))
    return kept, refused


def history(ctx, cfg, plan, sim, rec, s, target):
    kind = cfg["kind"]
    kept = refused = 0
    if kind == "lais":
        return layers(ctx, cfg, plan, rec, s, target)
    x0 = rec.cand[-1] if rec.cand else None
    segs, reported, held = [], np.zeros((0, rec.dims)), 0
    keep = np.zeros((0, rec.dims))
    for op in plan["ops"]:
        rec.cand, rec.us = [], []
        failed = False
        new = np.zeros((0, rec.dims))
        try:
            if op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                x0 = rec.cand[-1] if rec.cand else x0
                segs, reported, held, keep = [], reported[:0], 0, keep[:0]
                continue
            if op[0] == "sample":
                if kind != "mh":
                    continue
                if rec.dims != 1 and len(reported) == 0:
                    continue
                new = np.array(ctx.call("sample:mh", s.sample, op[1], 2.5), dtype=float).reshape(-1, rec.dims)
            elif op[0] == "prob":
                if held:
                    rec.on = False
                    target.quiet = True
                    observe(cfg, s)
                    target.quiet = False
                    rec.on = True
                continue
            else:
                samples, w = request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))
                samples = samples.reshape(-1, rec.dims)
                new = samples[held:]
                held = len(samples)
        except SimFault:
            failed = True
        if kind == "rej":
            k = len(rec.us)
            if failed:
                k = k if k <= len(rec.cand) else len(rec.cand)
            else:
                if not rec.cand and len(new):
                    ctx.probe("candidates_not_seen")
                    return 0, 0
                ctx.check(len(rec.us) == len(rec.cand), "one-draw-per-candidate",
                          lambda: "%d candidates, %d uniform draws" % (len(rec.cand), len(rec.us)))
            # a failure loses the candidates it interrupts
            c, u = np.array(rec.cand[:k]).reshape(k, rec.dims), np.array(rec.us[:k])
            if k:
                q = np.asarray(s.proposal_dist.prob(c)).reshape(-1) * cfg["params"]["scaling"]
                p = target.pdf(c)
                ok = np.array([passes(a, b, v) for a, b, v in zip(p, q, u)])
                kept += int(np.sum(ok))
                refused += int(np.sum(~ok))
                keep = np.vstack((keep, c[ok]))
            if not failed:
                ctx.check(held == len(keep) and close(samples, keep, 1e-12, 1e-12), "kept-differs:rej",
                          lambda: "%d samples %s, the candidates that pass the test are %d: %s" % (
                              held, brief(samples), len(keep), brief(keep)))
            else:
                ctx.probe("failed_requests")
            continue
        # Metropolis-Hastings
        if x0 is None:
            ctx.probe("start_not_seen")
            return 0, 0
        k = min(len(rec.cand), len(rec.us))
        if not failed:
            ctx.check(len(rec.cand) == len(rec.us), "one-draw-per-move",
                      lambda: "%d proposed moves, %d uniform draws" % (len(rec.cand), len(rec.us)))
        segs.append(list(zip(rec.cand[:k], rec.us[:k])))
        reported = np.vstack((reported, new))
        if failed:
            # states accepted before the failure may be reported by nobody, later by the next request, or be lost
            ctx.probe("failed_requests")
            return kept, refused
        want = {}
        for retry in (False, True):
            for resume in (False, True):
                want[retry, resume] = chain(cfg, target, x0, segs, retry, resume)
        agree = [m for m, (w, r) in want.items() if len(w) == len(reported) and close(w, reported, 1e-12, 1e-12)]
        ctx.checks += 1
        if not agree:
            w = want[True, False][0]
            j = 0
            while j < min(len(w), len(reported)) and close(w[j], reported[j], 1e-12, 1e-12):
                j += 1
            ctx.violate("chain-differs", "%d states reported, %d expected; state %d is %s, expected %s" % (
                len(reported), len(w), j, brief(reported[j:j + 1]), brief(w[j:j + 1])))
        elif all(retry for retry, _ in agree):
            ctx.violate("mh-retries-until-accepted", "a refused move does not repeat the state: %d proposed moves, "
                        "%d refused, %d states reported" % (sum(map(len, segs)), want[True, False][1], len(reported)))
        kept, refused = len(reported), want[True, False][1]
    return kept, refused
