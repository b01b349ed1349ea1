"""Regions of zero density do not poison a sampler."""
import numpy as np

from ..common import *

PID = "S10"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("A random sampler goes through a history of requests (some cut short) while stretches of evaluations, chosen by "
        "the plan, return zero density; afterwards the target is positive everywhere and the sampler has to deliver what "
        "it is asked for, with positive weights and a finite density that it can be sampled from. Non-trivial: the "
        "stretches hit at least one evaluation and the sampler was used after them.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
ASSUME = ["Stretches are at most 400 evaluations long; afterwards a sampler gets 60 simulated seconds (at least 10000 "
          "evaluations) to deliver."]


def gen(rnd, i, tier):
    kind = KINDS[i % len(KINDS)]
    dims = some_dims(rnd, [1, 1, 2, 3])
    lo, hi = gen_domain(rnd, dims, cubic=True if kind == "tp" else None)
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    n = size_for(rnd, cfg, tier)
    t = gen_target(rnd, lo, hi, kinds=("flat", "slope", "cauchy"))
    t["cost"] = rnd.choice([0.001, 0.004])
    z = []
    a = rnd.choice([0, 0, rnd.randint(0, n)])
    for _ in range(rnd.randint(1, 3)):
        b = a + rnd.choice([1, rnd.randint(1, 4), rnd.randint(1, n), rnd.randint(n, 4 * n)])
        z.append([a, min(b, 400)])
        a = b + rnd.randint(1, n)
    t["zero"] = z
    return {"cfg": cfg, "target": t, "ops": gen_ops(rnd, cfg, n, rnd.randint(1, 4), timeouts=.3, extras=True, resets=.05),
            "seed": rnd.randint(0, 2 ** 31 - 1), "more": rnd.randint(2, 12), "during": rnd.random() < .8,
            "stalls": gen_faults(rnd, 6 * n, .3)["stalls"]}


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    target = SimTarget(plan["target"])
    used = False
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:" + kind, build, cfg)
        held, old = 0, np.zeros((0, 1))

        def req(n, t, what):
            samples, w = request(ctx, cfg, s, target, n, t)
            well_formed(ctx, cfg, samples, w, what)
            return samples, w.reshape(-1)
        for op in plan["ops"]:
            if op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                held, old = 0, np.zeros((0, 1))
            elif op[0] == "req":
                old = req(op[1], min(op[2], patience(cfg, op[1])), "during the stretch")[0]
                held = len(old)
            elif held and kind != "mh" and plan["during"]:
                if op[0] == "sample":
                    x = np.asarray(ctx.call("sample:" + kind, s.sample, op[1]), dtype=float)
                    ctx.check(bool(np.all(np.isfinite(x))), "draws:" + kind, lambda: brief(x))
                else:
                    target.quiet = True
                    p = np.asarray(ctx.call("prob:" + kind, s.prob, probe_points(cfg)), dtype=float)
                    target.quiet = False
                    ctx.check(bool(np.all(np.isfinite(p)) and np.all(p >= 0)), "density:" + kind, lambda: brief(p))
        hit = sim.fired.get("zero_density", 0)
        # from now on the density is positive everywhere
        target.zero = []
        sim.stalls = {}
        for rounds in range(2):
            n = held + batch_of(cfg) * rounds + plan["more"]
            samples, w = req(n, 60.0, "after the stretch")
            ctx.check(len(samples) >= n, "no-recovery:" + kind,
                      lambda: "%d of %d samples in 60 s after the zero stretch" % (len(samples), n))
            seen = {x.tobytes() for x in old}
            new = w[[x.tobytes() not in seen for x in samples]]     # trees do not return samples in the order drawn
            # a nested sampler first records the live points of the stretch
            if kind not in ("nested", "multi") or rounds:
                ctx.check(len(new) == 0 or bool(np.sum(new) > 0), "no-weight-after-zeros:" + kind,
                          lambda: "the %d samples after the zero stretch have weights %s" % (len(new), brief(new)))
            held, old = len(samples), samples
            target.quiet = True
            pts = np.vstack((probe_points(cfg), samples[-3:]))
            p = np.asarray(ctx.call("prob:" + kind, s.prob, pts), dtype=float)
            target.quiet = False
            ctx.check(bool(np.all(np.isfinite(p)) and np.all(p >= 0)), "density:" + kind, lambda: brief(p))
            if kind != "mh":
                x = np.asarray(ctx.call("sample:" + kind, s.sample, 5), dtype=float)
                ctx.check(x.shape == (5, len(cfg["lo"])) and bool(np.all(np.isfinite(x))), "draws:" + kind,
                          lambda: brief(x))
            used = True
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=used and hit > 0)
