"""A sampling request returns soon after its time limit."""
import numpy as np

from ..common import *

PID = "S04"
RUNS = {"quick": 4000, "thorough": 60000}
SHRINK = ("slow",)
RULE = ("Requests for many more samples than the time limit allows, with evaluation costs and slow evaluations at random "
        "points, on targets including ones that are zero everywhere or from some evaluation "
        "on, with long burn-in phases, and limits that are zero or already negative. Evaluation calls that start after the "
        "limit are counted. Non-trivial: at least one request was cut short by its limit.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS


def gen(rnd, i, tier):
    cfg = gen_sampler(rnd, KINDS[i % len(KINDS)])
    if cfg["kind"] == "mh" and rnd.random() < .4:
        cfg["params"]["n_burnin"] = rnd.choice([20, 300, 5000])
    if cfg["kind"] == "mh" and rnd.random() < .3:
        cfg["params"]["n_steps"] = rnd.choice([20, 2000])
    t = gen_target(rnd, cfg["lo"], cfg["hi"], scaled=.12)
    t["cost"] = rnd.choice([0.001, 0.002, 0.01])
    r = rnd.random()
    if r < .15:
        t["zero"] = [[0, 10 ** 9]]
    elif r < .3:
        t["zero"] = [[rnd.randint(0, 60), 10 ** 9]]
    ops = []
    total = 0
    for _ in range(rnd.randint(1, 4)):
        total += rnd.choice([3, 30, 300, 3000])
        ops.append(["req", total, rnd.choice([-1.0, 0.0, 0.0005, 0.003, 0.02, 0.05, 0.1, 0.3])])
        if rnd.random() < .1:
            ops.append(["reset"])
            total = 0
    # Slow evaluations at any point. A pause between two adjacent clock reads with no work in between is not explored:
    # the methods compute what is left of the limit from the earlier read.
    f = {}
    for _ in range(rnd.randint(0, 4)):
        f[str(rnd.randint(1, 250))] = rnd.choice([0.002, 0.05, 5.0])
    t["slow"] = f
    return {"cfg": cfg, "target": t, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1), 
            "read_cost": rnd.choice([1e-6, 1e-4, 2e-3])}


def bound(cfg, held, ncalls):
    """Evaluation calls a method may start after its limit: one of its iterations and some slack."""
    p = cfg["params"]
    d = len(cfg["lo"])
    k = cfg["kind"]
    if k == "dm":
        one = p["K"] * p["N"]
    elif k == "lais":
        one = p["K"] * p["N"] + 2 * p["L"] * p["N"]
    elif k == "pmc":
        one = p["K"]
    elif k == "tp":
        one = p["parallel_samples"] + 2 ** d + ncalls + 1   # an iteration may visit every leaf
    elif k == "hid":
        one = 1 + held
    else:
        one = 2
    return one + 6


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    target = SimTarget(plan["target"])
    target.keep = False
    cut = 0
    with simple_sim(plan, max_events=40000) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:" + kind, build, cfg)
        late = {"deadline": None, "n": 0}

        def on_eval(t, x, res):
            # called at the end of an evaluation
            start = sim.now - t.cost * len(x) - t.slow.get(t.calls, 0.0)
            if late["deadline"] is not None and start >= late["deadline"]:
                if late["before"] is None:
                    late["before"] = t.calls
                late["n"] += 1
        sim.on_eval = on_eval
        held = 0
        for op in plan["ops"]:
            if op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                held = 0
                continue
            t0 = sim.now + sim.read_cost
            late["deadline"] = t0 + max(op[2], 0.0)
            late["n"] = 0
            late["before"] = None
            samples, weights = request(ctx, cfg, s, target, op[1], op[2])
            if sim.now >= late["deadline"]:
                cut += 1
                ctx.probe("request_cut_short")
                b = bound(cfg, max(held, len(samples)), late["before"] or 0)
                ctx.check(late["n"] <= b, "work-after-limit:" + kind,
                          lambda: "%d evaluation calls started after the limit of request(%d, timeout=%g); one iteration "
                                  "needs at most %d" % (late["n"], op[1], op[2], b))
                ctx.probe("late_calls_%s" % ("0" if late["n"] == 0 else "1-5" if late["n"] < 6 else "6+"))
            held = len(samples)
            late["deadline"] = None
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=cut > 0)
