"""Reset makes a sampler indistinguishable from a new one."""
import numpy as np

from ..common import *
from ..harness import in_fork
from ..kernel import Violation

PID = "S02"
ISOLATE = True
RUNS = {"quick": 2700, "thorough": 40000}
RULE = ("A random sampler with random legal parameters goes through a random history (requests, cut short requests, "
        "requests aborted by an exception or by an interrupt at a random evaluation, draws, density queries, other "
        "targets, earlier resets), is reset and compared operation by operation with a new instance on the same random "
        "stream. Non-trivial: the history evaluated the target at least once before the reset.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS


def gen(rnd, i, tier):
    cfg = gen_sampler(rnd, KINDS[i % len(KINDS)])
    lo, hi = cfg["lo"], cfg["hi"]
    n = size_for(rnd, cfg, tier)
    targets = [gen_target(rnd, lo, hi, scaled=.12) for _ in range(3)]
    for t in targets:
        t["cost"] = rnd.choice([0.001, 0.002, 0.01])
    for t in targets[:2]:
        if rnd.random() < .35:
            t["fail"] = [rnd.randint(1, 3 * n)]
        if rnd.random() < .2:
            a = rnd.randint(0, n)
            t["zero"] = [[a, a + rnd.randint(1, 2 * n)]]
    hist = []
    for op in gen_ops(rnd, cfg, n, rnd.randint(1, 6), timeouts=.4, resets=.15):
        if op[0] == "req":
            op = ["req", op[1], op[2], rnd.choice([0, 0, 0, 1])]
        hist.append(op)
    m = size_for(rnd, cfg, tier)
    after = [["req", o[1], o[2]] if o[0] == "req" else o for o in gen_ops(rnd, cfg, m, rnd.randint(1, 4), timeouts=.25)]
    return {"cfg": cfg, "targets": targets, "history": hist, "after": after, "seed": rnd.randint(0, 2 ** 31 - 1),
            "hseed": rnd.randint(0, 2 ** 31 - 1), "kill": rnd.choice([None, None, None, rnd.randint(1, 6 * n)]),
            "stalls": gen_faults(rnd, 6 * n, .3)["stalls"]}


SHRINK = ("history", "after")


def play(ctx, cfg, s, target, ops, observe_all=True):
    out = []
    for op in ops:
        if op[0] == "req":
            res = request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))
            out.append(observe(cfg, s, res))
        elif op[0] == "sample":
            if len(np.atleast_1d(s.samples)) and cfg["kind"] != "mh":
                x = ctx.call("sample:" + cfg["kind"], s.sample, op[1])
                out.append({"draw": np.array(x), "counters": (s.num_proposal_samples,)})
        elif op[0] == "prob":
            out.append(observe(cfg, s))
    return out


def new_one(plan, cfg, t0, known):
    ctx = Ctx(known)
    with simple_sim({}) as sim:
        sim.now = t0
        np.random.seed(plan["seed"])
        fresh = ctx.call("construct:" + cfg["kind"], build, cfg)
        return [observe(cfg, fresh)] + play(ctx, cfg, fresh, SimTarget(plan["targets"][2]), plan["after"])


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    targets = [SimTarget(t) for t in plan["targets"]]
    with simple_sim(plan) as sim:
        np.random.seed(plan["hseed"])
        used = ctx.call("construct:" + kind, build, cfg)
        killed = {"n": 0}

        def on_eval(t, x, res):
            killed["n"] += 1
            if plan["kill"] is not None and killed["n"] == plan["kill"]:
                sim.fire("interrupt")
                raise KeyboardInterrupt()
        sim.on_eval = on_eval
        aborted = False
        for op in plan["history"]:
            try:
                if op[0] == "reset":
                    ctx.call("reset:" + kind, used.reset)
                    aborted = False
                else:
                    play(ctx, cfg, used, targets[op[3] if op[0] == "req" else 0], [op])
            except (SimFault, KeyboardInterrupt):
                ctx.probe("history_aborted")
                aborted = True
            except Violation:
                # without a reset nothing is promised about a sampler whose request was aborted
                if not aborted:
                    raise
        sim.on_eval = None
        sim.stalls = {}
        used_evals = sum(t.npoints for t in targets)
        np.random.seed(plan["seed"])
        ctx.call("reset:" + kind, used.reset)
        t0 = sim.now
        a = [observe(cfg, used)] + play(ctx, cfg, used, targets[2], plan["after"])
    b = in_fork(lambda: new_one(plan, cfg, t0, known))
    for j, (x, y) in enumerate(zip(a, b)):
        d = diff(x, y)
        ctx.check(d is None, "reset-differs:" + kind, lambda: "operation %d after the reset: %s" % (j, d))
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=used_evals > 0)
