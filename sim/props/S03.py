"""Interrupting or splitting requests does not change or lose samples."""
import numpy as np

from ..common import *

PID = "S03"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("The same random stream serves one uninterrupted request for n samples and a history that reaches n through "
        "partial counts and through time limits hit by stalls at random evaluations, with density queries in between. "
        "Mixture, layered and tree methods must end with the same samples, weights and density; for the others every "
        "earlier result is a prefix of the later ones. Non-trivial: the history has at least two requests that drew samples.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
EXACT = ("dm", "pmc", "lais", "hid", "tp")
ORDERED = ("dm", "pmc", "lais", "rej", "mh", "nested", "multi")


def gen(rnd, i, tier):
    cfg = gen_sampler(rnd, KINDS[i % len(KINDS)])
    n = size_for(rnd, cfg, tier)
    t = gen_target(rnd, cfg["lo"], cfg["hi"], scaled=.12)
    t["cost"] = rnd.choice([0.001, 0.004])
    if rnd.random() < .15:
        a = rnd.randint(0, n)
        t["zero"] = [[a, a + rnd.randint(1, n)]]
    ops = []
    for _ in range(rnd.randint(1, 8)):
        m = rnd.randint(1, n)
        lim = BIG if rnd.random() < .4 else rnd.choice([0.0, 0.0005, 0.002, 0.01, 0.03, 0.1, 0.3])
        ops.append(["req", m, lim])
        if rnd.random() < .25:
            ops.append(["prob"])
    return {"cfg": cfg, "target": t, "ops": ops, "n": n, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 5 * n, .6)["stalls"]}


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    n = plan["n"]
    # on targets where a method may not progress the request is bounded in time: nothing is compared then
    cap = patience(cfg, n)
    tgt = SimTarget(plan["target"])
    drew = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:" + kind, build, cfg)
        prev = None
        for op in list(plan["ops"]) + [["req", n, BIG]]:
            if op[0] == "prob":
                observe(cfg, s)
                continue
            final = op[2] == BIG
            t0 = sim.now
            before = len(prev[0]) if prev is not None else 0
            res = request(ctx, cfg, s, tgt, op[1], cap * (1 if final else 0) + (0 if final else op[2]))
            cut = sim.now - t0 >= (cap if final else op[2])
            if cut:
                ctx.probe("request_cut_short")
            if len(res[0]) > before:
                drew += 1
            if prev is not None and len(prev[0]):
                ctx.check(len(res[0]) >= len(prev[0]) or kind == "tp", "samples-lost:" + kind,
                          lambda: "held %d, later %d" % (len(prev[0]), len(res[0])))
                if kind in ORDERED:
                    ctx.check(same(res[0][:len(prev[0])], prev[0]), "prefix-changed:" + kind,
                              lambda: "had %s, now %s" % (brief(prev[0]), brief(res[0][:len(prev[0])])))
            prev = res
        a = observe(cfg, s, prev)
        short = len(prev[0]) < n
    if kind in EXACT and not short:
        with simple_sim({}) as ref:
            np.random.seed(plan["seed"])
            f = ctx.call("construct:" + kind, build, cfg)
            res = request(ctx, cfg, f, SimTarget(plan["target"]), n, BIG)
            b = observe(cfg, f, res)
        d = diff(a, b, rtol=1e-7)
        ctx.check(d is None, "split-differs:" + kind, lambda: "split run vs one request for %d: %s" % (n, d))
        ctx.probe("compared_with_one_request")
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=drew >= 2)
