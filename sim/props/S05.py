"""Reported work equals the work done."""
import numpy as np

from ..common import *

PID = "S05"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("A random sampler answers a history of requests (some cut short, some on targets with zero-density stretches), "
        "draws and resets; the target counts the points at which it was evaluated and the random stream counts the points "
        "drawn from proposals since the last reset; the proposal evaluations reported are compared with the number the "
        "method's weights, acceptance tests and posteriors take. Non-trivial: at least one request obtained samples.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS


def gen(rnd, i, tier):
    cfg = gen_sampler(rnd, KINDS[i % len(KINDS)])
    n = size_for(rnd, cfg, tier)
    targets = [gen_target(rnd, cfg["lo"], cfg["hi"], scaled=.12) for _ in range(2)]
    for t in targets:
        t["cost"] = rnd.choice([0.001, 0.004])
        if rnd.random() < .2:
            a = rnd.randint(0, n)
            t["zero"] = [[a, a + rnd.randint(1, n)]]
    ops = []
    for op in gen_ops(rnd, cfg, n, rnd.randint(1, 6), timeouts=.4, resets=.15):
        if op[0] == "req":
            op = op + [rnd.choice([0, 0, 0, 1])]
        ops.append(op)
    return {"cfg": cfg, "targets": targets, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1),
            "stalls": gen_faults(rnd, 6 * n, .5)["stalls"]}


def run(plan, known):
    ctx = Ctx(known)
    cfg = plan["cfg"]
    kind = cfg["kind"]
    d = len(cfg["lo"])
    targets = [SimTarget(t) for t in plan["targets"]]
    got = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        drawn = {"n": 0}
        asked = 0       # points drawn by requests
        Draws.install()

        def log(dist, res, depth):
            # a proposal that draws from its parts counts once
            if depth == 0 and np.ndim(res) >= 1 and np.size(res):
                drawn["n"] += np.size(res) // d
        s = ctx.call("construct:" + kind, build, cfg)
        evals0 = 0
        sim.on_draw = log
        for op in plan["ops"]:
            if op[0] == "reset":
                sim.on_draw = None
                ctx.call("reset:" + kind, s.reset)
                sim.on_draw = log
                drawn["n"] = asked = 0
                evals0 = sum(t.npoints for t in targets)
                got = 0
            elif op[0] == "sample":
                if got:
                    ctx.call("sample:" + kind, s.sample, op[1])
            elif op[0] == "prob":
                observe(cfg, s)
            else:
                before = drawn["n"]
                samples, w = request(ctx, cfg, s, targets[op[3]], op[1], min(op[2], patience(cfg, op[1])))
                got = len(samples)
                asked += drawn["n"] - before
            evals = sum(t.npoints for t in targets) - evals0
            ctx.check(s.num_target_evals == evals, "target-evaluations:" + kind,
                      lambda: "reports %d target evaluations after %s, the target was evaluated at %d points" % (
                          s.num_target_evals, op, evals))
            ctx.check(s.num_proposal_samples == drawn["n"], "proposal-samples:" + kind,
                      lambda: "reports %d proposal samples after %s, %d were drawn" % (
                          s.num_proposal_samples, op, drawn["n"]))
            # densities of proposals that the weights, acceptance tests and posteriors of the method take
            q = {"dm": got, "lais": got, "pmc": asked * (cfg["params"].get("N", 0) + 1), "rej": asked, "mh": 2 * drawn["n"],
                 "nested": 0, "multi": 0, "hid": evals, "tp": evals}[kind]
            ctx.check(s.num_proposal_evals == q, "proposal-evaluations:" + kind,
                      lambda: "reports %d proposal evaluations after %s, the method takes %d" % (s.num_proposal_evals, op, q))
            if not got:
                continue
            st = ctx.call("get_stats:" + kind, s.get_stats)
            ctx.check(st["proposal_samples"] == s.num_proposal_samples and st["target_evals"] == s.num_target_evals
                      and st["proposal_evals"] == s.num_proposal_evals, "stats:" + kind, lambda: "%s" % st)
            rate = ctx.call("get_acceptance_rate:" + kind, s.get_acceptance_rate)
            want = got / drawn["n"] if drawn["n"] else None
            ctx.check(want is not None and abs(rate - want) <= 1e-9 * want and rate <= 1 + 1e-12,
                      "acceptance-rate:" + kind, lambda: "acceptance rate %r with %d samples of %d drawn" % (
                          rate, got, drawn["n"]))
            ctx.probe("rates_checked")
    return sim_stats(sim, ctx, sig=kind + str(cfg["params"]), nontrivial=got > 0)
