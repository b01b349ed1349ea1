"""Sampler instances do not influence each other."""
import random

import numpy as np

from ..common import *
from ..harness import in_fork

PID = "S11"
ISOLATE = True
RUNS = {"quick": 1400, "thorough": 40000}
RULE = ("Two to four samplers (often of the same class), each with its own random stream and clock, are built and used in "
        "turns chosen by the scheduler; operations of one also run in the middle of a request of another, from inside its "
        "target. Every observation of every instance is compared with a run of that instance alone. Non-trivial: at least "
        "two instances evaluated their targets and were interleaved.")
REAL = REAL_SAMPLERS
STUB = STUB_SAMPLERS
SHRINK = ("nest",)


def gen(rnd, i, tier):
    n_inst = rnd.choice([2, 2, 3, 4])
    kinds = [KINDS[i % len(KINDS)]]
    for _ in range(n_inst - 1):
        kinds.append(kinds[0] if rnd.random() < .6 else rnd.choice(KINDS))
    dims = rnd.choice([1, 1, 2])
    inst = []
    shared = None
    for k in kinds:
        if shared is None or rnd.random() < .6:
            lo, hi = gen_domain(rnd, dims if rnd.random() < .8 else rnd.choice([1, 2, 3]), cubic=True)
            shared = (lo, hi)
        lo, hi = shared
        cfg = gen_sampler(rnd, k, lo=lo, hi=hi)
        twin = None
        if inst and inst[0]["cfg"]["kind"] == k and rnd.random() < .6:
            # almost the same as another instance: whatever is shared by mistake fits at first sight
            twin = rnd.choice([x for x in inst if x["cfg"]["kind"] == k])
            cfg = vary(rnd, json_copy(twin["cfg"]))
        n = size_for(rnd, cfg, tier)
        t = gen_target(rnd, cfg["lo"], cfg["hi"], scaled=.12)
        t["cost"] = rnd.choice([0.001, 0.004])
        if rnd.random() < .2:
            a = rnd.randint(0, n)
            t["zero"] = [[a, a + rnd.randint(1, n)]]
        if twin is not None and rnd.random() < .5:
            t = json_copy(twin["target"])
        inst.append({"cfg": cfg, "target": t, "seed": twin["seed"] if twin is not None and rnd.random() < .6 else rnd.randint(0, 2 ** 31 - 1),
                     "ops": gen_ops(rnd, cfg, n, rnd.randint(2, 5), timeouts=.3, extras=True, resets=.12)})
    return {"instances": inst, "schedule": rnd.randint(0, 2 ** 31 - 1),
            "nest": sorted({rnd.randint(1, 120) for _ in range(rnd.choice([0, 1, 3, 6]))})}


def vary(rnd, cfg):
    """The same configuration but for one thing, or exactly the same."""
    r = rnd.random()
    lo, hi = cfg["lo"], cfg["hi"]
    if r < .4:
        f = rnd.choice([.5, 2.0, 1.5, .75])
        cfg["lo"] = [(a + b) / 2 - f * (b - a) / 2 for a, b in zip(lo, hi)]
        cfg["hi"] = [(a + b) / 2 + f * (b - a) / 2 for a, b in zip(lo, hi)]
        if "proposal" in cfg["params"]:
            cfg["params"]["proposal"] = gen_sampler(rnd, cfg["kind"], lo=cfg["lo"], hi=cfg["hi"])["params"]["proposal"]
    elif r < .8:
        other = gen_sampler(rnd, cfg["kind"], lo=lo, hi=hi)["params"]
        k = rnd.choice(sorted(other))
        if cfg["kind"] != "pmc" or k != "K":
            cfg["params"][k] = other[k]
    return cfg


def json_copy(x):
    import json
    return json.loads(json.dumps(x))


class Instance:
    def __init__(self, ctx, sim, plan):
        self.ctx, self.sim = ctx, sim
        self.cfg = plan["cfg"]
        self.ops = [["new"]] + plan["ops"]
        self.target = SimTarget(plan["target"])
        self.pos = 0
        self.busy = False
        self.s = None
        self.out = []
        self.held = 0
        np.random.seed(plan["seed"])
        self.rng = np.random.get_state()
        self.now = 1000.0

    def done(self):
        return self.pos >= len(self.ops)

    def step(self):
        """One operation under this instance's own random stream and clock."""
        op = self.ops[self.pos]
        self.pos += 1
        self.busy = True
        outer, now = np.random.get_state(), self.sim.now
        np.random.set_state(self.rng)
        self.sim.now = self.now
        try:
            self.perform(op)
        finally:
            self.rng = np.random.get_state()
            self.now = self.sim.now
            np.random.set_state(outer)
            self.sim.now = now
            self.busy = False

    def perform(self, op):
        ctx, cfg, kind = self.ctx, self.cfg, self.cfg["kind"]
        if op[0] == "new":
            self.s = ctx.call("construct:" + kind, build, cfg)
        elif op[0] == "reset":
            ctx.call("reset:" + kind, self.s.reset)
            self.held = 0
        elif op[0] == "req":
            res = request(ctx, cfg, self.s, self.target, op[1], min(op[2], patience(cfg, op[1])))
            self.held = len(res[0])
            self.look(res)
        elif self.held:
            if op[0] == "sample":
                self.out.append({"draw": np.array(ctx.call("sample:" + kind, self.s.sample, op[1]))})
            self.look()

    def look(self, res=None):
        self.target.quiet = True
        self.out.append(observe(self.cfg, self.s, res))
        self.target.quiet = False

    def look_again(self):
        """What the samples and weights handed out look like at the end."""
        if self.held:
            self.look((np.array(self.s.samples), np.array(self.s.weights)))


def play_alone(plan, p, known):
    ctx = Ctx(known)
    with simple_sim(plan) as sim:
        x = Instance(ctx, sim, p)
        while not x.done():
            x.step()
        x.look_again()
    return x.out


def run(plan, known):
    ctx = Ctx(known)
    # each in a process in which nothing else ever ran
    alone = [in_fork(lambda: play_alone(plan, p, known)) for p in plan["instances"]]
    with simple_sim(plan) as sim:
        insts = [Instance(ctx, sim, p) for p in plan["instances"]]
        rnd = random.Random(plan["schedule"])
        nest = set(plan["nest"])
        count = [0]
        order = []

        def pick():
            return [j for j, x in enumerate(insts) if not x.busy and not x.done()]

        def on_eval(t, x, res):
            count[0] += 1
            if count[0] in nest:
                free = pick()
                if free:
                    j = rnd.choice(free)
                    sim.fire("operation_inside_evaluation")
                    order.append(j)
                    quiet, t.quiet = t.quiet, False
                    insts[j].step()
                    t.quiet = quiet
        sim.on_eval = on_eval
        while True:
            free = pick()
            if not free:
                break
            j = rnd.choice(free)
            order.append(j)
            sim.event("turn", str(j))
            insts[j].step()
        sim.on_eval = None
        for x in insts:
            x.look_again()
    for j, p in enumerate(plan["instances"]):
        out = alone[j]
        ctx.check(len(out) == len(insts[j].out), "observations", "different number of observations")
        for k, (a, b) in enumerate(zip(insts[j].out, out)):
            d = diff(a, b)
            ctx.check(d is None, "instances-interfere:" + p["cfg"]["kind"], lambda: "instance %d (%s) of %s, observation "
                      "%d: %s" % (j, p["cfg"]["kind"], [q["cfg"]["kind"] for q in plan["instances"]], k, d))
    turns = sum(a != b for a, b in zip(order, order[1:]))
    return sim_stats(sim, ctx, sig=str([p["cfg"]["kind"] for p in plan["instances"]]),
                     nontrivial=turns > 1 and sum(x.target.npoints > 0 for x in insts) > 1)
