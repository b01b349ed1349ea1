"""Results of one method/target pair do not depend on the other pairs."""
import numpy as np

from ..bench import *
from ..common import *
from ..harness import in_fork
from .R01 import gen_pairs, seed_all

PID = "R02"
RUNS = {"quick": 2400, "thorough": 30000}
RULE = ("A benchmark of several real and scripted methods on several targets runs as a whole; a random sub-selection of its "
        "methods and targets, in another order, runs in a new process. The rows of every pair both runs have must agree "
        "outside the time and memory columns. Non-trivial: the whole run had at least two pairs and a shared pair had two "
        "rows.")
REAL = REAL_BENCH + ["sampling methods", "distributions"]
STUB = STUB_BENCH
SHRINK = ("targets", "methods", "metrics")


def gen(rnd, i, tier):
    case = rnd.choice(["cousin", "cousin", "kin", "any", "any"])
    n_t, n_m = {"cousin": (1, 1), "kin": (1, 1)}.get(case) or rnd.choice([(1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (2, 3)])
    targets, methods = gen_pairs(rnd, n_t, n_m)
    names = lambda xs: [x["name"] for x in xs]
    free = [x for x in NAMES if x not in names(targets + methods)]
    if case == "any":
        if rnd.random() < .3:
            # the same class twice
            methods.append(dict(methods[0], name="twin", params=dict(methods[0]["params"])))
        sub_t = rnd.sample(names(targets), rnd.randint(1, len(targets)))
        sub_m = rnd.sample(names(methods), rnd.randint(1, len(methods)))
    else:
        # a pair and its like before it
        if "type" not in methods[0]:
            methods = [real_method(rnd, methods[0]["name"])]
        if "type" in targets[0] and case == "kin":
            targets = [sim_target(rnd, targets[0]["name"], 0, dims=rnd.choice([1, 1, 2]))]
        sub_t, sub_m = names(targets), names(methods)
        if case == "cousin":
            methods.insert(0, cousin(rnd, methods[0], "twin"))
        else:
            targets.insert(0, kin_target(rnd, targets[0], free.pop()))
    metrics = [m for m in METRICS if rnd.random() < .45 and (m not in ("T", "MEM") or rnd.random() < .2)]
    return {"targets": targets, "methods": methods, "keep_targets": sub_t, "keep_methods": sub_m,
            "config": {"nreps": rnd.choice([1, 1, 2]), "rseed": rnd.choice([0, 1, 4242]), "metrics": metrics},
            "ambient": rnd.randint(0, 2 ** 31 - 1), "read_cost": 1e-5}


def play(plan, targets, methods, known, sim):
    ctx = Ctx(known)
    with Arena() as arena, sim:
        arm(sim, arena.root)
        out = os.path.join(arena.root, "results.txt")
        seed_all(plan["ambient"])
        ctx.call("run", run_bench, write_files(arena.root, dict(plan, targets=targets, methods=methods)), out)
        sim.root = None
        return content(out)


def by_pair(data):
    lines = unmeasured(data)
    head = lines[0]
    res = {}
    for r in lines[1:-1]:
        d = dict(zip(head, r))
        res.setdefault((d["method"], d["target_d"]), []).append(r)
    return res


def run(plan, known):
    ctx = Ctx(known)
    T = {t["name"]: t for t in plan["targets"]}
    M = {m["name"]: m for m in plan["methods"]}
    kt = [T[n] for n in plan["keep_targets"] if n in T] or plan["targets"][:1]
    km = [M[n] for n in plan["keep_methods"] if n in M] or plan["methods"][:1]
    part = in_fork(lambda: play(plan, kt, km, known, simple_sim(plan, max_events=800000)))
    sim = simple_sim(plan, max_events=800000)
    whole = play(plan, plan["targets"], plan["methods"], known, sim)
    a, b = by_pair(whole), by_pair(part)
    rows = 0
    for t in kt:
        for m in km:
            k = (m["name"], t["name"])
            x, y = a.get(k, []), b.get(k, [])
            rows = max(rows, len(x))
            j = 0
            while j < min(len(x), len(y)) and x[j] == y[j]:
                j += 1
            ctx.check(x == y and x, "pair-depends-on-others", lambda: "%s on %s, row %d: %s among %d pairs, %s among %d" % (
                k[0], k[1], j, " ".join(x[j]) if j < len(x) else "missing", len(T) * len(M),
                " ".join(y[j]) if j < len(y) else "missing", len(kt) * len(km)))
    return sim_stats(sim, ctx, sig=str([m.get("type") for m in plan["methods"]] + [t.get("type") for t in plan["targets"]]),
                     nontrivial=len(T) * len(M) > 1 and rows > 1)
