"""A repetition never outlives its sampling-time budget."""
import numpy as np

from ..bench import *
from ..common import *

PID = "R07"
RUNS = {"quick": 5000, "thorough": 60000}
RULE = ("Scripted methods that are slow, stall, overrun the time they are given or produce nothing run under a small time "
        "budget, with slow metrics and slow density queries in between. Every request must be given what is left of the "
        "budget, none may follow once it is used up, the rows of finished requests must be in the file and all "
        "repetitions must take place. Non-trivial: at least one repetition used up its budget.")
REAL = REAL_BENCH
STUB = STUB_BENCH
SHRINK = ("targets", "methods", "metrics")


def gen(rnd, i, tier):
    names = rnd.sample(NAMES, len(NAMES))
    budget = rnd.choice([0.5, 1.0, 3.0, 60.0, 0.0])
    targets = [sim_target(rnd, names.pop(), k, cost=0.0) for k in range(rnd.choice([1, 1, 2]))]
    methods = []
    for k in range(rnd.choice([1, 1, 2])):
        d = [rnd.choice([0.01, .1, .3, .5, 1.0, 2.0, 40.0]) * max(budget, .5) * rnd.choice([.3, 1]) for _ in range(rnd.choice([1, 3, 5]))]
        methods.append(sim_method(rnd, names.pop(), tag=k, durations=d, respect=rnd.random() < .4, least=rnd.choice([0, 0, 1]),
                                  yields=[rnd.choice([0, 0, 1, -1, -5, ["f", .5], ["f", 0]]) for _ in range(rnd.choice([1, 3]))],
                                  cost=rnd.choice([0, 0, .5, 50.0])))
    metrics = [m for m in METRICS if rnd.random() < .4 and (m != "T" or rnd.random() < .2)]
    return {"targets": targets, "methods": methods, "config": {"nreps": rnd.choice([1, 2, 3]), "rseed": rnd.choice([-1, 0, 5]),
                                                                "metrics": metrics},
            "timeout": budget, "seed": rnd.randint(0, 2 ** 31 - 1), "read_cost": 1e-6, "heap_cost": rnd.choice([0, .3, 20.0])}


class Endless(Exception):
    pass


def before_each(g):
    """Time a repetition has spent before each of its requests."""
    s, out = 0.0, []
    for c in g:
        out.append(s)
        s += (c["end"] or c["now"]) - c["now"]
    return out


def run(plan, known):
    ctx = Ctx(known)
    T = plan["timeout"]
    with Arena() as arena, simple_sim(plan, max_events=300000) as sim:
        arm(sim, arena.root)
        sim.heap_cost = plan.get("heap_cost", 0.0)
        out = os.path.join(arena.root, "res", "results.txt")
        np.random.seed(plan["seed"])
        # a method that produces nothing is asked forever when the budget is not enforced (a listed finding): the run ends
        # once that is plain
        spent = {}

        def after(method, res):
            key = (id(method), method.generation)
            n, t = spent.get(key, (0, 0.0))
            if t >= T:
                n += 1      # requests after the budget was used up
            spent[key] = (n, t + sim.now - started[0])
            if n > 60:
                raise Endless()
        started = [0.0]

        def before(method):
            started[0] = sim.now
        tap = RequestTap(before, after)
        endless = False
        try:
            run_bench(write_files(arena.root, plan), out, T)
        except Endless:
            endless = True
        except SimHang:
            ctx.violate("no-progress", "the benchmark did not end within the event budget")
        finally:
            tap.close()
        sim.root = None
        data = content(out)
    want = [(t, m, r) for t in plan["targets"] for m in plan["methods"] for r in range(plan["config"]["nreps"])]
    # repetitions: the requests between two resets (a reset may be repeated)
    reps, fresh = [], True
    for c in sim.calls:
        if c["what"] == "reset":
            fresh = True
        elif c["what"] == "request":
            if fresh:
                reps.append([])
                fresh = False
            reps[-1].append(dict(c, total=None, end=None))
        elif c["what"] == "done":
            reps[-1][-1].update(total=c["total"], end=c["now"])
    eps = 0.01
    used_up = 0
    ctx.check(len(reps) <= len(want), "repetitions", lambda: "%d repetitions for %d" % (len(reps), len(want)))
    # the listed finding: every request is given the whole budget and nothing is ever used up
    spents = [sum(c["end"] - c["now"] for c in g if c["end"] is not None) for g in reps]
    every = [c for g in reps for c in g]
    unenforced = bool(every) and all(c["timeout"] == T for c in every) and (endless or any(
        abs(c["timeout"] - (T - s)) > eps for g in reps for c, s in zip(g, before_each(g))))
    if unenforced:
        ctx.violate("budget-never-decreases", "every request was given the whole budget of %.3f s; a repetition spent %.3f s in %d "
                    "requests" % (T, max(spents), len(reps[int(np.argmax(spents))])))
    # with no budget at all a repetition may also make no request
    if T > 0 and not endless:
        ctx.check(len(reps) == len(want), "repetitions", lambda: "%d repetitions ran, %d are configured" % (
            len(reps), len(want)))
    if T > 0:
        for g, (t, m, r) in zip(reps, want):
            ctx.check(g[0]["name"] == m["name"] and g[0]["target"].name == t["name"], "repetitions",
                      "repetitions out of order")
    ctx.check(unenforced or not endless, "request-after-the-budget", "more than 60 requests after the budget was used up")
    kept = []
    for g in reps:
        spent = 0.0
        for k, c in enumerate(g):
            if c["end"] is None:
                continue
            if not unenforced:
                ctx.check(spent < T + eps, "request-after-the-budget", lambda: "request %d made %.3f s into a budget of %.3f s" % (
                    k, spent, T))
                ctx.check(abs(c["timeout"] - (T - spent)) <= eps, "time-limit-given", lambda: "request %d was given %.4f s "
                          "with %.4f of %.4f s spent" % (k, c["timeout"], spent, T))
            spent += c["end"] - c["now"]
            if c["total"] or spent < T - eps:
                kept.append(c)
        if g is reps[-1] and endless:
            used_up += 1
            continue
        have = g[-1]["total"]
        need = g[-1]["target"]
        ns = [t["nsamples"] for t in plan["targets"] if t["name"] == need.name][0]
        ctx.check(have >= ns or spent >= T - eps, "ended-early", lambda: "ended with %d of %d samples and %.3f of %.3f s "
                  "spent" % (have, ns, spent, T))
        used_up += spent >= T
    ctx.check(data is not None, "no-file", "no results file")
    head, rows, last = columns(data)
    got = [(dict(zip(head, r)).get("method"), int(dict(zip(head, r)).get("output_samples", -1))) for r in rows]
    must = [(c["name"], c["total"]) for c in kept if c["total"]]
    got, must = [x for x in got if x[1]], list(must)
    if endless and len(must) == len(got) + 1:
        must.pop()      # stopped between the request and its row
    ctx.check(got == must, "rows-lost", lambda: "rows %s, finished requests %s" % (got[:8], must[:8]))
    sim.fire("budget_used_up", used_up)
    return sim_stats(sim, ctx, sig=str(plan["timeout"]), nontrivial=used_up > 0)
