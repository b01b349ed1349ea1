"""Watching a run does not change it."""
import numpy as np

from ..bench import *
from ..common import *
from .M03 import copies, diff, same

PID = "V01"
RUNS = {"quick": 1800, "thorough": 40000}
RULE = ("Two simulations of the same sampler, target and random stream go through the same history of requests (some cut short by "
        "their time limit), density queries and resets; in one of them the sampler is drawn onto axes, asked for frames and "
        "switched between silent and talking at random moments, drawing taking simulated time. Drawing has to succeed once "
        "samples are there, has to show the density the sampler reports (one dimension) and must leave everything a user can see, "
        "and the target, alone. In a seventh of the runs two whole benchmarks are compared, one with the progress plot and "
        "talking methods switched on in the configuration (and a figure per batch saved to the simulated disk in some). Non-trivial: a drawing was followed by a request.")
REAL = REAL_SAMPLERS + ["ais_benchmarks.utils.plot_utils", "matplotlib (Agg)", "ais_benchmarks.benchmark.CBenchmark (a seventh of the runs)"]
STUB = STUB_SAMPLERS
ASSUME = ["Samplers that approximate their density from drawn indices build that approximation when it is first asked for; "
          "both histories ask for it right after each request so that it comes from the same part of the random stream."]
SHRINK = ("ops",)


def gen(rnd, i, tier):
    if i % 7 == 6:
        names = rnd.sample(NAMES, len(NAMES))
        d = rnd.choice([1, 1, 2])
        t = sim_target(rnd, names.pop(), 0, dims=d, nsamples=rnd.choice([12, 30]), batch=rnd.choice([6, 10]))
        while True:
            m = real_method(rnd, names.pop() if len(names) > 1 else "x")
            if not (m["kind"] == "mh" and t["params"].get("kind") == "box"):
                break
        return {"bench": True, "targets": [t], "methods": [m],
                "config": {"nreps": rnd.choice([1, 2]), "rseed": rnd.choice([0, 3]), "metrics": [x for x in ("JSD", "EVMSE", "NESS") if rnd.random() < .4]},
                "show": rnd.random() < .8, "figures": rnd.random() < .12, "talk": rnd.random() < .5, "seed": rnd.randint(0, 2 ** 31 - 1)}
    dims = rnd.choice([1, 1, 2, 2, 3])
    kind = rnd.choice(KINDS)
    c = [rnd.choice([0.0, rnd.uniform(-1, 1)]) for _ in range(dims)]
    r = [rnd.uniform(.2, .6)] * dims if dims > 1 else [rnd.uniform(.2, 4)]
    lo, hi = [a - b for a, b in zip(c, r)], [a + b for a, b in zip(c, r)]
    cfg = gen_sampler(rnd, kind, lo=lo, hi=hi)
    t = gen_target(rnd, lo, hi)
    while kind == "mh" and t["kind"] == "box":
        t = gen_target(rnd, lo, hi)
    t["cost"] = rnd.choice([.001, .003])
    n = min(size_for(rnd, cfg, tier), 30)
    ops = []
    for op in gen_ops(rnd, cfg, n, rnd.randint(2, 4), timeouts=.3, extras=False, resets=.12):
        if op[0] == "req" and op[2] == BIG:
            op[2] = 2.50371234567
        ops.append(op)
        if op[0] == "req":
            ops.append(["prob"])
        for _ in range(rnd.choice([0, 1, 1, 2])):
            ops.append(["see", rnd.choice(["draw", "draw", "draw", "frames", "talk", "quiet"])])
    return {"cfg": cfg, "target": t, "ops": ops, "seed": rnd.randint(0, 2 ** 31 - 1)}


def figure(dims):
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    f = Figure()
    FigureCanvasAgg(f)
    return f, f.add_subplot(projection="3d") if dims == 3 else f.add_subplot()


def see(ctx, sim, cfg, s, what):
    kind = cfg["kind"]
    if what in ("talk", "quiet"):
        s.debug = what == "talk"
        sim.fire("talk")
        return
    if what == "frames":
        ctx.call("get_viz_frames:" + kind, s.get_viz_frames)
        return
    dims = len(cfg["lo"])
    if not len(s.samples) or not np.all(np.isfinite(np.asarray(s.weights, dtype=float))) or (dims == 3 and kind == "tp"):
        return
    import matplotlib.pyplot as plt
    fig, ax = figure(dims)
    evals = s.num_target_evals
    try:
        with np.errstate(all="ignore"):
            got = ctx.call("draw:" + label_of(cfg), s.draw, ax)
    finally:
        plt.close("all")
    sim.fire("drawing")
    ctx.check(s.num_target_evals == evals, "drawing-evaluates-the-target:" + kind, "drawing raised the number of target evaluations")
    got = list(got) if got is not None else []
    for a in got:
        ctx.check(a.axes is ax, "drawn-elsewhere:" + kind, lambda: "%s does not belong to the axes given" % a)
    if dims == 1:
        curves = [np.asarray(l.get_xydata(), dtype=float) for l in ax.get_lines() if len(l.get_xydata()) > 15]
        # a domain shorter than two steps of the drawing has no curve
        if (cfg["hi"][0] - cfg["lo"][0]) > .2:
            with np.errstate(all="ignore"):
                ok = any(np.allclose(np.asarray(s.prob(c[:, :1]), dtype=float).reshape(-1), c[:, 1], rtol=1e-9, atol=1e-12, equal_nan=True)
                         for c in curves)
            ctx.check(ok, "curve:" + kind, lambda: "none of the %d curves drawn is the density of the sampler" % len(curves))


def trace(ctx, plan, watch):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    out = []
    seen = effective = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        target = SimTarget(plan["target"])
        s = ctx.call("construct:" + kind, build, cfg)
        ctx.call("reset:" + kind, s.reset)
        pts = probe_points(cfg, 7)
        held = None
        for op in plan["ops"]:
            if op[0] == "see":
                if watch and held is not None:
                    keep = [np.array(h, copy=True) for h in held]
                    see(ctx, sim, cfg, s, op[1])
                    seen += 1
                    for name, a, b in zip(("samples", "weights"), keep, held):
                        ctx.check(same(a, np.array(b)), "result-changed:" + kind, lambda: "%s changed the %s that the last request "
                                  "returned" % (op[1], name))
                continue
            if op[0] == "req":
                effective += bool(seen)
                res = ctx.call("importance_sample:" + label_of(cfg), s.importance_sample, target, op[1], op[2])
                held = res
                samples, weights = copies(ctx, cfg, res)
                out.append((list(op), {"samples": samples, "weights": weights}))
            elif op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                held = None
                out.append((list(op), {}))
            elif op[0] == "prob":
                try:
                    with np.errstate(all="ignore"):
                        out.append((list(op), {"prob": np.array(s.prob(pts), dtype=float)}))
                except (SimCrash, SimHang):
                    raise
                except Exception as e:
                    out.append((list(op), {"error": type(e).__name__}))
            else:
                continue
            out[-1][1]["counters"] = np.array([s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals])
            out[-1][1]["stream"] = np.array(np.random.get_state()[1], dtype=np.int64)
            out[-1][1]["stream_position"] = np.array([np.random.get_state()[2]])
            out[-1][1]["target"] = target.pdf(pts)
    return out, sim, effective


def run(plan, known):
    ctx = Ctx(known)
    if "bench" in plan:
        return pair(ctx, plan)
    a, _, _ = trace(ctx, plan, False)
    b, sim, effective = trace(ctx, plan, True)
    kind = plan["cfg"]["kind"]
    for k, ((op, x), (_, y)) in enumerate(zip(a, b)):
        d = diff(x, y)
        ctx.check(d is None, "disturbed:" + kind, lambda: "operation %d, %s, differs after the sampler was watched: %s" % (k, op, d))
    return sim_stats(sim, ctx, sig=kind, nontrivial=effective > 0)


def pair(ctx, plan):
    import matplotlib.pyplot as plt

    def once(show, talk, figures=False):
        p = dict(plan, config=dict(plan["config"], show=show, save_figures=figures), methods=[dict(m, debug=talk) for m in plan["methods"]])
        with Arena() as arena, simple_sim(plan, max_events=400000) as sim:
            arm(sim, arena.root)
            np.random.seed(plan["seed"])
            out = os.path.join(arena.root, "results.txt")
            try:
                ctx.call("run", run_bench, write_files(arena.root, p), out, 1e12)
            finally:
                plt.close("all")
            sim.root = None
            saved = os.path.join(arena.root, "dbg")
            return content(out), sim, len([f for f in os.listdir(saved) if f.endswith(".png")]) if os.path.isdir(saved) else 0
    a, _, _ = once(False, False)
    b, sim, saved = once(plan["show"], plan["talk"], plan.get("figures"))
    if plan["show"]:
        sim.fire("progress_plot")
        if plan.get("figures"):
            sim.fire("figures_saved")
            rows = len(unmeasured(b)) - 2
            ctx.check(saved == rows, "figures", lambda: "%d figures saved in %d batches" % (saved, rows))
    if plan["talk"]:
        sim.fire("talking_method")
    x, y = unmeasured(a), unmeasured(b)
    j = 0
    while j < min(len(x), len(y)) and x[j] == y[j]:
        j += 1
    kind = plan["methods"][0]["kind"]
    ctx.check(x == y, "watching-changes-the-results:" + kind, lambda: "line %d: %s, without watching: %s" % (
        j, " ".join(y[j]) if j < len(y) else "missing", " ".join(x[j]) if j < len(x) else "missing"))
    return sim_stats(sim, ctx, sig="bench" + kind, nontrivial=(plan["show"] or plan["talk"]) and len(x) > 3)
