"""Failures stop the run visibly and never turn into recorded results."""
import numpy as np

from ..bench import *
from ..common import *
from ..kernel import FAULTS, SimDiskFault, SimCrash

PID = "R04"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("A benchmark of scripted and real methods runs once without faults and once with one to three: the disk refuses to "
        "create the directory or file, fills up or fails at a random operation (short writes included), a target density "
        "raises at a random evaluation (while sampling or while a metric is computed), or a method raises at a random "
        "request or density query; the failures are of fourteen kinds of exceptions. In a quarter of the runs a sampler alone is "
        "given a target that fails, and the failure has to come out of the request. The call has to raise, the rows written before the fault have to be in the file and the failed step must "
        "not be. Non-trivial: a fault that matters fired.")
REAL = REAL_BENCH + ["sampling methods (in some runs)"]
STUB = STUB_BENCH
SHRINK = ("targets", "methods", "metrics", "disk", "ops")


EXC = sorted(FAULTS)


def gen(rnd, i, tier):
    if i % 4 == 3:
        return gen_direct(rnd, i)
    names = rnd.sample(NAMES, len(NAMES))
    real = rnd.random() < .3
    targets = [sim_target(rnd, names.pop(), k, dims=rnd.choice([1, 1, 2])) for k in range(rnd.choice([1, 1, 2]))]
    methods = []
    for k in range(rnd.choice([1, 2, 2])):
        if real and k == 0:
            m = real_method(rnd, names.pop(), rnd.choice([x for x in sorted(REAL_METHODS) if x not in ("mh", "rej")]))
            m.pop("kind")
            methods.append(m)
        else:
            methods.append(sim_method(rnd, names.pop(), yields=[rnd.choice([0, 0, 2, ["f", .5]]) for _ in range(2)],
                                      durations=[.01], rng=rnd.random() < .5))
    plan = {"targets": targets, "methods": methods, "seed": rnd.randint(0, 2 ** 31 - 1), "read_cost": 1e-5,
            "config": {"nreps": rnd.choice([1, 1, 2]), "rseed": rnd.choice([0, 4]),
                       "metrics": [m for m in METRICS if rnd.random() < .4 and (m != "T" or rnd.random() < .2)]},
            "nested_out": rnd.random() < .5, "old": rnd.random() < .4, "faults": []}
    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
        kind = rnd.choice(["disk", "disk", "disk", "target", "target", "method", "query"])
        if kind == "disk":
            plan["faults"].append(["disk", rnd.random(), rnd.choice(["ENOSPC", "EIO", "EACCES", "EROFS", "short"])])
        elif kind == "target":
            plan["faults"].append(["target", rnd.random(), rnd.choice(EXC)])
        else:
            plan["faults"].append([kind, rnd.random(), rnd.choice(EXC)])
    return plan


def gen_direct(rnd, i):
    """A sampler alone, with a target that fails."""
    kind = KINDS[(i // 4) % len(KINDS)]
    cfg = gen_sampler(rnd, kind)
    n = size_for(rnd, cfg)
    t = gen_target(rnd, cfg["lo"], cfg["hi"])
    t["cost"] = .001
    t["exc"] = rnd.choice(EXC)
    t["fail"] = sorted({rnd.choice([1, 2, rnd.randint(1, 10), rnd.randint(1, 3 * n)]) for _ in range(rnd.randint(1, 3))})
    return {"direct": cfg, "target": t, "ops": gen_ops(rnd, cfg, n, rnd.randint(1, 4), timeouts=.2, resets=.2),
            "seed": rnd.randint(0, 2 ** 31 - 1), "stalls": gen_faults(rnd, 3 * n, .3)["stalls"]}


def direct(plan, known):
    """The failure of a target comes out of the request in which it happened."""
    ctx = Ctx(known)
    cfg = plan["direct"]
    kind = cfg["kind"]
    target = SimTarget(plan["target"])
    failed = held = 0
    with simple_sim(plan) as sim:
        np.random.seed(plan["seed"])
        s = ctx.call("construct:" + kind, build, cfg)
        after = False
        for op in plan["ops"]:
            if op[0] == "reset":
                ctx.call("reset:" + kind, s.reset)
                after, held = False, 0
            elif after:
                continue        # what a failure leaves behind is for the next reset
            elif op[0] == "req":
                c = target.calls
                try:
                    held = len(request(ctx, cfg, s, target, op[1], min(op[2], patience(cfg, op[1])))[0])
                except SimFault as e:
                    failed += 1
                    after = True
                    ctx.check(isinstance(e, FAULTS[target.exc]), "another-failure:" + kind, lambda: "%r raised, the target raised %s" % (e, target.exc))
                    continue
                hit = [k for k in plan["target"]["fail"] if c < k <= target.calls]
                ctx.check(not hit, "failure-swallowed:" + kind, lambda: "the target raised %s at its evaluation %s, the request returned "
                          "%d samples" % (target.exc, hit, held))
            elif held and op[0] == "sample" and kind != "mh":
                ctx.call("sample:" + kind, s.sample, op[1])
    return sim_stats(sim, ctx, sig=str((kind, target.exc)), nontrivial=failed > 0)


def play(ctx, plan, armed):
    """One run. Returns everything a check needs."""
    with Arena() as arena, simple_sim(plan, max_events=400000) as sim:
        arm(sim, arena.root)
        out = os.path.join(arena.root, "res", "results.txt") if plan["nested_out"] else os.path.join(arena.root, "results.txt")
        if plan["old"]:
            SYS.makedirs(os.path.dirname(out), exist_ok=True)
            with SYS.open(out, "w") as f:
                f.write("dims rows of an earlier run\n1 2 3\n")
        np.random.seed(plan["seed"])
        # every disk operation with its path: index -> does it concern the results file
        ops = []
        orig = sim.disk_fault

        def disk_fault(op, path):
            p = os.path.abspath(os.fspath(path)).rstrip("/")
            ops.append([op, p == out or (op == "mkdir" and (out + "/").startswith(p + "/")), p])
            return orig(op, path)
        sim.disk_fault = disk_fault
        evals = {"n": 0}
        reqs = {"n": 0}
        fired = []
        if armed:
            for f in armed:
                if f[0] == "disk":
                    sim.disk_faults[f[1]] = f[2]

        def on_eval(t, x, res):
            evals["n"] += 1
            hit("target", evals["n"])
        sim.on_eval = on_eval

        def hit(what, k):
            for f in armed:
                if f[:2] == [what, k]:
                    sim.fire(what + "_failure")
                    fired.append(what)
                    raise FAULTS[f[2]]("%s failed" % what)
        queries = {"n": 0}

        def query(name):
            real = getattr(SimMethod, name)

            def asked(method, x):
                queries["n"] += 1
                hit("query", queries["n"])
                return real(method, x)
            return asked
        kept = {k: SimMethod.__dict__[k] for k in ("prob", "log_prob") if k in SimMethod.__dict__}
        for k in kept:
            setattr(SimMethod, k, query(k))

        def before(method):
            reqs["n"] += 1
            marks.append(rows_on_disk(out)[0])
            hit("method", reqs["n"])
        # rows in the file when each request began
        marks = []
        tap = RequestTap(before)
        err = None
        try:
            files = write_files(arena.root, plan)
            run_bench(files, out, 1e9)
        except Exception as e:
            err = e
        finally:
            tap.close()
            for k, f in kept.items():
                setattr(SimMethod, k, f)
        disk_hit = [o for k, o in enumerate(ops) if (k + 1) in sim.disk_faults
                    and not (o[0] == "open" and sim.disk_faults[k + 1] == "short")]
        sim.root = None
        data = content(out)
    return {"sim": sim, "err": err, "data": data, "ops": ops, "evals": evals["n"], "reqs": reqs["n"], "query": queries["n"], "fired": fired,
            "disk_hit": disk_hit, "marks": marks}


def run(plan, known):
    if "direct" in plan:
        return direct(plan, known)
    ctx = Ctx(known)
    ref = play(ctx, plan, [])
    if ref["err"] is not None:
        if plan["config"]["rseed"] >= 0 and any(m.get("type") for m in plan["methods"]):
            raise ref["err"]
        ctx.violate("raises:run", "a run without faults raised %r" % ref["err"])
    F = ref["data"]
    armed = []
    for f in plan["faults"]:
        if f[0] == "disk" and ref["ops"]:
            armed.append(["disk", 1 + int(f[1] * len(ref["ops"])), f[2]])
        elif f[0] == "target" and ref["evals"]:
            armed.append(["target", 1 + int(f[1] * ref["evals"]), f[2]])
        elif f[0] == "method" and ref["reqs"]:
            armed.append(["method", 1 + int(f[1] * ref["reqs"]), f[2]])
        elif f[0] == "query" and ref["query"]:
            armed.append(["query", 1 + int(f[1] * ref["query"]), f[2]])
    r = play(ctx, plan, armed)
    C = r["data"]
    hit_file = [o for o in r["disk_hit"] if o[1] and not (o[0] == "mkdir")]
    hit_mkdir = [o for o in r["disk_hit"] if o[1] and o[0] == "mkdir"]
    matters = bool(r["fired"] or hit_file or hit_mkdir)
    if matters:
        ctx.check(r["err"] is not None, "failure-not-reported", lambda: "the run ended normally although %s" % (
            r["fired"] + hit_file + hit_mkdir))
        ctx.probe("faults_that_matter")
    else:
        ctx.check(r["err"] is None, "raises:run", lambda: "raised %r although no fault matters" % r["err"])
        ctx.check(C == F, "rows-differ", "the file differs from the one of a run without faults")
        return sim_stats(r["sim"], ctx, nontrivial=False)
    old = b"dims rows of an earlier run\n1 2 3\n" if plan["old"] else None
    if C is None or (C == old):
        # nothing was created: only if the file could not be opened for the first time
        ctx.check(bool(hit_mkdir) or len(r["marks"]) == 0, "rows-lost", "the file is gone although the run had begun")
        return sim_stats(r["sim"], ctx, nontrivial=True)
    ctx.check(F.startswith(C), "rows-changed", lambda: "the file is not a prefix of the one of a run without faults: %r, "
              "expected %r" % (tail(C, F), tail(F, C)))
    # complete rows: those of the steps before the one that failed
    rows = max(0, C.count(b"\n") - 1)
    marks = r["marks"]
    ctx.check(marks == list(range(len(marks))), "rows-late",
              lambda: "rows in the file when the requests began: %s" % marks[:12])
    steps = len(marks)
    if hit_file:
        # a row that failed to be written may be there in part; one that failed to be closed may be complete
        ctx.check(steps - 1 <= rows <= steps, "rows-lost", lambda: "%d complete rows after %d requests" % (rows, steps))
    else:
        ctx.check(C.endswith(b"\n") and rows == steps - 1, "rows-lost" if rows < steps - 1 else "row-of-failed-step",
                  lambda: "%d complete rows, the failure came in step %d: %r" % (rows, steps, C[-80:]))
    return sim_stats(r["sim"], ctx, sig=str(plan["config"]["metrics"]), nontrivial=True)


def tail(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return a[max(0, k - 20):k + 40]
