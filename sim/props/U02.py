"""Waiting for a distribution is bounded and does not miss readiness."""
import numpy as np

from ais_benchmarks import distributions as D

from ..common import *

PID = "U02"
RUNS = {"quick": 150000, "thorough": 6000000}
RULE = ("A distribution whose readiness the simulator decides (ready from an instant on, in windows, or never) is waited for "
        "with polls of different cost, clock reads that cost time, oversleeping sleeps, stalls and a time limit; several waits "
        "follow each other. Every poll is recorded and the outcome is compared with what the polls saw and with the limit. "
        "Non-trivial: at least two polls of one wait, or a wait that ended at its limit.")
REAL = ["CDistribution.wait_for_ready of the shipped distributions"]
STUB = ["clock and sleep", "readiness of the distribution (is_ready)"]
SHRINK = ("waits", "windows", "stalls", "poll_cost", "oversleep")
ASSUME = ["The wall clock does not jump during a wait.", "Apart from polls, oversleeping and stalls, one round of polling "
          "takes at most 20 ms of simulated time."]
SLACK = 0.02

KINDS_D = ["uniform", "normal", "exponential", "gmm"]


def make(kind, d):
    lo, hi = np.zeros(d), np.ones(d)
    if kind == "uniform":
        return D.CMultivariateUniform({"center": lo + .5, "radius": lo + .5})
    if kind == "normal":
        return D.CMultivariateNormal({"mean": lo, "sigma": np.eye(d), "support": [lo, hi]})
    if kind == "exponential":
        return D.CMultivariateExponential({"mean": hi})
    return D.CGaussianMixtureModel({"means": [lo, hi], "sigmas": [hi, hi], "weights": np.array([.5, .5]), "support": [lo, hi]})


def gen(rnd, i, tier):
    waits = []
    for _ in range(rnd.randint(1, 4)):
        limit = rnd.choice([0.0, 1e-6, 0.001, 0.03, 0.1, 0.1, 0.5, 2.0])
        steps = rnd.choice([3, 8, 20, 60])
        cost = [rnd.choice([0.0, limit / steps, 2 * limit / steps * rnd.random(), limit / 3]) for _ in range(rnd.randint(1, 4))]
        if max(cost) == 0:
            cost[0] = limit / steps
        m = rnd.random()
        if m < .15:
            win = []
        elif m < .3:
            win = [[0.0, 1e9]]
        else:
            # near the limit, at a random instant, or past the limit
            at = rnd.choice([limit * rnd.random(), limit * (1 + rnd.uniform(-.1, .1)), limit, limit * 3 * rnd.random()])
            win = [[at, at + rnd.choice([1e9, limit / 10, limit / steps, 0.0])]]
            if rnd.random() < .3:
                at2 = win[0][1] + limit * rnd.random()
                win.append([at2, at2 + limit])
        waits.append({"limit": limit, "poll_cost": cost, "windows": win})
    over = [rnd.choice([0.0, 1e-4, .01, .2]) for _ in range(rnd.randint(1, 5))]
    if max(over) == 0 or rnd.random() < .3:
        over = [.001]
    if rnd.random() < .02:
        # many polls
        waits[-1].update(limit=30.0, poll_cost=[0.0, .1])
        over = [.2]
    stalls = {str(rnd.randint(1, 60)): rnd.choice([.01, .2, 3.0]) for _ in range(rnd.randint(1, 3))} if rnd.random() < .5 else {}
    return {"kind": rnd.choice(KINDS_D), "dims": rnd.randint(1, 2), "waits": waits, "oversleep": over, "stalls": stalls,
            "read_cost": rnd.choice([0.0, 1e-5, 1e-4]), "wall_offset": rnd.choice([0.0, 1.7e9]), "seed": 0}


def run(plan, known):
    ctx = Ctx(known)
    busy = False
    with simple_sim(plan, max_events=100000) as sim:
        dist = make(plan["kind"], plan["dims"])
        stalled = sum(plan["stalls"].values())
        over = max(plan["oversleep"] or [0])
        for w in plan["waits"]:
            polls = []
            t0 = sim.now
            costs = w["poll_cost"] or [0.001]
            limit = w["limit"]
            lag = max(costs) + over + stalled + SLACK

            def is_ready():
                a = sim.now
                sim.event("poll")
                sim.advance(costs[len(polls) % len(costs)])
                r = any(x <= a - t0 <= y for x, y in w["windows"])
                polls.append((a, sim.now, r))
                if sim.now - t0 > 10 * (limit + lag) + 1:
                    ctx.violate("never-ends", "still polling %.6g s after the start, limit %.6g s" % (sim.now - t0, limit))
                return r
            dist.is_ready = is_ready
            res = err = None
            try:
                res = dist.wait_for_ready(w["limit"])
            except TimeoutError as e:
                err = e
            end = sim.now
            sim.event("wait", repr((w, len(polls), res, round(end - t0, 9))))
            saw = any(p[2] for p in polls)
            what = "limit %.6g s, %d polls, ready in %s, ended after %.6g s" % (limit, len(polls), w["windows"], end - t0)
            if saw:
                ctx.check(err is None, "seen-but-timed-out", lambda: "a poll saw it ready, but the wait timed out: " + what)
                ctx.check(polls[-1][2] and sum(p[2] for p in polls) == 1, "polls-on", lambda: "it kept waiting after a poll saw it ready: " + what)
                ctx.check(bool(res), "success-not-returned", lambda: "became ready, result %r: %s" % (res, what))
            else:
                ctx.check(err is not None, "success-without-readiness", lambda: "no poll saw it ready, result %r: %s" % (res, what))
                ctx.check(end - t0 >= limit - 1e-5, "gives-up-early", lambda: "timed out early: " + what)
                ctx.probe("timed_out")
                early = [x for x, y in w["windows"] if y - x > lag and x < limit - lag]
                ctx.check(not early, "missed", lambda: "was ready long before the limit: " + what)
            ctx.check(end - t0 <= limit + lag, "late", lambda: "ended more than one poll (%.6g s) after the limit: %s" % (lag, what))
            if polls:
                ctx.check(all(p[0] - t0 <= limit + stalled + over + SLACK for p in polls), "polls-past-limit", lambda: "polled past the limit: " + what)
                # a wait between two polls is a short one
                gaps = [b[0] - a[1] for a, b in zip(polls, polls[1:])]
                ctx.check(not gaps or max(gaps) <= over + stalled + SLACK, "sleeps-through", lambda: "%.6g s between polls: %s" % (max(gaps), what))
            busy |= len(polls) > 1 or err is not None
    return sim_stats(sim, ctx, sig="%s" % plan["kind"], nontrivial=busy)
