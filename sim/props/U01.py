"""The non-blocking reader delivers lines in order, once, and never goes back."""
import functools

from ais_benchmarks.utils import misc

from ..common import *
from ..threads import Patched, Scheduler, instrument

PID = "U01"
RUNS = {"quick": 60000, "thorough": 3000000}
RULE = ("The real reader runs with its background thread and one to three consumers as tasks of a seeded scheduler that "
        "takes control away between any two instructions. A simulated stream delivers lines in chunks, stalls until "
        "consumers have gone on, has nothing to read for a while, ends, or breaks. The calls and results are compared with a sequential queue: there must "
        "be one order of all calls and arrivals, consistent with when they took place, that explains every result. "
        "Non-trivial: control was taken away inside the code under test and at least two lines arrived.")
REAL = ["ais_benchmarks.utils.misc.CNonBlockingStreamReader", "queue.Queue (on simulated locks)"]
STUB = ["threads, locks and their scheduling", "the stream"]
SHRINK = ("switches", "feed", "consumers")


def gen(rnd, i, tier):
    n = rnd.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])
    feed = []
    for k in range(n):
        if rnd.random() < .3:
            feed.append(["wait", rnd.randint(1, 6)])      # until that many calls of consumers have ended
        if rnd.random() < .1:
            feed.append(["lull", rnd.randint(1, 2)])      # a followed file: nothing more to read for now
        r = rnd.random()
        feed.append(["line", k] if r < .75 else ["text", rnd.choice(["\n", "line 0\n", " \n", "0\n"])] if r < .82 else
                    ["pieces", k, rnd.randint(1, 3)])
    burst = rnd.random() < .04
    if burst:
        feed.insert(rnd.randint(0, len(feed)), ["burst", rnd.choice([5, 9, 12, 20, 40, 70, 130, 260])])
    if n and rnd.random() < .2:
        feed.append(["tail"])
    feed.append(rnd.choice([["eof"], ["eof"], ["silence"], ["break"]]))
    consumers = []
    for c in range(rnd.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rnd.randint(1, 5 if c else 7)):
            ops.append(rnd.choice(["read", "read", "read", "last", "last", "clear"]))
        if burst and rnd.random() < .8:
            ops.insert(rnd.choice([0, 0, len(ops) - 1]), "settle")
        elif rnd.random() < .15:
            ops.insert(rnd.randint(0, len(ops) - 1), "settle")
        consumers.append(ops)
    span = rnd.choice([60, 200, 600])
    sw = {str(rnd.randint(1, span * 2)): rnd.randint(0, 5) for _ in range(rnd.choice([2, 5, 12, 40]))}
    return {"feed": feed, "consumers": consumers, "switches": [[int(k), v] for k, v in sorted(sw.items(), key=lambda x: int(x[0]))],
            "seed": rnd.randint(0, 2 ** 31 - 1)}


class Stream:
    """A pipe: lines come in pieces, readline waits for a whole one."""

    def __init__(self, sched, sim):
        self.s = sched
        self.sim = sim
        self.buf = ""
        self.eof = False
        self.broken = False
        self.lull = 0
        self.parked = False      # the reader has taken all there was
        self.arrivals = []       # [line, step at which it was handed over, step of the next readline]
        self.calls = 0

    def readline(self, *a):
        if self.arrivals and self.arrivals[-1][2] is None:
            self.arrivals[-1][2] = self.s.step
        self.s.tick("readline")
        self.parked = True
        self.s.wait_for(lambda: "\n" in self.buf or self.eof or self.broken or self.lull)
        if self.lull and "\n" not in self.buf and not self.eof and not self.broken:
            self.lull -= 1
            self.sim.fire("lull")
            return ""
        if self.broken and "\n" not in self.buf:
            self.sim.fire("broken_stream")
            raise OSError(32, "Broken pipe")
        self.parked = "\n" not in self.buf and not self.buf
        if "\n" in self.buf:
            k = self.buf.index("\n") + 1
            line, self.buf = self.buf[:k], self.buf[k:]
        else:
            line, self.buf = self.buf, ""
            if not line:
                # end of the stream, again and again
                self.s.since += 40
                return ""
        self.arrivals.append([line, self.s.step, None])
        return line

    def __iter__(self):
        return iter(self.readline, "")


def run(plan, known):
    ctx = Ctx(known)
    instrument()
    with simple_sim(plan, max_events=10 ** 7) as sim:
        sched = Scheduler(sim, {k: v for k, v in plan["switches"]}, quantum=150, max_steps=60000)
        calls = []          # [op, start, end, result]
        ended = [0]
        resting = [False]   # the feeder has nothing to do
        with Patched([misc], sched):
            stream = Stream(sched, sim)
            reader = ctx.call("construct", misc.CNonBlockingStreamReader, stream)

            def feeder():
                for f in plan["feed"]:
                    sched.tick("feed")
                    if f[0] == "wait":
                        total = sum(o != "settle" for ops in plan["consumers"] for o in ops)
                        sim.fire("stream_stall")
                        resting[0] = True
                        sched.wait_for(lambda: ended[0] >= min(f[1], total))
                        resting[0] = False
                    elif f[0] == "line":
                        stream.buf += "line %d\n" % f[1]
                    elif f[0] == "pieces":
                        text = "line %d\n" % f[1]
                        for k in range(f[2]):
                            stream.buf += text[k:k + 1]
                            sim.fire("short_chunk")
                            sched.tick("feed")
                        stream.buf += text[f[2]:]
                    elif f[0] == "text":
                        stream.buf += f[1]
                    elif f[0] == "burst":
                        sim.fire("burst")
                        stream.buf += "".join("burst %d\n" % k for k in range(f[1]))
                    elif f[0] == "lull":
                        stream.lull = f[1]
                    elif f[0] == "tail":
                        stream.buf += "no newline"
                    elif f[0] == "eof":
                        stream.eof = True
                    elif f[0] == "break":
                        stream.broken = True
                    elif f[0] == "silence":
                        sim.fire("silent_stream")
                resting[0] = True

            def consumer(ops):
                for op in ops:
                    sched.tick("call")
                    if op == "settle":      # until the reader has taken in all there is, or cannot
                        if not sched.wait_for(lambda: resting[0] and stream.parked and "\n" not in stream.buf, timeout=5.0):
                            ctx.check(not (resting[0] and "\n" in stream.buf), "lines-left-in-the-stream",
                                      lambda: "nothing else can happen and the reader does not take %r; stream %s" % (
                                          stream.buf[:60], plan["feed"]))
                        continue
                    c = [op, sched.step, None, None]
                    calls.append(c)
                    if op == "read":
                        c[3] = reader.read()
                    else:
                        c[3] = reader.read_last_and_clear(op == "last") if op == "clear" else reader.read_last_and_clear()
                    sched.step += 1
                    c[2] = sched.step
                    ended[0] += 1
            sched.spawn("feeder", feeder)
            tasks = [sched.spawn("consumer %d" % k, functools.partial(consumer, ops), essential=True)
                     for k, ops in enumerate(plan["consumers"])]
            if not tasks:
                return sim_stats(sim, ctx, nontrivial=False)
            how = sched.run()
        sim.event("schedule", repr((plan["switches"], calls, how)))
        sim.fire("preemption", sched.preemptions)
    for t in tasks:
        if t.error is not None:
            ctx.violate("raises:%s" % type(t.error).__name__, "%s failed: %r" % (t.name, t.error))
    open_calls = [c for c in calls if c[2] is None]
    ctx.check(how == "done", "consumer-blocked", lambda: "%s: %s never returned (%s); stream %s" % (
        how, [c[0] for c in open_calls], history(calls, stream.arrivals), plan["feed"]))
    ctx.check(explained(calls, stream.arrivals), "no-order-explains-it", lambda: "no order of the calls and arrivals explains "
              "%s" % history(calls, stream.arrivals))
    inside = [w for w in sched.sites if w.split(":")[0] in ("read", "read_last_and_clear", "_addqueue")]
    st = sim_stats(sim, ctx, sig="%d/%d" % (len(plan["consumers"]), len(inside)),
                     nontrivial=bool(inside) and len(stream.arrivals) > 1)
    st["events"] = sched.step
    return st


def history(calls, arrivals):
    h = ["%s=%r[%d,%s]" % (c[0], c[3], c[1], c[2]) for c in calls] + ["arrives %r[%d,%s]" % tuple(a) for a in arrivals]
    return ", ".join(h)


def explained(calls, arrivals):
    """Is there a sequence of all calls and arrivals that a queue produces, respecting their times?"""
    END = 10 ** 9
    ops = [(c[1], c[2] if c[2] is not None else END, c[0], c[3]) for c in calls]
    ops += [(a[1], a[2] if a[2] is not None else END, "arrive", a[0]) for a in arrivals]
    ops.sort()
    n = len(ops)
    # a line that was handed over but whose time is still open may never have arrived
    optional = sum(1 << k for k, o in enumerate(ops) if o[1] == END and o[2] == "arrive")
    full = (1 << n) - 1
    seen = set()

    def go(done, q):
        if done | optional == full:
            return True
        if (done, q) in seen:
            return False
        seen.add((done, q))
        horizon = min(o[1] for k, o in enumerate(ops) if not done >> k & 1)
        for k, (a, b, op, val) in enumerate(ops):
            if done >> k & 1 or a > horizon:
                continue
            if op == "arrive":
                nq = q + (val,)
            elif op == "read":
                if q:
                    if val != q[0]:
                        continue
                    nq = q[1:]
                else:
                    if val != "":
                        continue
                    nq = q
            elif q:
                if val != q[-1]:
                    continue
                nq = () if op == "clear" else q[-1:]
            else:
                if val is not None:
                    continue
                nq = q
            if go(done | 1 << k, nq):
                return True
        return False
    return go(0, ())
