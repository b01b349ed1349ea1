"""Cooperative threads: every thread the code under test starts is a task of a seeded scheduler.

The tasks are OS threads of which exactly one runs at a time. Control passes on at lock operations and
before any instruction of the code under test (the interpreter reports each), at the steps the plan lists; nowhere else. Locks,
conditions and queues are the standard ones on top of simulated locks.
"""
import _thread
import os
import sys
import threading
import types

import ais_benchmarks

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(ais_benchmarks.__file__))) + os.sep
REAL_T = {n: getattr(threading, n) for n in ("Thread", "Lock", "RLock", "_allocate_lock", "get_ident", "current_thread", "_CRLock")
          if hasattr(threading, n)}


class Kill(BaseException):
    pass


class Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.gone = _thread.allocate_lock()
        self.gone.acquire()
        self.waiting = None       # predicate that has to hold before it can go on
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.error = None
        self.started = False
        self.ident = None


CURRENT = None      # the scheduler of this process


class Scheduler:
    def __init__(self, sim, switches, quantum=400, max_steps=60000):
        self.sim = sim
        self.switches = {int(k): int(v) for k, v in switches.items()}
        self.quantum = quantum
        self.max_steps = max_steps
        self.tasks = []
        self.cur = None
        self.step = 0
        self.since = 0
        self.killing = False
        self.ended = _thread.allocate_lock()
        self.ended.acquire()
        self.outcome = None
        self.essential = []
        self.preemptions = 0
        self.by_ident = {}
        self.sites = set()        # places where control was taken away

    # --- set up
    def spawn(self, name, fn, essential=False):
        t = Task(name, fn)
        self.tasks.append(t)
        if essential:
            self.essential.append(t)
        return t

    def body(self, t):
        t.baton.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.killing:
                t.fn()
        except Kill:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        t.gone.release()
        if not self.killing:
            self.leave(t)

    def launch(self, t):
        t.started = True
        _thread.start_new_thread(self.body, (t,))

    def run(self):
        global CURRENT
        for t in self.tasks:
            if not t.started:
                self.launch(t)
        self.pass_on(None)
        self.ended.acquire()
        # take everything down
        self.killing = True
        for t in list(self.tasks):
            if not t.done:
                t.baton.release()
                if not t.gone.acquire(True, 5.0):
                    raise RuntimeError("simulated thread %s does not end" % t.name)
        return self.outcome

    # --- scheduling
    def ready(self):
        return [t for t in self.tasks if not t.done and (t.waiting is None or t.waiting())]

    def end(self, why):
        if self.outcome is None:
            self.outcome = why
            self.ended.release()

    def choose(self, cur, forced=None):
        """The next task, or None when the run is over."""
        if all(t.done for t in self.essential):
            self.end("done")
            return None
        if self.step > self.max_steps:
            self.end("steps")
            return None
        r = self.ready()
        if not r:
            d = [t for t in self.tasks if not t.done and t.deadline is not None]
            if not d:
                self.end("deadlock")
                return None
            t = min(d, key=lambda t: t.deadline)
            self.sim.now = max(self.sim.now, t.deadline)
            t.timed_out = True
            t.waiting = None
            return t
        if forced is not None:
            others = [t for t in r if t is not cur] or r
            return others[forced % len(others)]
        if cur in r and self.since < self.quantum:
            return cur
        k = self.tasks.index(cur) if cur in self.tasks else -1
        for j in range(1, len(self.tasks) + 1):
            t = self.tasks[(k + j) % len(self.tasks)]
            if t in r:
                return t

    def pass_on(self, cur, forced=None):
        nxt = self.choose(cur, forced)
        if nxt is cur and nxt is not None:
            return
        self.since = 0
        if nxt is not None:
            self.cur = nxt
            nxt.waiting = None
            nxt.baton.release()
        if cur is not None and not cur.done:
            cur.baton.acquire()
            if self.killing:
                raise Kill()

    def leave(self, t):
        """A task has ended."""
        nxt = self.choose(t)
        if nxt is not None:
            self.since = 0
            self.cur = nxt
            nxt.waiting = None
            nxt.baton.release()

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def tick(self, where=None):
        """One step of the current task: it may lose control here."""
        t = self.me()
        if t is None:
            return
        if self.killing:
            raise Kill()
        self.step += 1
        self.since += 1
        forced = self.switches.get(self.step)
        if forced is not None:
            self.preemptions += 1
            if where is not None:
                self.sites.add(where)
            self.pass_on(t, forced)
        elif self.since >= self.quantum or self.step > self.max_steps:
            self.pass_on(t)

    def wait_for(self, pred, timeout=None):
        """Blocks the current task until the predicate holds."""
        t = self.me()
        t.timed_out = False
        t.deadline = None if timeout is None else self.sim.now + timeout
        while not pred():
            if t.timed_out:
                t.deadline = None
                return False
            t.waiting = pred
            if pred():
                break
            self.blocked(t)
        t.waiting = None
        t.deadline = None
        return True

    def blocked(self, t):
        nxt = self.choose(None)
        if nxt is t:
            return
        self.since = 0
        if nxt is not None:
            self.cur = nxt
            nxt.waiting = None
            nxt.baton.release()
        t.baton.acquire()
        if self.killing:
            raise Kill()

# --- where a thread may lose control: before any instruction of the code under test ------------------------------------
def code_objects(modules):
    """Every piece of code defined in the modules."""
    seen = set()

    def add(code):
        if code in seen or not code.co_filename.startswith(ROOT):
            return
        seen.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    def look(v, depth=0):
        if isinstance(v, types.FunctionType):
            add(v.__code__)
        elif isinstance(v, (staticmethod, classmethod)):
            look(v.__func__)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                look(f)
        elif isinstance(v, type) and depth < 3:
            for w in list(vars(v).values()):
                look(w, depth + 1)
    for m in modules:
        for v in list(vars(m).values()):
            look(v)
    return seen


TOOL = 3


def instrument():
    """Once per process, before any of it runs in a thread."""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is not None:
        return
    mon.use_tool_id(TOOL, "simulated threads")

    def step(code, offset):
        s = CURRENT
        if s is not None and s.me() is not None:
            s.tick("%s:%d" % (code.co_name, offset))
    mon.register_callback(TOOL, mon.events.INSTRUCTION, step)
    mods = [m for n, m in list(sys.modules.items()) if n.startswith("ais_benchmarks.utils") and m is not None]
    for c in code_objects(mods):
        mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)


# --- what the code under test gets -------------------------------------------------------------------------------------
class SimLock:
    def __init__(self):
        self.held = None

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = s.me() if s is not None else None
        if me is None:
            if self.held is not None and blocking:
                raise RuntimeError("a lock is held outside the simulation")
            ok = self.held is None
            if ok:
                self.held = "outside"
            return ok
        if s.killing:
            raise Kill()
        s.tick("acquire")
        if self.held is None:
            self.held = me
            return True
        if not blocking:
            return False
        while self.held is not None:
            if not s.wait_for(lambda: self.held is None, None if timeout is None or timeout < 0 else timeout):
                return False
        self.held = me
        return True

    def release(self):
        if self.held is None:
            raise RuntimeError("release unlocked lock")
        self.held = None
        s = CURRENT
        if s is not None and s.me() is not None and not s.killing:
            s.tick("release")

    def locked(self):
        return self.held is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.held = None


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.count = 0
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = (s.me() if s is not None else None) or "outside"
        if self.owner is me:
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.owner = me
            self.count = 1
            return True
        return False

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            super().release()

    def _is_owned(self):
        s = CURRENT
        return self.owner is ((s.me() if s is not None else None) or "outside")

    def _release_save(self):
        c, self.count = self.count, 0
        self.owner = None
        super().release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


class SimThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "thread"
        self.daemon = bool(daemon)
        self.task = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = CURRENT
        self.task = s.spawn(self.name, self.run)
        if s.cur is not None:
            s.launch(self.task)
            s.tick("start")

    def is_alive(self):
        return self.task is not None and not self.task.done

    def join(self, timeout=None):
        CURRENT.wait_for(lambda: self.task.done, timeout)

    def setDaemon(self, d):
        self.daemon = d

    @property
    def ident(self):
        return self.task.ident if self.task else None


class Patched:
    """Replaces the thread primitives, also where a module has imported them by name."""

    def __init__(self, modules, sched):
        self.modules = modules
        self.sched = sched

    def __enter__(self):
        global CURRENT
        CURRENT = self.sched
        new = {"Thread": SimThread, "Lock": SimLock, "RLock": SimRLock, "_allocate_lock": SimLock, "_CRLock": SimRLock}
        self.undo = []
        for n, v in new.items():
            if n in REAL_T:
                self.undo.append((threading, n, getattr(threading, n)))
                setattr(threading, n, v)
        real = {id(REAL_T[n]): v for n, v in new.items() if n in REAL_T}
        for m in self.modules:
            for n, v in list(vars(m).items()):
                if id(v) in real:
                    self.undo.append((m, n, v))
                    setattr(m, n, real[id(v)])
        return self

    def __exit__(self, *a):
        global CURRENT
        for m, n, v in self.undo:
            setattr(m, n, v)
        CURRENT = None
