"""Simulation kernel: every source of nondeterminism of ais_benchmarks behind a seam.

install() must run before ais_benchmarks is imported. Outside a simulation (CUR is None) every seam passes through to
the real function. Inside one, clocks, sleeps, heap sizes, files under the scratch root and the outcome of selected
random draws are decided by the active Sim, which is a pure function of the run's plan.
"""
import builtins
import errno
import io
import os
import pathlib
import sys
import time
import timeit
import types
import zlib

REAL = types.SimpleNamespace(time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter,
                             sleep=time.sleep, process_time=time.process_time, open=builtins.open,
                             makedirs=os.makedirs, mkdir=os.mkdir)
CUR = None  # active simulation


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimHang(BaseException):
    """The run used up its event budget: no progress."""


class SimFault(Exception):
    """An injected failure of a target density or of a sampler."""


FAULTS = {}
for _e in (ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, FloatingPointError, OverflowError, RuntimeError,
           NotImplementedError, AssertionError, MemoryError, TimeoutError):
    # an injected failure that is also one of the exceptions code likes to catch
    FAULTS[_e.__name__] = type("SimFault" + _e.__name__, (SimFault, _e), {})
FAULTS["Exception"] = SimFault


class SimDiskFault(OSError):
    """An injected failure of the disk."""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg

    def __reduce__(self):
        return Violation, (self.cls, self.msg)


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class Sim:
    """State of one simulated run."""

    def __init__(self, plan=None, max_events=200000):
        plan = plan or {}
        self.now = 1000.0               # monotonic simulated time
        self.wall_offset = float(plan.get("wall_offset", 0.0))
        self.start = self.now
        self.read_cost = float(plan.get("read_cost", 0.0))
        self.events = 0
        self.max_events = max_events
        self.crash_at = plan.get("crash_at")
        self.crashed = False
        self.digest = 0
        self.fired = {}
        self.kinds = {}
        # clock faults: {event index: seconds}; stalls move both clocks, jumps only the wall clock
        self.stalls = {int(k): float(v) for k, v in (plan.get("stalls") or {}).items()}
        self.jumps = {int(k): float(v) for k, v in (plan.get("jumps") or {}).items()}
        self.oversleep = list(plan.get("oversleep") or [])
        self.n_sleeps = 0
        # heap
        self.heap = None
        # random generator hooks: list of callables (name, args, kwargs, result) -> result
        self.rng_hook = None
        self.rng_log = None
        self.on_draw = None
        # disk
        self.root = None
        self.disk_faults = {}
        self.disk_ops = 0
        self.files = []
        self.torn = plan.get("torn")
        # target evaluation
        self.on_eval = None

    # -- events -------------------------------------------------------------------------------------------------------
    def event(self, kind, detail=""):
        if self.crashed:
            raise SimCrash()
        self.events += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.digest = zlib.crc32(("%s%s;" % (kind, detail)).encode(), self.digest)
        if self.events > self.max_events:
            raise SimHang()
        d = self.stalls.get(self.events)
        if d is not None:
            self.now += d
            self.fire("stall")
        d = self.jumps.get(self.events)
        if d is not None:
            self.wall_offset += d
            self.fire("clock_jump")
        if self.crash_at is not None and self.events == self.crash_at:
            self.crash()

    def crash(self):
        self.crashed = True
        self.fire("crash")
        raise SimCrash()

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- clock --------------------------------------------------------------------------------------------------------
    def advance(self, dt):
        self.now += dt

    def read_clock(self, which):
        self.event("clk")
        self.now += self.read_cost
        return self.now + (self.wall_offset if which == "wall" else 0.0)

    def sleep(self, dt):
        self.event("sleep")
        over = 0.0
        if self.oversleep:
            over = self.oversleep[self.n_sleeps % len(self.oversleep)]
            if over:
                self.fire("oversleep")
        self.n_sleeps += 1
        self.now += max(0.0, dt) + over

    # -- disk ---------------------------------------------------------------------------------------------------------
    def disk_fault(self, op, path):
        """Each disk operation has an index; the plan may make it fail."""
        self.event("disk", op)
        self.disk_ops += 1
        f = self.disk_faults.get(self.disk_ops)
        if f is not None:
            self.fire("disk_" + f)
            return f
        return None

    def owns(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes) or self.root is None:
            return False
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def __enter__(self):
        global CUR
        self.prev = CUR
        CUR = self
        return self

    def __exit__(self, *a):
        global CUR
        CUR = self.prev
        for f in self.files:
            f.abandon()
        return False


ERRNO = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EROFS": errno.EROFS}


class SimFile(io.TextIOBase):
    """A text file with the user-space buffer of a real one; the operating system side is a real scratch file."""

    def __init__(self, sim, path, mode, encoding=None):
        self.sim = sim
        self.path = os.path.abspath(os.fspath(path))
        self.name = os.fspath(path)
        self.mode = mode
        f = sim.disk_fault("open", path)
        if f is not None and f != "short":
            raise SimDiskFault(ERRNO.get(f, errno.EIO), "simulated " + f, self.name)
        self.raw = REAL.open(path, mode.replace("t", "").replace("b", "") + "b", buffering=0)
        self.buf = b""
        self.dead = False
        self.encoding_ = encoding or "utf-8"
        sim.files.append(self)

    encoding = "utf-8"

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return any(c in self.mode for c in "wax+")

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.sim.event("write")
        self.buf += s.encode(self.encoding_)
        if len(self.buf) > 8192:
            self.persist("write")
        return len(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def persist(self, op):
        """Hand the buffer to the operating system: from here on it survives a crash of the process."""
        if self.dead or not self.buf:
            return
        sim = self.sim
        try:
            f = sim.disk_fault(op, self.path)
        except SimCrash:
            if sim.torn:
                part = self.buf[:max(1, min(len(self.buf) - 1, int(len(self.buf) * sim.torn)))]
                self.raw.write(part)
                sim.fire("torn_write")
            raise
        if f is not None:
            part = self.buf[:len(self.buf) // 2] if f == "short" or f == "ENOSPC" else b""
            if part:
                self.raw.write(part)
                sim.fire("short_write")
            self.buf = b""
            raise SimDiskFault(ERRNO.get(f, errno.ENOSPC), "simulated " + f, self.name)
        self.raw.write(self.buf)
        self.buf = b""

    def flush(self):
        if self.closed or self.dead:
            return
        if self.writable():
            self.persist("flush")

    def read(self, n=-1):
        self.flush()
        return self.raw.read(n).decode(self.encoding_)

    def readline(self, n=-1):
        self.flush()
        return self.raw.readline().decode(self.encoding_)

    def seek(self, *a):
        self.flush()
        return self.raw.seek(*a)

    def tell(self):
        return self.raw.tell() + len(self.buf)

    def truncate(self, size=None):
        self.flush()
        return self.raw.truncate(size)

    def fileno(self):
        return self.raw.fileno()

    def abandon(self):
        """The process is gone: the buffer is lost."""
        self.dead = True
        self.buf = b""
        try:
            self.raw.close()
        except Exception:
            pass

    def close(self):
        if self.closed:
            return
        try:
            if not self.dead and not self.sim.crashed and self.writable():
                self.persist("close")
        finally:
            if not self.dead:
                self.raw.close()
            super().close()

    def __del__(self):
        # A real file flushes when collected; a simulated one is abandoned by its Sim instead.
        pass


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim = CUR
    if sim is not None and not isinstance(file, int) and sim.owns(file) and any(c in mode for c in "wax+") \
            and "b" not in mode:
        return SimFile(sim, file, mode, encoding)
    return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _makedirs(name, mode=0o777, exist_ok=False):
    sim = CUR
    if sim is not None and sim.owns(name):
        f = sim.disk_fault("mkdir", name)
        if f is not None:
            raise SimDiskFault(ERRNO.get(f, errno.EIO), "simulated " + f, os.fspath(name))
    return REAL.makedirs(name, mode, exist_ok)


class _SimHeap:
    def __init__(self, size):
        self.size = size


class _SimHpy:
    def heap(self):
        sim = CUR
        if sim is None or sim.heap is None:
            raise RuntimeError("simulated heap used outside a simulation")
        sim.event("heap")
        return _SimHeap(sim.heap())

    def setref(self):
        pass

    setrelheap = setref


# functions of the global generator that the simulator can observe and steer
RNG_FUNCS = ["uniform", "rand", "random", "random_sample", "normal", "randn", "standard_normal",
             "multivariate_normal", "multinomial", "randint", "random_integers", "choice", "exponential",
             "permutation", "shuffle"]
REAL_RNG = {}
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    time.time = lambda: CUR.read_clock("wall") if CUR is not None else REAL.time()
    time.monotonic = lambda: CUR.read_clock("mono") if CUR is not None else REAL.monotonic()
    time.perf_counter = lambda: CUR.read_clock("perf") if CUR is not None else REAL.perf_counter()
    time.process_time = lambda: CUR.read_clock("cpu") if CUR is not None else REAL.process_time()
    time.sleep = lambda s: CUR.sleep(s) if CUR is not None else REAL.sleep(s)
    time.time_ns = lambda: int(round(time.time() * 1e9))
    time.monotonic_ns = lambda: int(round(time.monotonic() * 1e9))
    time.perf_counter_ns = lambda: int(round(time.perf_counter() * 1e9))
    timeit.default_timer = time.perf_counter
    builtins.open = _open
    io.open = _open
    os.makedirs = _makedirs
    import numpy as np
    for name in RNG_FUNCS:
        if not hasattr(np.random, name):
            continue
        REAL_RNG[name] = getattr(np.random, name)

        def wrapper(*a, _name=name, _real=REAL_RNG[name], **k):
            sim = CUR
            if sim is None or (sim.rng_hook is None and sim.rng_log is None):
                return _real(*a, **k)
            res = _real(*a, **k)
            if sim.rng_hook is not None:
                res = sim.rng_hook(_name, a, k, res)
            if sim.rng_log is not None:
                sim.rng_log(_name, a, k, res)
            return res
        setattr(np.random, name, wrapper)
    import guppy
    real_hpy = guppy.hpy
    guppy.hpy = lambda *a, **k: _SimHpy() if CUR is not None and CUR.heap is not None else real_hpy(*a, **k)
