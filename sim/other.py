"""A process with another string hash seed that runs things on request: `call(seed, module, function, *args)`.

Each request is served in a fork of that process, so that requests do not see each other."""
import importlib
import os
import pickle
import struct
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_LIVE = {}      # (own process id, hash seed) -> Popen


def _read(f):
    head = f.read(8)
    if len(head) < 8:
        return None
    n = struct.unpack("<Q", head)[0]
    data = f.read(n)
    return data if len(data) == n else None


def _write(f, data):
    f.write(struct.pack("<Q", len(data)) + data)
    f.flush()


def call(seed, module, function, *args):
    from .harness import ChildDied
    key = (os.getpid(), seed)
    p = _LIVE.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", "import sys; sys.path.insert(0, %r); from sim import other" % VERIF +
                              "\nother.serve()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=VERIF)
        _LIVE[key] = p
    try:
        _write(p.stdin, pickle.dumps((module, function, args)))
        data = _read(p.stdout)
    except BaseException:
        _LIVE.pop(key, None)
        p.kill()
        p.wait()
        raise
    if data is None:
        _LIVE.pop(key, None)
        p.wait()
        raise ChildDied("the other process died (exit status %s)" % p.returncode)
    ok, val = pickle.loads(data)
    if not ok:
        raise val
    return val


def serve():
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    sys.path.insert(0, os.environ.get("SIM_REPO", "/repo"))
    from sim import kernel
    kernel.install()
    from sim import harness
    while True:
        data = _read(inp)
        if data is None:
            return
        module, function, args = pickle.loads(data)

        def do():
            mod = importlib.import_module(module)
            harness._MOD = mod
            with harness.quiet():
                return getattr(mod, function)(*args)
        try:
            importlib.import_module(module)
            res = (True, harness.in_fork(do))
        except BaseException as e:
            res = (False, e)
        try:
            data = pickle.dumps(res)
            pickle.loads(data)
        except Exception:
            data = pickle.dumps((False, harness.HarnessError("%s: %s" % (type(res[1]).__name__, res[1]))))
        _write(out, data)
