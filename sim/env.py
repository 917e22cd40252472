"""The simulated world SALib runs in.

`install()` must be called before numpy and SALib are imported.  It replaces, from
outside, every seam SALib gets nondeterminism or failure through.  Nothing in /repo is
changed.  All simulated state lives in one `World`, reset for each run by `world.reset`.
"""
import builtins
import io
import os
import random
import sys
import time as _time

REPO_SRC = os.environ.get("SIM_REPO_SRC", "/repo/src")

real_open = io.open
real_time = _time.time
real_perf = _time.perf_counter
real_getpid = os.getpid


class SimCrash(BaseException):
    """The simulated process was killed (nothing after this point is durable)."""


class SimDeadlock(BaseException):
    """The caller waits for something that can never happen."""


class SimEscape(BaseException):
    """The code under test tried to leave the simulation (start a real process...)."""


class InjectedError(RuntimeError):
    """A failure planted by the simulator (stands for the user's model failing)."""


class Chooser:
    """All scheduling decisions go through here: recorded, and replayable."""

    def __init__(self, seed, script=None):
        self.rng = random.Random(seed)
        self.script = script
        self.trace = []

    def choose(self, n, what=""):
        if n <= 1:
            return 0
        if self.script is not None:
            i = len(self.trace)
            v = self.script[i] if i < len(self.script) else 0
            v = min(int(v), n - 1)
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        return v


class Clock:
    def __init__(self):
        self.reset({})

    def reset(self, cfg):
        self.now = float(cfg.get("start", 1.7e9))
        self.start = self.now
        self.step = float(cfg.get("step", 1e-3))
        self.jumps = dict((int(k), float(v)) for k, v in cfg.get("jumps", {}).items())
        self.calls = 0
        self.mono = 0.0

    def time(self):
        self.calls += 1
        self.now += self.step
        j = self.jumps.get(self.calls)
        if j is not None:
            self.now += j
            world.fault("clock_jump")
        return self.now

    def monotonic(self):
        self.mono += self.step
        return self.mono


class World:
    def __init__(self):
        self.active = False
        self.clock = Clock()
        self.reset({})

    def reset(self, cfg):
        """cfg: seed, cpus, clock, entropy, sched (replay script), poison"""
        self.cfg = cfg
        self.faults = {}
        self.probes = {}
        self.log = []
        self.cpus = int(cfg.get("cpus", 4))
        self.ch = Chooser("sched%s" % cfg.get("seed", 0), cfg.get("sched"))
        self.entropy = random.Random("entropy%s" % cfg.get("entropy", 0))
        self.pid = 1000 + int(cfg.get("entropy", 0)) % 30000
        self.clock.reset(cfg.get("clock", {}))
        self.pools = []          # every pool ever created in this run
        self.pool_faults = {}    # faults for coming pools, see pools.py
        self.sim_time = 0.0
        self.fs = None
        self.orders = []         # completion orders seen

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def note(self, *a):
        self.log.append(" ".join(str(x) for x in a))


world = World()


# ---------------------------------------------------------------- files
class FS:
    """Faults on raw file operations below one scratch directory (real files there)."""

    def __init__(self, root, buf=256, faults=()):
        self.root = os.path.realpath(root)
        self.buf = buf
        self.faults = [dict(f) for f in faults]
        self.crashed = False
        self.ops = 0

    def covers(self, file, mode):
        if not isinstance(file, (str, bytes, os.PathLike)):
            return False
        p = os.path.realpath(os.fspath(file))
        if isinstance(p, bytes):
            p = p.decode()
        return p.startswith(self.root + os.sep)

    def match(self, path, op):
        base = os.path.basename(path)
        for f in self.faults:
            if f.get("done"):
                continue
            if f["op"] == op and (f.get("file") in (None, base)):
                yield f


def _fire(f, kind):
    f["hit"] = True
    if not f.get("sticky"):
        f["done"] = True
    world.fault(kind)


class FaultyRaw(io.FileIO):
    def __init__(self, path, mode, fs):
        self._fs = fs
        self._path = os.fspath(path)
        self._w = 0
        self._r = 0
        for f in fs.match(self._path, "open_" + ("r" if "r" in mode else "w")):
            _fire(f, "open_" + f["kind"])
            raise OSError(f["errno"], os.strerror(f["errno"]), self._path)
        if fs.crashed and "r" not in mode:
            raise SimCrash()
        super().__init__(path, mode)

    def write(self, b):
        fs = self._fs
        fs.ops += 1
        if fs.crashed:
            return len(b)              # the process is dead: nothing reaches the disk
        b = bytes(b)
        for f in fs.match(self._path, "write"):
            at = f["at"]
            if f["kind"] == "short":
                if len(b) > 1 and self._w >= at:
                    k = 1 + (at + self._w) % (len(b) - 1)
                    f["n"] = f.get("n", 0) + 1
                    if f["n"] > 40:
                        f["done"] = True
                    world.fault("short_write")
                    n = super().write(b[:k])
                    self._w += n
                    return n
                continue
            if self._w + len(b) > at:
                k = max(0, at - self._w)
                if k:
                    super().write(b[:k])
                    self._w += k
                if f["kind"] == "crash":
                    _fire(f, "crash_at_write")
                    fs.crashed = True
                    raise SimCrash()
                if f["kind"] == "interrupt":
                    _fire(f, "interrupt_at_write")
                    raise KeyboardInterrupt()
                _fire(f, "write_" + f["kind"])
                raise OSError(f["errno"], os.strerror(f["errno"]))
        n = super().write(b)
        self._w += n
        return n

    def readinto(self, buf):
        fs = self._fs
        fs.ops += 1
        mv = memoryview(buf).cast("B")
        limit = len(mv)
        for f in fs.match(self._path, "read"):
            if f["kind"] == "short":
                k = f["sizes"][fs.ops % len(f["sizes"])]
                if k < limit:
                    limit = k
                    world.fault("short_read")
                continue
            f["c"] = f.get("c", 0) + 1
            if (f["c"] > f["nth"]) if "nth" in f else (super().tell() + limit > f["at"]):
                if f["kind"] == "interrupt":
                    _fire(f, "interrupt_at_read")
                    raise KeyboardInterrupt()
                if f["kind"] == "memory":
                    _fire(f, "read_memory")
                    raise MemoryError()
                _fire(f, "read_" + f["kind"])
                raise OSError(f["errno"], os.strerror(f["errno"]))
        n = super().readinto(mv[:limit])
        self._r += n or 0
        return n

    def seek(self, pos, whence=0):
        # a plain tell() inside the buffered layers is a seek by 0 from here: leave it alone
        if not (pos == 0 and whence == 1):
            for f in self._fs.match(self._path, "seek"):
                _fire(f, "seek_" + f["kind"])
                raise OSError(f["errno"], os.strerror(f["errno"]))
        return super().seek(pos, whence)

    def readall(self):
        out = b""
        b = bytearray(4096)
        while True:
            n = self.readinto(b)
            if not n:
                return out
            out += bytes(b[:n])

    def close(self):
        if not self.closed and self.writable() and not self._fs.crashed:
            for f in self._fs.match(self._path, "close"):
                _fire(f, "close_" + f["kind"])
                super().close()
                raise OSError(f["errno"], os.strerror(f["errno"]))
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    fs = world.fs
    if fs is None or not world.active or not fs.covers(file, mode):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = FaultyRaw(file, rawmode, fs)
    if buffering == 0:
        return raw
    size = fs.buf
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif "r" in mode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    try:
        t._CHUNK_SIZE = max(16, size)
    except Exception:
        pass
    t.mode = mode
    return t


class FaultyStdout(io.RawIOBase):
    """Standard output going to a pipe or file that may fail after `at` bytes."""

    def __init__(self, fault=None):
        super().__init__()
        self.data = bytearray()
        self.fault = dict(fault) if fault else None

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        f = self.fault
        if f and len(self.data) + len(b) > f["at"]:
            if f["kind"] == "short":
                k = max(1, len(b) // 2)
                world.fault("stdout_short")
                self.data += b[:k]
                return k
            self.data += b[: max(0, f["at"] - len(self.data))]
            world.fault("stdout_" + f["kind"])
            raise OSError(f["errno"], os.strerror(f["errno"]))
        self.data += b
        return len(b)


# ---------------------------------------------------------------- install
_installed = False


def _randbits(k):
    return world.entropy.getrandbits(k)


def install(ptqdm=False):
    """Put every seam behind the world.  Call before numpy/SALib are imported."""
    global _installed
    if _installed:
        return
    assert "numpy" not in sys.modules and "SALib" not in sys.modules, "install first"
    _installed = True
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO_SRC)

    # files
    io.open = sim_open
    builtins.open = sim_open

    # entropy
    import secrets
    secrets.randbits = _randbits
    real_urandom = os.urandom
    os.urandom = lambda n: (world.entropy.getrandbits(8 * n).to_bytes(n, "little")
                            if world.active and n else real_urandom(n))
    # clock
    _time.time = lambda: world.clock.time() if world.active else real_time()
    _time.time_ns = lambda: int(_time.time() * 1e9)
    _time.perf_counter = lambda: world.clock.monotonic() if world.active else real_perf()
    # processors and process id
    real_cpu = os.cpu_count
    os.cpu_count = lambda: world.cpus if world.active else real_cpu()
    real_aff = os.sched_getaffinity
    os.sched_getaffinity = lambda pid=0: set(range(world.cpus)) if world.active else real_aff(pid)
    os.getpid = lambda: world.pid if world.active else real_getpid()

    from . import threads
    threads.install_locks()
    import numpy  # noqa: F401
    from . import pools
    pools.install(ptqdm)

    import SALib
    p = os.path.realpath(SALib.__file__)
    assert p.startswith(os.path.realpath(REPO_SRC)), p


def salib_dir():
    return os.path.join(os.path.realpath(REPO_SRC), "SALib")


class activate:
    """Context: run code inside the simulated world."""

    def __init__(self, cfg=None):
        self.cfg = cfg

    def __enter__(self):
        if self.cfg is not None:
            world.reset(self.cfg)
        import numpy as np
        e = int(world.cfg.get("entropy", 0))
        np.random.seed(e % (2**32))
        random.seed(e)
        world.active = True
        return world

    def __exit__(self, *a):
        world.active = False
        return False
