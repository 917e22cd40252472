"""Reference executions.

`alone(fn, ...)`  : run fn in a fork of this (still unpolluted) process.
`Peer`            : a second process started with another hash seed, in which every request
                    runs in its own fork under its own simulated clock, entropy and
                    processor count.
"""
import os
import pickle
import struct
import subprocess
import sys

from . import core, env
from .env import world


def _alone(cfg, fn, args):
    with env.activate(cfg):
        return fn(*args)


def alone(fn, *args, cfg=None):
    """fn(*args) in a pristine fork, in the reference world."""
    cfg = dict({"seed": 0, "cpus": 1, "entropy": 0}, **(cfg or {}))
    o = core.fork_call(_alone, cfg, fn, args)
    if o["status"] == "ok":
        return o["out"]
    raise RuntimeError("reference run failed: %s" % (o.get("trace") or o,))


def many_alone(jobs):
    return [alone(*j) for j in jobs]


class Peer:
    def __init__(self):
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = str((int(e.get("PYTHONHASHSEED", "1")) * 7919 + 12345) % 4294967295)
        e["SIM_PTQDM"] = "0" if e.get("SIM_PTQDM") == "1" else "1"
        self.p = subprocess.Popen([core.PY, os.path.join(core.HERE, "check.py"), "_peer"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, cwd=core.HERE)
        self.wfd = self.p.stdin.fileno()
        self.rfd = self.p.stdout.fileno()

    def call(self, cfg, name, args):
        """sim.<module>.<function>(*args) in the peer."""
        rid = os.urandom(8) if not world.active else world.entropy.getrandbits(64).to_bytes(8, "big")
        data = pickle.dumps((rid, cfg, name, args))
        _write(self.wfd, struct.pack(">I", len(data)) + data)
        while True:
            n = struct.unpack(">I", _read(self.rfd, 4))[0]
            got, status, val = pickle.loads(_read(self.rfd, n))
            if got == rid:
                break
        if status != "ok":
            raise RuntimeError("peer run failed: %s" % (val,))
        return val

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def _write(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _read(fd, n):
    out = b""
    while len(out) < n:
        d = os.read(fd, n - len(out))
        if not d:
            raise EOFError("peer gone")
        out += d
    return out


def peer_main():
    env.install(ptqdm=os.environ.get("SIM_PTQDM") == "1")
    import importlib
    from . import calls
    for a in calls.ANALYZERS:
        calls.analyzer(a)
    for s in calls.SAMPLERS:
        calls.sampler(s)
    out = os.dup(1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    import gc
    gc.freeze()
    while True:
        try:
            n = struct.unpack(">I", _read(0, 4))[0]
            rid, cfg, name, args = pickle.loads(_read(0, n))
        except EOFError:
            return
        m, f = name.rsplit(".", 1)
        fn = getattr(importlib.import_module(m), f)
        o = core.fork_call(_alone, cfg, fn, args)
        if o["status"] == "ok":
            r = (rid, "ok", o["out"])
        else:
            r = (rid, "bad", o.get("trace") or o)
        data = pickle.dumps(r)
        _write(out, struct.pack(">I", len(data)) + data)
