"""Helpers shared by the property modules."""
import contextlib
import io
import os
import shutil
import sys
import warnings

from . import calls, core, env
from .core import Violation, Skip, digest
from .env import world


def gen_world(rng, cpus=(1, 2, 3, 4, 8, 16)):
    return {"cpus": rng.choice(cpus), "entropy": rng.randrange(1, 2**31),
            "clock": {"start": rng.choice([0.0, 1.7e9, 4e9]), "step": rng.choice([0.0, 1e-3, 10.0]),
                      "jumps": {str(rng.randint(1, 20)): rng.choice([-3600.0, 86400.0])}
                      if rng.random() < 0.5 else {}}}


def orders():
    """What distinguishes this run's schedule: completion order of every pool."""
    return [digest([p.name, p.n, p.order]) for p in world.pools if p.order]


def scrambled():
    """Did any pool finish out of submission order?"""
    return any(p.order != sorted(p.order) for p in world.pools)


def leaked():
    """Pools still open: neither closed, terminated, shut down nor cleared."""
    return [p.index for p in world.pools
            if getattr(p, "track", True) and not p.released and p.state == "RUN"]


@contextlib.contextmanager
def quiet():
    """Swallow prints and warnings of the code under test."""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout, sys.stderr = o, e


def np_exact(a, b):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %s vs %s" % (a.shape, b.shape)
    eq = (a == b) | ((a != a) & (b != b))
    if not eq.all():
        i = tuple(int(x) for x in np.argwhere(~eq)[0])
        return "at %s: %r vs %r (%d differ)" % (i, a[i].item(), b[i].item(), int((~eq).sum()))
    return None


def spec(problem, outputs=None):
    from SALib import ProblemSpec
    p = calls.as_problem(problem)
    if outputs:
        p["outputs"] = list(outputs)
    return ProblemSpec(p)


def rand_X(problem, n, seed):
    """Sample rows made by the harness itself."""
    import random
    import numpy as np
    r = random.Random(seed)
    D = problem["num_vars"]
    return np.array([[r.uniform(0, 1) for _ in range(D)] for _ in range(n)], dtype=float).reshape(n, D)


def preload():
    """Import everything before the shard starts forking runs."""
    for a in calls.ANALYZERS:
        calls.analyzer(a)
    for s in calls.SAMPLERS:
        calls.sampler(s)
    import scipy.stats.qmc  # noqa
    import scipy.spatial.distance  # noqa
    import pandas  # noqa


_n = [0]


class Scratch:
    def __enter__(self):
        _n[0] += 1
        self.d = "/tmp/salib-sim-%d-%d" % (env.real_getpid(), _n[0])
        os.makedirs(self.d)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ---------------------------------------------------------------- failing models
class Boom(RuntimeError):
    """What the harness's model or analysis raises."""


class OddBoom(Exception):
    """Carries more than a message."""

    def __init__(self, msg, row=3):
        super().__init__(msg, row)
        self.row = row


# what models and analyses raise
EXC = {"Boom": Boom, "OddBoom": OddBoom, "ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError,
       "FloatingPointError": FloatingPointError, "StopIteration": StopIteration, "KeyError": KeyError,
       "IndexError": IndexError, "TypeError": TypeError, "EOFError": EOFError, "AssertionError": AssertionError,
       "NotImplementedError": NotImplementedError, "TimeoutError": TimeoutError, "RecursionError": RecursionError,
       "FileNotFoundError": FileNotFoundError, "UserWarning": UserWarning, "AttributeError": AttributeError,
       "ArithmeticError": ArithmeticError, "ImportError": ImportError}


def gen_exc(rng):
    return rng.choice(["Boom", "Boom", "Boom", "StopIteration"] + sorted(EXC))


FIRED = []


class FaultyModel:
    """A Model that misbehaves on the chunk holding given rows.

    faults: list of {"kind", "x0": value of the first column identifying the row}
    """

    def __init__(self, spec, faults):
        self.m = calls.Model(spec)
        self.faults = faults

    def __call__(self, X, *a, **k):
        import numpy as np
        y = self.m(X, *a, **k)
        n = len(X)
        for f in self.faults:
            if not (np.asarray(X)[:, 0] == f["x0"]).any():
                continue
            kind = f["kind"]
            if kind == "raise":
                FIRED.append(kind)
                world.fault("model_raises")
                raise EXC[f.get("exc") or "Boom"]("injected")
            if kind == "memory":
                FIRED.append(kind)
                world.fault("model_memory")
                raise MemoryError("injected")
            if kind == "short":
                y = y[:-1]
            elif kind == "long":
                y = np.concatenate([y, y[:1]])
            elif kind == "empty":
                y = y[:0]
            elif kind == "one" and n != 1:
                y = y[:1]
            elif kind == "scalar" and y.ndim == 1:
                y = np.float64(y.sum())
            elif kind == "none":
                y = None
            elif kind == "cols" and y.ndim == 2:
                y = y[:, :-1]
        if y is None or np.ndim(y) == 0 or len(y) != n or (np.ndim(y) == 2 and y.shape[1] != self.m.spec["outs"]):
            FIRED.append("shape")
            world.fault("model_wrong_shape")
        return y


def snap(sp):
    """The three stages of a problem, copied."""
    import numpy as np
    return {k: (None if v is None else calls.plain(v))
            for k, v in (("samples", sp.samples), ("results", sp.results), ("analysis", sp.analysis))}


def same_state(a, b):
    for k in a:
        if (a[k] is None) != (b[k] is None):
            return "%s: %s before, %s after" % (k, "absent" if a[k] is None else "present",
                                                "absent" if b[k] is None else "present")
        if a[k] is not None:
            d = calls.diff(a[k], b[k], 0.0, k)
            if d:
                return d
    return None
