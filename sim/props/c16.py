"""C16: saving bootstrap draws (or failing to) never changes the delta analysis."""
import copy
import errno
import os
import random
import warnings

from .. import calls, cli, common, env, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate

OUTCOMES = ["ok", "ok", "ok", "import", "enospc", "eacces", "eio", "erofs", "memory", "value", "partial", "custom",
            "enoent", "frame_memory", "type"]


class ArrowInvalid(Exception):
    pass


class Disk:
    """Stand-in for the parquet writer and the disk behind it."""

    def __init__(self, outcome):
        self.outcome = outcome
        self.saved = {}
        self.calls = 0
        self.paths = []

    def to_parquet(self, df, path=None, *a, **k):
        self.calls += 1
        self.paths.append(str(path))
        o = self.outcome
        if o != "ok":
            world.fault("save_" + o)
        if o == "import":
            raise ImportError("Unable to find a usable engine; tried using: 'pyarrow', 'fastparquet'.")
        if o == "memory":
            raise MemoryError("cannot allocate")
        if o == "value":
            raise ValueError("parquet must have string column names")
        if o == "type":
            raise TypeError("unexpected keyword")
        if o == "custom":
            raise ArrowInvalid("Could not convert")
        if o == "partial":
            self.saved[str(path)] = df.iloc[: len(df) // 2].copy()
            raise OSError(errno.EIO, "Input/output error")
        if o in ("enospc", "eacces", "eio", "erofs", "enoent"):
            e = getattr(errno, o.upper())
            raise OSError(e, os.strerror(e), str(path))
        self.saved[str(path)] = df.copy(deep=True)

    def __enter__(self):
        import pandas as pd
        self.pd = pd
        self.orig = pd.DataFrame.to_parquet
        self.init = pd.DataFrame.__init__
        disk = self

        def tp(df, path=None, *a, **k):
            return disk.to_parquet(df, path, *a, **k)

        def init(df, data=None, *a, **k):
            if disk.outcome == "frame_memory" and isinstance(data, dict) and data and \
                    all(str(x).endswith(("_raw", "_balanced", "_step")) for x in data):
                world.fault("save_frame_memory")
                disk.outcome = "frame_memory_struck"
                raise MemoryError("cannot allocate the table")
            return disk.init(df, data, *a, **k)
        pd.DataFrame.to_parquet = tp
        if self.outcome == "frame_memory":
            pd.DataFrame.__init__ = init
        return self

    def __exit__(self, *a):
        self.pd.DataFrame.to_parquet = self.orig
        self.pd.DataFrame.__init__ = self.init
        return False


def setup():
    common.preload()
    import SALib.scripts.salib  # noqa


def gen(rng, tier, idx):
    D = rng.randint(2, 4)
    p = {"num_vars": D, "names": ["%s%d" % (rng.choice("xyz"), i + 1) for i in range(D)], "bounds": []}
    for i in range(D):
        # every parameter has its own range, so a draw tells whose it is
        a = 100.0 * i
        p["bounds"].append(rng.choice([[a + 1, a + 20], [-30.0 - a, 25.0 + a], [a + 0.5, a + 0.75]]))
    N = rng.randint(160, 300)
    kw = {"num_resamples": rng.choice([2, 3]), "method": rng.choice(["all", "all", "delta", "sobol"])}
    if rng.random() < 0.5:
        kw["y_resamples"] = rng.randint(100, N)
    if rng.random() < 0.3:
        kw["bins_specs"] = {n: rng.choice([4, 6]) for n in p["names"] if rng.random() < 0.6}
    rounds = [{"o": rng.choice(OUTCOMES), "via": rng.choice(["call", "call", "call", "spec", "cli"]),
               "suffix": rng.random() < 0.5} for _ in range(rng.choice([1, 2, 3, 4]))]
    c = {"f": "analyze.delta", "problem": p, "kw": kw, "model": calls.gen_model(rng, 1),
         "sample": {"f": "sample.latin", "problem": p, "kw": {"N": N}, "seed": rng.randrange(2**31)}}
    if rng.random() < 0.85:
        c["seed"] = calls.gen_seed(rng, ints_only=True)
    return {"call": c, "const": rng.random() < 0.12, "rounds": rounds, "world": common.gen_world(rng)}


def prepare(plan):
    with common.quiet():
        p, X, Y = calls.make_data(plan["call"])
        if plan["const"]:
            X[:, -1] = X[0, -1]     # a parameter that cannot be binned
        return p, X, Y


def run(plan, data, via, savedf, paths, d=None):
    """(outcome, warning texts)"""
    import numpy as np
    c = plan["call"]
    p, X, Y = data
    kw = copy.deepcopy(c["kw"])
    if "seed" in c:
        kw["seed"] = c["seed"]
    if savedf is not None:
        kw["bootstrap_savedf"] = savedf
    np.random.seed(4321)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if via == "cli":
            pf, xf, yf = (os.path.join(d, n) for n in ("p.txt", "x.txt", "y.txt"))
            cli.write_params(pf, p)
            np.savetxt(xf, X, fmt="%.17e")
            np.savetxt(yf, Y, fmt="%.17e")
            argv, _ = cli.analyze_args(dict(c, kw={k: v for k, v in c["kw"].items() if k != "bins_specs"}), pf, xf, yf)
            if savedf is not None:
                argv += ["--bootstrap_savedf", savedf]
            st, text, exc = cli.run(argv)
            out = ("ok", text) if st == "ok" else ("err", repr(exc))
        elif via == "spec":
            sp = common.spec(p)
            sp.set_samples(X.copy())
            sp.set_results(Y.copy())
            out = calls.outcome(lambda: sp.analyze(calls.analyzer("delta").analyze, **kw).analysis)
        else:
            out = calls.outcome(lambda: calls.analyzer("delta").analyze(calls.as_problem(p), X.copy(), Y.copy(), **kw))
    return out, [str(w.message) for w in ws]


def ref(plan, data, via):
    with common.quiet(), common.Scratch() as d:
        return run(plan, data, via, None, None, d)


def execute(plan):
    import numpy as np
    c = plan["call"]
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    try:
        data = fresh.alone(prepare, plan)
    except RuntimeError as e:
        raise Skip(str(e)[-200:])
    p, X, Y = data
    refs = {}
    for via in {r["via"] for r in plan["rounds"]}:
        refs[via] = fresh.alone(ref, plan, data, via)
    if any(r[0][0] != "ok" for r in refs.values()):
        raise Skip("call not valid")
    hist, states = [], []
    y = c["kw"].get("y_resamples", len(Y))
    modes = [] if c["kw"]["method"] == "sobol" else ["balanced", "raw", "step"]
    tables, warned, saves = {}, False, 0
    with activate(w), common.quiet(), common.Scratch() as d:
        mod = calls.analyzer("delta")
        for n, rd in enumerate(plan["rounds"]):
            path = os.path.join(d, "boot%d%s" % (n, ".parquet" if rd["suffix"] else ""))
            drawn = []
            inner = getattr(mod, "bias_reduced_delta", None)

            def spy(*a, **k):
                r = inner(*a, **k)
                try:
                    drawn.append(np.array(r[2]))
                except Exception:
                    drawn.append(None)
                return r
            disk = Disk(rd["o"])
            with disk:
                if inner is not None:
                    mod.bias_reduced_delta = spy
                try:
                    got, ws = run(plan, data, rd["via"], path, None, d)
                finally:
                    if inner is not None:
                        mod.bias_reduced_delta = inner
            want, ws0 = refs[rd["via"]]
            what = "outcome %s via %s, kw %s seed %s: " % (rd["o"], rd["via"], c["kw"], c.get("seed"))
            hist.append([rd["o"], rd["via"], disk.calls, len(ws)])
            if got[0] != "ok":
                raise Violation("analysis lost with the save", what + str(got), key="lost:" + rd["o"])
            dd = calls.diff(got[1], want[1], 1e-9)
            if dd:
                raise Violation("saving changed the analysis", what + dd, key="changed:" + rd["o"])
            struck = rd["o"] not in ("ok", "frame_memory") and disk.calls or disk.outcome == "frame_memory_struck"
            extra = [t for t in ws if t not in ws0]
            if struck and not extra and not warned and rd["via"] != "cli":
                raise Violation("failed save not reported", what + "warnings: %s" % ws, key="silent:" + rd["o"])
            warned = warned or bool(struck and extra)
            if rd["o"] == "ok":
                if not disk.calls:
                    if not extra and modes:
                        raise Violation("nothing saved and nothing said", what, key="unsaved")
                    continue
                saves += 1
                (sp, df), = list(disk.saved.items())[-1:]
                if sp != (path if rd["suffix"] else path + ".parquet") and sp != path:
                    raise Violation("saved to another file", what + sp, key="path")
                table_ok(df, plan, data, y, modes, drawn, refs[rd["via"]][0], rd["via"], what)
                key = "cli" if rd["via"] == "cli" else "api"
                t = calls.plain(df)
                if key in tables and "seed" in c:
                    dd = calls.diff(t, tables[key], 0.0)
                    if dd:
                        raise Violation("saved table not reproducible", what + dd, key="table-repro")
                tables[key] = t
            states.append(digest([rd["o"], rd["via"], c["kw"]["method"], "y_resamples" in c["kw"], "seed" in c,
                                  "bins_specs" in c["kw"], plan["const"], rd["suffix"]]))
    return {"states": states, "nontrivial": bool(hist), "digest": digest([hist, [calls.fp(t) for t in tables.values()]]),
            "sample": {"kw": c["kw"], "seed": c.get("seed"), "saves": hist}}


def table_ok(df, plan, data, y, modes, drawn, want, via, what):
    import numpy as np
    p, X, Y = data
    cols = {str(k): df[k].to_numpy() for k in df.columns}
    expected = []
    si = want[1] if via != "cli" else None
    for i, n in enumerate(p["names"]):
        for m in modes:
            col = "%s_%s" % (n, m)
            if si is not None and not np.isfinite(np.asarray(si["delta_" + m], dtype=float)[i]):
                continue
            if plan["const"] and i == len(p["names"]) - 1:
                continue
            if si is None and m == "step" and col not in cols:
                continue
            expected.append((i, m, col))
    missing = [c for _, _, c in expected if c not in cols]
    if missing:
        raise Violation("saved table incomplete", what + "missing %s of %s" % (missing, sorted(cols)), key="table-missing")
    extra = set(cols) - {c for _, _, c in expected}
    if extra and si is not None and any(np.isfinite(cols[c]).any() for c in extra):
        raise Violation("saved table holds more than the kept draws", what + str(extra), key="table-extra")
    for j, (i, m, col) in enumerate(expected):
        v = np.asarray(cols[col], dtype=float)
        if len(v) != y:
            raise Violation("saved draws incomplete", what + "%s has %d of %d rows" % (col, len(v), y), key="table-rows")
        if not np.isin(v, X[:, i]).all():
            raise Violation("saved draws are not the parameter's", what + "%s: %s" % (col, v[~np.isin(v, X[:, i])][:5]),
                            key="table-values")
        if m == "step" and abs(int((v <= 0).sum()) - y // 2) > 1:
            raise Violation("saved step draws are not the step subset", what + "%s: %d of %d <= 0" % (col, (v <= 0).sum(), y),
                            key="table-mode")
        if len(drawn) == len(expected) and drawn[j] is not None and drawn[j].dtype.kind in "iu" and len(drawn[j]) == y:
            if drawn[j].max() < len(X) and common.np_exact(v, X[drawn[j], i]):
                raise Violation("saved draws are not the draws the index was computed from", what + col, key="table-draws")


def shrink(plan):
    for i in range(len(plan["rounds"])):
        q = copy.deepcopy(plan)
        del q["rounds"][i]
        yield q
