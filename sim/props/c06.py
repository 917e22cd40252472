"""C06: histories of operations on one ProblemSpec against a reference state machine."""
import random

from .. import calls, common
from ..common import Violation, world, digest
from ..env import activate

REAL = ["pawn", "rsa", "rbd_fast", "discrepancy", "delta"]


def setup():
    common.preload()


def gen(rng, tier, idx):
    p = calls.gen_problem(rng, 2, 4, 0.2, 0.15, calls.BOUNDED)
    outs = rng.choice([None, None, None, 1, 2])
    ops = []
    n = rng.choice([3, 5, 8, 12, 18]) if tier == "quick" else rng.choice([5, 10, 20, 40])
    for _ in range(n):
        ops.append(gen_op(rng, p))
    return {"problem": p, "outs": outs, "ops": ops, "world": common.gen_world(rng)}


def gen_op(rng, p):
    k = rng.choice(["set_samples", "samples=", "sample", "sample", "sample_bad", "sample_raise",
                    "set_samples_bad", "set_results", "set_results", "results=", "set_results_rows",
                    "results=_rows", "results_cols", "evaluate", "evaluate", "evaluate", "evaluate_raise",
                    "evaluate_rows", "evaluate_cols", "evaluate_par", "evaluate_par_fault", "evaluate_dist",
                    "analyze", "analyze", "analyze", "analyze_raise", "analyze_par", "analyze_par_fault",
                    "analyze_real", "to_df", "samples_same", "look"])
    return {"k": k, "rows": rng.choice([1, 2, 3, 5, 8, 20, 40]), "s": rng.randrange(2**31),
            "outs": rng.choice([1, 1, 1, 1, 2, 2, 3]), "col2d": rng.random() < 0.2,
            "withX": rng.random() < 0.6, "at": rng.randrange(3),
            "exc": rng.choice(["boom", "memory", "interrupt"]), "nprocs": rng.choice([2, 3, 4, 8]),
            "real": rng.choice(REAL), "method": rng.choice(["latin", "sobol", "morris", "latin"]),
            "way": rng.random() < 0.5, "pf": rng.choice(["raise_before", "raise_after", "memory"])}


def _exc(op):
    return {"boom": common.Boom("injected"), "memory": MemoryError("injected"),
            "interrupt": KeyboardInterrupt("injected")}[op["exc"]]


def probe(X, Y):
    """An analysis that tells exactly which data it saw."""
    import numpy as np
    Y = np.asarray(Y, dtype=float).ravel()
    w = np.arange(1, len(Y) + 1)
    out = {"ysum": np.array([float((Y * w).sum()), len(Y)])}
    if X is not None:
        out["xsum"] = np.array([float((X * w[: len(X), None]).sum()), X.shape[0], X.shape[1]]) \
            if len(X) <= len(w) else np.array([0.0, X.shape[0], X.shape[1]])
    return out


def make_probe(op, fail=None):
    from SALib.util import ResultDict
    seen = []

    def hit():
        seen.append(1)
        if fail is not None and len(seen) > fail:
            world.fault("analysis_" + op["exc"])
            raise _exc(op)
    if op["withX"]:
        def analyze(problem, X, Y):
            hit()
            return ResultDict(probe(X, Y))
    else:
        def analyze(problem, Y):
            hit()
            return ResultDict(probe(None, Y))
    return analyze


class Ref:
    def __init__(self, outs):
        self.S = self.R = self.A = None
        self.outs = outs          # number of outputs once known
        self.fits = True          # stored results have the samples' row count


def execute(plan):
    import numpy as np
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    p = plan["problem"]
    D = p["num_vars"]
    ref = Ref(plan["outs"])
    states = set()
    nontrivial = 0
    with activate(w), common.quiet():
        sp = common.spec(p, ["out%d" % i for i in range(plan["outs"])] if plan["outs"] else None)
        for i, op in enumerate(plan["ops"]):
            k = op["k"]
            must = None           # "ok" / "raise" / None (either)
            upd = None            # state after success
            world.pool_faults = {}
            rows = len(ref.S) if ref.S is not None else op["rows"]
            nm = calls.gen_model(random.Random(op["s"]), op["outs"])
            if op["outs"] == 1 and op["col2d"]:
                nm["col2d"] = True
            model = calls.Model(nm)
            cols_ok = ref.outs is None or ref.outs == op["outs"]

            def set_res(Y, fits):
                def u():
                    ref.R, ref.A, ref.fits = Y, None, fits
                    if ref.outs is None:
                        ref.outs = 1 if Y.ndim == 1 else Y.shape[1]
                return u

            def set_sam(X):
                def u():
                    ref.S, ref.R, ref.A, ref.fits = X, None, None, True
                return u

            def rand_Y(n, s):
                r = random.Random(s)
                Y = np.array([[r.uniform(-5, 5) for _ in range(op["outs"])] for _ in range(n)])
                Y = Y.reshape(n, op["outs"])
                return Y[:, 0].copy() if op["outs"] == 1 and not op["col2d"] else Y

            if k in ("set_samples", "samples="):
                X = common.rand_X(p, op["rows"], op["s"])
                Xc = X.copy()
                must, upd = "ok", set_sam(X)
                act = (lambda: sp.set_samples(Xc)) if k == "set_samples" else (lambda: setattr(sp, "samples", Xc))
            elif k == "samples_same":
                if ref.S is None:
                    continue
                X = ref.S.copy()
                must, upd = "ok", set_sam(X)
                act = lambda: sp.set_samples(X.copy())
            elif k == "sample":
                m = op["method"]
                kw = {"N": 8 if m == "sobol" else 6, "seed": op["s"] % 2**31}
                X = calls.sampler(m).sample(calls.as_problem(p), **kw)
                must, upd = "ok", set_sam(X)
                if op["way"]:
                    act = lambda: getattr(sp, "sample_" + m)(**kw)
                else:
                    act = lambda: sp.sample(calls.sampler(m).sample, **kw)
            elif k == "sample_bad":
                bad = np.zeros((op["rows"], D + (1 if op["way"] else -1)))
                must = "raise"
                act = lambda: sp.sample(lambda prob: bad)
            elif k == "sample_raise":
                def sampler(prob):
                    world.fault("sampler_" + op["exc"])
                    raise _exc(op)
                must = "raise"
                act = lambda: sp.sample(sampler)
            elif k == "set_samples_bad":
                bad = np.zeros((op["rows"], D + (1 if op["way"] else -1)))
                must = "raise"
                act = (lambda: sp.set_samples(bad)) if op["at"] else (lambda: setattr(sp, "samples", bad))
            elif k in ("set_results", "results="):
                Y = rand_Y(rows, op["s"])
                must = "ok" if cols_ok else "raise"
                upd = set_res(Y, True)
                Yc = Y.copy()
                act = (lambda: sp.set_results(Yc)) if k == "set_results" else (lambda: setattr(sp, "results", Yc))
            elif k in ("set_results_rows", "results=_rows"):
                if ref.S is None:
                    continue
                n = rows + (1 if op["way"] else -1)
                if n < 1:
                    n = rows + 2
                Y = rand_Y(n, op["s"])
                must = "raise" if k == "set_results_rows" or not cols_ok else None
                upd = set_res(Y, False)
                Yc = Y.copy()
                act = (lambda: sp.set_results(Yc)) if k == "set_results_rows" else (lambda: setattr(sp, "results", Yc))
            elif k == "results_cols":
                if ref.outs is None:
                    continue
                Y = np.zeros((rows, ref.outs + 1 + op["at"]))
                must = "raise"
                act = (lambda: sp.set_results(Y)) if op["way"] else (lambda: setattr(sp, "results", Y))
            elif k in ("evaluate", "evaluate_par", "evaluate_dist"):
                if ref.S is None:
                    must = "raise"
                else:
                    Y = model(ref.S)
                    must = "ok" if cols_ok else "raise"
                    upd = set_res(Y, True)
                if k == "evaluate":
                    act = lambda: sp.evaluate(model)
                elif k == "evaluate_dist":
                    act = lambda: sp.evaluate_distributed(model, nprocs=op["nprocs"], servers=["a", "b"])
                elif op["way"]:
                    act = lambda: sp.evaluate(model, nprocs=op["nprocs"])
                else:
                    act = lambda: sp.evaluate_parallel(model, nprocs=op["nprocs"])
            elif k == "evaluate_raise":
                def bad_model(X):
                    world.fault("model_" + op["exc"])
                    raise _exc(op)
                must = "raise"
                act = lambda: sp.evaluate(bad_model)
            elif k == "evaluate_rows":
                if ref.S is None:
                    continue
                n = rows + 1 if (op["way"] or rows < 2) else rows - 1
                Y = rand_Y(n, op["s"])
                upd = set_res(Y, False)
                must = None if cols_ok else "raise"
                world.fault("model_wrong_rows")
                act = lambda: sp.evaluate(lambda X: Y.copy())
            elif k == "evaluate_cols":
                if ref.S is None or ref.outs is None:
                    continue
                must = "raise"
                world.fault("model_wrong_cols")
                act = lambda: sp.evaluate(lambda X: np.zeros((rows, ref.outs + 1)))
            elif k == "evaluate_par_fault":
                if ref.S is None:
                    continue
                world.pool_faults = {"*": {"tasks": {"0": op["pf"]}}}
                must = "raise"
                act = lambda: sp.evaluate_parallel(model, nprocs=op["nprocs"])
            elif k in ("analyze", "analyze_par", "analyze_raise", "analyze_par_fault", "analyze_real"):
                if ref.R is None or not ref.fits:
                    must = "raise"
                fn = make_probe(op)
                multi = ref.outs is not None and ref.outs > 1
                if must != "raise":
                    Y = ref.R
                    S = ref.S
                    if k == "analyze_real":
                        if S is None or len(S) < 20 or D < 2:
                            continue
                        fn = calls.analyzer(op["real"]).analyze
                        kw = {"seed": 3}
                        if op["real"] == "delta":
                            kw["num_resamples"] = 2
                        one = lambda y: calls.outcome(lambda: fn(sp, X=S.copy(), Y=y.copy(), **kw))
                    else:
                        kw = {}
                        one = lambda y: ("ok", probe(S if op["withX"] else None, y))
                        if op["withX"] and S is None:
                            one = lambda y: ("ok", probe(None, y))
                    if multi:
                        parts = [one(Y[:, j]) for j in range(ref.outs)]
                        want = {o: q[1] for o, q in zip(sp["outputs"], parts)}
                        bad = [q for q in parts if q[0] != "ok"]
                    else:
                        q = one(Y)
                        want, bad = q[1], [] if q[0] == "ok" else [q]
                    if bad:
                        must = "raise"
                    else:
                        must = "ok"

                        def upd(want=want):
                            ref.A = want
                else:
                    kw = {}
                act = lambda: sp.analyze(fn, **kw)
                if k == "analyze_raise":
                    fn = make_probe(op, op["at"] if multi and ref.outs > op["at"] else 0)
                    must = "raise"
                elif k == "analyze_par":
                    act = lambda: sp.analyze_parallel(fn, nprocs=op["nprocs"], **kw)
                elif k == "analyze_par_fault":
                    if not multi:
                        continue
                    world.pool_faults = {"*": {"tasks": {str(op["at"] % ref.outs): op["pf"]}}}
                    must = "raise"
                    act = lambda: sp.analyze_parallel(fn, nprocs=op["nprocs"], **kw)
            elif k == "to_df":
                must = "raise" if ref.A is None else None
                act = lambda: sp.to_df()
            elif k == "look":
                act = lambda: look(sp, op)
            try:
                act()
                got = "ok"
            except Exception as e:
                got = "raise"
                err = type(e).__name__
            except KeyboardInterrupt:
                got = "raise"
                err = "KeyboardInterrupt"
            world.pool_faults = {}
            what = "op %d %s (samples %s, results %s, analysis %s) -> %s" % (
                i, {a: b for a, b in op.items() if a in ("k", "rows", "outs", "way", "withX", "at", "method")},
                None if ref.S is None else ref.S.shape, None if ref.R is None else ref.R.shape,
                ref.A is not None, got if got == "ok" else err)
            if must == "raise" and got == "ok":
                raise Violation("accepted a step that must be refused", what, key="accepted:" + k.split("_")[0].rstrip("="))
            if must == "ok" and got != "ok":
                raise Violation("refused a valid step", what, key="refused:" + k.split("_")[0].rstrip("="))
            before = (ref.S is not None, ref.R is not None, ref.A is not None)
            if got == "ok" and upd:
                upd()
                nontrivial += 1
            check(ref, sp, what)
            states.add(digest([before, k, got, op["outs"], ref.fits]))
    return {"states": sorted(states), "nontrivial": nontrivial > 1, "digest": digest([world.ch.trace, sorted(states)]),
            "sample": [[o["k"], o["rows"], o["outs"]] for o in plan["ops"]]}


def look(sp, op):
    """Any of the ways to look at a problem."""
    how = op["s"] % 8
    if how < 3:
        str(sp)
    elif how == 3:
        class P:
            def text(self, t):
                pass
        sp._repr_pretty_(P(), False)
    elif how == 4:
        repr(sp)
    elif how == 5:
        sp.to_df()
    else:
        import matplotlib.pyplot as plt
        try:
            (sp.plot if how == 6 else sp.heatmap)()
        finally:
            plt.close("all")


def check(ref, sp, what):
    for n, want, got in (("samples", ref.S, sp.samples), ("results", ref.R, sp.results)):
        if (want is None) != (got is None):
            raise Violation("%s %s" % (n, "kept though they no longer apply" if want is None else "lost"), what,
                            key="stale-" + n if want is None else "lost-" + n)
        if want is not None:
            d = common.np_exact(got, want)
            if d:
                raise Violation("%s are not the ones last set" % n, what + ": " + d, key="wrong-" + n)
    if (ref.A is None) != (sp.analysis is None):
        raise Violation("analysis %s" % ("kept though it no longer applies" if ref.A is None else "lost"), what,
                        key="stale-analysis" if ref.A is None else "lost-analysis")
    if ref.A is not None:
        d = calls.diff(calls.plain(sp.analysis), calls.plain(ref.A), 1e-9)
        if d:
            raise Violation("analysis is not that of the stored samples and results", what + ": " + d,
                            key="wrong-analysis")
