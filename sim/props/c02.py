"""C02: parallel analysis of several outputs == serial analysis of each."""
import numpy as np

from .. import calls, common
from ..common import Violation, world, digest
from ..env import activate


def setup():
    common.preload()


def gen(rng, tier, idx):
    c = calls.gen_analyze(rng, groups=0.4, seed="int", heavy=0.06, small=True)
    nout = rng.choice([1, 2, 2, 2, 3, 3, 4, 6, 9, 12]) if c["f"].split(".")[1] not in calls.HEAVY else 2
    c["model"] = calls.gen_model(rng, nout)
    if nout > 6:
        c["kw"]["num_resamples"] = min(3, c["kw"]["num_resamples"]) if "num_resamples" in c["kw"] else None
        if c["kw"]["num_resamples"] is None:
            del c["kw"]["num_resamples"]
    # a model may write other types than float64; an output may be the same everywhere, or missing somewhere
    c["model"]["form"] = rng.choice([None] * 5 + ["f4", "int"])
    c["model"]["odd"] = [rng.randrange(nout), rng.choice(["const", "nan"])] if rng.random() < 0.12 else None
    names = None
    if rng.random() < 0.6:
        names = ["out%s" % s for s in rng.sample("zyxwvutsabcdefg", nout)]
    ops = [{"via": rng.choice(["analyze", "parallel", "parallel", "method"]),
            "nprocs": rng.choice([None, 1, 2, 2, 3, 4, 6, 9, 32])}
           for _ in range(rng.choice([1, 1, 2]))]
    return {"call": c, "names": names, "ops": ops, "world": common.gen_world(rng)}


def outputs(c, X):
    Y = calls.Model(c["model"])(X)
    odd = c["model"].get("odd")
    if odd and Y.dtype.kind == "f":
        Yo = Y if Y.ndim == 1 else Y[:, odd[0]]
        if odd[1] == "const":
            Yo[:] = 1.5
        else:
            Yo[len(Yo) // 3] = np.nan
    return Y


def build(plan):
    c = plan["call"]
    sp = common.spec(c["problem"], plan["names"])
    X = calls.run_sample(c["sample"], sp)
    Y = outputs(c, X)
    sp.set_samples(X)
    sp.set_results(Y)
    return sp, X, Y


def kwargs(c):
    kw = dict(c["kw"])
    if "seed" in c:
        kw["seed"] = calls.make_seed(c["seed"])
    return kw


def dfs(sp):
    try:
        return calls.plain(sp.to_df())
    except Exception as e:
        return "err:" + type(e).__name__


def execute(plan):
    c = plan["call"]
    name = c["f"].split(".")[1]
    tol = calls.tol(name)
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    ok = False
    with activate(w), common.quiet():
        func = calls.analyzer(name).analyze
        ref, X, Y = build(plan)
        want = calls.outcome(lambda: ref.analyze(func, **kwargs(c)).analysis)
        wdf = dfs(ref) if want[0] == "ok" else None
        outs = list(ref["outputs"])
        for op in plan["ops"]:
            sp, X1, Y1 = build(plan)
            kw = kwargs(c)
            if op["via"] == "parallel":
                call = lambda: sp.analyze_parallel(func, nprocs=op["nprocs"], **kw).analysis
            elif op["via"] == "method":
                call = lambda: getattr(sp, "analyze_" + name)(nprocs=op["nprocs"], **kw).analysis
            else:
                call = lambda: sp.analyze(func, nprocs=op["nprocs"], **kw).analysis
            got = calls.outcome(call)
            what = "%s, %d outputs, nprocs=%s, cpus=%s" % (name, len(outs), op["nprocs"], world.cpus)
            if got[0] != want[0]:
                raise Violation("parallel analysis %s where serial %s" % (got[0], want[0]),
                                "%s: parallel %s, serial %s" % (what, str(got)[:300], str(want)[:300]),
                                key="parallel-outcome")
            if want[0] == "err":
                continue
            ok = True
            if len(outs) > 1 and list(got[1]) != outs:
                raise Violation("outputs lost or renamed", "%s: %s instead of %s" % (what, list(got[1]), outs),
                                key="output-names")
            d = calls.diff(got[1], want[1], tol)
            if d:
                raise Violation("parallel indices differ from serial", what + ": " + d, key="parallel-ne-serial")
            d = calls.diff(dfs(sp), wdf, tol)
            if d:
                raise Violation("parallel tables differ from serial", what + ": " + d, key="parallel-ne-serial")
            if common.np_exact(sp.samples, X) or common.np_exact(sp.results, Y):
                raise Violation("samples or results changed", what, key="data-changed")
        # each output analysed on its own
        if ok and len(outs) > 1:
            for i, o in enumerate(outs):
                p1 = common.spec(c["problem"])
                X1 = calls.run_sample(c["sample"], p1)
                one = calls.outcome(calls.run_analyze, dict(c), (p1, X1, Y[:, i]))
                if one[0] != "ok":
                    raise Violation("output analysed in parallel but not alone", "%s %s: %s" % (name, o, one),
                                    key="single-output")
                d = calls.diff(want[1][o], one[1], tol)
                if d:
                    raise Violation("indices of an output are not its own", "%s output %s: %s" % (name, o, d),
                                    key="single-output")
    o = common.orders()
    return {"states": o + [name], "nontrivial": ok and bool(o), "digest": digest([world.ch.trace, o, calls.fp(want)]),
            "sample": {"method": name, "outputs": outs, "ops": plan["ops"],
                       "completion_orders": [p.order for p in world.pools][:3]}}
