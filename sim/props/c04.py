"""C04: failures in parallel workers surface, and leave everything as it was."""
from .. import calls, common
from ..common import Violation, world, digest
from ..env import activate

POOL = ["raise_before", "raise_after", "memory", "os_error", "unpicklable"]
MODEL = ["raise", "memory", "short", "long", "empty", "one", "scalar", "none", "cols"]


def setup():
    common.preload()


def _fault(rng, what, rows, kinds):
    r = rng.random()
    if r < 0.08:
        return {"pool": {"create": True}}
    if r < 0.2:
        return {"pool": {"interrupt_at": rng.choice([0, 0, 1, 1, 2, 3, 6])}}
    if what != "evaluate" or r < 0.5:
        ids = [rng.choice([0, 0, 1, 1, 2, 3, 5, 8]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        f = {"pool": {"tasks": {str(i): rng.choice(POOL) for i in ids}}}
        if what == "analyze" and rng.random() < 0.5:
            f = {"outputs": sorted({rng.randrange(4) for _ in range(rng.choice([1, 1, 2]))}),
                 "kind": rng.choice(["raise", "raise", "memory"]), "exc": common.gen_exc(rng)}
        return f
    fs = [{"kind": rng.choice(kinds), "row": rng.randrange(rows), "exc": common.gen_exc(rng)}]
    if rng.random() < 0.3:       # one worker a row short, another a row long: totals agree
        fs = [{"kind": "short", "row": 0}, {"kind": "long", "row": rows - 1}]
        if rng.random() < 0.5:
            fs[0]["kind"], fs[1]["kind"] = "long", "short"
    return {"model": fs}


def gen(rng, tier, idx):
    what = rng.choice(["evaluate", "evaluate", "evaluate", "analyze", "sobol"])
    plan = {"what": what, "world": common.gen_world(rng, cpus=(2, 3, 4, 8))}
    if what == "evaluate":
        plan["problem"] = calls.gen_problem(rng, 2, 4, 0.2, 0.0)
        nout = rng.choice([1, 1, 2, 3])
        plan["model"] = calls.gen_model(rng, nout)
        if nout == 1 and rng.random() < 0.3:
            plan["model"]["col2d"] = True
        plan["model0"] = dict(calls.gen_model(rng, nout), **({"col2d": True} if "col2d" in plan["model"] else {}))
        plan["rows"] = rng.choice([1, 2, 3, 4, 8, 13, 24])
        plan["xseed"] = rng.randrange(2**31)
        plan["prior"] = rng.choice(["none", "results", "analysis"])
        plan["extra"] = rng.random() < 0.3
        rows = plan["rows"]
    else:
        c = calls.gen_analyze(rng, "sobol" if what == "sobol" else
                              rng.choice(["sobol", "morris", "delta", "dgsm", "fast", "rbd_fast", "pawn",
                                          "rsa", "discrepancy", "ff"]), seed="int", dmax=4, small=True)
        c["model"] = calls.gen_model(rng, rng.choice([2, 3, 4]) if what == "analyze" else rng.choice([1, 1, 2]))
        plan["call"] = c
        plan["prior"] = rng.choice(["none", "analysis"])
        plan["via_spec"] = what == "analyze" or rng.random() < 0.7
        rows = 0
    plan["ops"] = []
    # a missing output column is only a mismatch once the outputs are known
    kinds = [k for k in MODEL if k != "cols" or plan["prior"] != "none"]
    for _ in range(rng.choice([1, 1, 2, 3])):
        plan["ops"].append({"nprocs": rng.choice([None, 2, 2, 3, 4, 7]), "fault": _fault(rng, what, rows, kinds)})
    plan["final"] = rng.choice([None, 2, 3, 4])
    return plan


class FaultyAnalysis:
    """Wraps an analysis; fails for the outputs whose first value is listed."""


def make_analysis(name, bad, kind, exc="Boom"):
    real = calls.analyzer(name).analyze
    if name in calls.NEEDS_X:
        def analyze(problem, X, Y, **kw):
            if bad and float(Y[0]) in bad:
                common.FIRED.append(kind)
                world.fault("analysis_" + kind)
                raise (MemoryError if kind == "memory" else common.EXC[exc or "Boom"])("injected")
            return real(problem, X, Y, **kw)
    else:
        def analyze(problem, Y, **kw):
            if bad and float(Y[0]) in bad:
                common.FIRED.append(kind)
                world.fault("analysis_" + kind)
                raise (MemoryError if kind == "memory" else common.EXC[exc or "Boom"])("injected")
            return real(problem, Y, **kw)
    return analyze


def attempt(fn, before_faults):
    """('ok', value) | ('raised', name); did an injected fault fire?"""
    common.FIRED.clear()
    try:
        r = ("ok", fn())
    except Exception as e:
        r = ("raised", type(e).__name__)
    except KeyboardInterrupt:
        r = ("raised", "KeyboardInterrupt")
    hurt = {k: v for k, v in world.faults.items()
            if k not in ("slow_worker", "clock_jump") and v != before_faults.get(k, 0)}
    return r, hurt


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    fired_any = 0
    states = []
    with activate(w), common.quiet():
        what = plan["what"]
        sp, run, want, faulty = (prep_eval if what == "evaluate" else prep_analysis)(plan)
        for i, op in enumerate(plan["ops"] + [{"nprocs": plan["final"], "fault": {}}]):
            f = op["fault"]
            before = common.snap(sp)
            before_faults = dict(world.faults)
            npools = len(world.pools)
            world.pool_faults = {"*": dict(f["pool"])} if "pool" in f else {}
            r, hurt = attempt(lambda: run(op, f), before_faults)
            world.pool_faults = {}
            desc = "op %d of %s nprocs=%s cpus=%s fault=%s fired=%s -> %s" % (i, what, op["nprocs"], world.cpus, f, hurt, str(r)[:200])
            if hurt and r[0] == "ok":
                raise Violation("a failed parallel call returned", desc, key="failure-hidden")
            if r[0] == "raised":
                if not hurt:
                    raise Violation("a call without a fault raised", desc, key="no-recovery")
                d = common.same_state(before, common.snap(sp))
                if d:
                    raise Violation("state changed by a failed call", desc + ": " + d, key="state-changed")
                fired_any += 1
            else:
                d = want(r[1], sp)
                if d:
                    raise Violation("wrong result" + (" after a failure" if fired_any else ""), desc + ": " + d,
                                    key="wrong-result")
                if plan["what"] == "evaluate":
                    fired_any += 0
            lk = [j for j in common.leaked() if j >= npools]
            if lk:
                raise Violation("worker pool left open", desc, key="pool-leak")
            states.append(digest([what, sorted(hurt), r[0], r[1] if r[0] == "raised" else "", op["nprocs"],
                                  [p.order for p in world.pools[npools:]]]))
    return {"states": states, "nontrivial": fired_any > 0, "digest": digest([world.ch.trace, states]),
            "sample": {"what": what, "ops": plan["ops"], "prior": plan["prior"]}}


def prep_eval(plan):
    X = common.rand_X(plan["problem"], plan["rows"], plan["xseed"])
    sp = common.spec(plan["problem"])
    sp.set_samples(X.copy())
    if plan["prior"] != "none":
        sp.evaluate(calls.Model(plan["model0"]))
    if plan["prior"] == "analysis":
        def analyze(problem, Y):
            from SALib.util import ResultDict
            return ResultDict(mean=Y.mean(), first=Y[0])
        if sp["num_vars"] > 1:
            sp.analyze(analyze)
    a, k = ((1.5,), {"b": -2.0}) if plan["extra"] else ((), {})
    expect = calls.Model(plan["model"])(X, *a, **k)

    def run(op, f):
        fs = [{"kind": m["kind"], "x0": float(X[m["row"], 0]), "exc": m.get("exc")} for m in f.get("model", [])]
        model = common.FaultyModel(plan["model"], fs)
        kw = dict(k)
        if op["nprocs"]:
            kw["nprocs"] = op["nprocs"]
        return sp.evaluate_parallel(model, *a, **kw).results

    def want(v, sp):
        return common.np_exact(v, expect) or common.np_exact(sp.results, expect) or \
            common.np_exact(sp.samples, X) or ("stale analysis kept" if sp.analysis is not None else None)
    return sp, run, want, None


def prep_analysis(plan):
    c = plan["call"]
    name = c["f"].split(".")[1]
    kw0 = dict(c["kw"])
    if "seed" in c:
        kw0["seed"] = c["seed"]
    sp = common.spec(c["problem"])
    X = calls.run_sample(c["sample"], sp)
    Y = calls.Model(c["model"])(X)
    sp.set_samples(X)
    sp.set_results(Y)
    ref = common.spec(c["problem"])
    calls.run_sample(c["sample"], ref)
    ref.set_samples(X)
    ref.set_results(Y)
    try:
        expect = calls.plain(ref.analyze(make_analysis(name, (), ""), **kw0).analysis)
    except Exception as e:
        raise common.Skip("this data cannot be analysed at all: %r" % e)
    if plan["prior"] == "analysis":
        def analyze(problem, Y):
            from SALib.util import ResultDict
            return ResultDict(mean=float(Y.mean()))
        sp.analyze(analyze)
    firsts = [float(Y[0])] if Y.ndim == 1 else [float(v) for v in Y[0]]
    sobol_par = plan["what"] == "sobol"

    def run(op, f):
        kw = dict(kw0)
        bad = {firsts[i % len(firsts)] for i in f.get("outputs", [])}
        func = make_analysis(name, bad, f.get("kind", ""), f.get("exc"))
        if sobol_par:
            kw.update(parallel=True, n_processors=op["nprocs"])
            if not plan["via_spec"]:
                y = Y if Y.ndim == 1 else Y[:, 0]
                return func(ref, y, **kw)
            return sp.analyze(func, **kw).analysis
        return sp.analyze_parallel(func, nprocs=op["nprocs"], **kw).analysis

    def want(v, sp):
        e = expect
        if sobol_par and not plan["via_spec"] and Y.ndim == 2:
            e = expect[list(expect)[0]]
        return calls.diff(calls.plain(v), e, calls.tol(name)) or common.np_exact(sp.results, Y) or \
            common.np_exact(sp.samples, X)
    return sp, run, want, None
