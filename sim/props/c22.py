"""C22: SALib may be used inside the samplers, models and analyses that SALib runs.

The functions given to a problem object (a sampler, a model, an analysis; run in the
caller's process, in pool workers or on cluster servers) use SALib themselves: other seeded
sampling and analysis calls, whole nested studies, nested to several levels, on their own
problems or on the definition of the problem they are called for, and failing ones whose
error they handle.  Inner and outer work must each give what they give alone.
"""
import copy

from .. import calls, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate

BAD, DONE = [], []


def setup():
    common.preload()


def gen_inner(rng, depth):
    k = rng.choice(["call", "call", "call", "study", "study", "fail"])
    if k == "study":
        # a whole study on a problem object, perhaps with work nested in it
        c = calls.gen_analyze(rng, small=True, seed="int", heavy=0.02)
        if c["f"] == "analyze.sobol" and "seed" not in c:
            c["seed"] = 1
        op = {"k": k, "call": c, "shared": rng.random() < 0.3, "inner": [], "in": rng.choice(["model", "analysis", "sampler"]),
              "par": rng.choice([None, None, 2, 3])}
        if depth < 2 and rng.random() < 0.5:
            op["inner"] = [gen_inner(rng, depth + 1) for _ in range(rng.choice([1, 2]))]
        return op
    c = calls.gen_sample(rng, small=True, seed="int") if rng.random() < 0.5 else \
        calls.gen_analyze(rng, small=True, seed="int", heavy=0.03)
    if c["f"] == "analyze.sobol" and "seed" not in c:
        c["seed"] = 1
    return {"k": k, "call": c}


def gen(rng, tier, idx):
    c = calls.gen_analyze(rng, small=True, seed="int", heavy=0.03, groups=0.3)
    if c["f"] == "analyze.sobol" and "seed" not in c:
        c["seed"] = 1
    ins = [gen_inner(rng, 0) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.5:
        # the nested work uses the method that is under way
        o = rng.choice(ins)
        if o["k"] != "fail":
            v = calls.gen_near(rng, c)["call"] if rng.random() < 0.7 else copy.deepcopy(c)
            if "seed" in c and "seed" not in v:
                v["seed"] = 3
            o["call"] = v
            if o["k"] == "study" and not v["f"].startswith("analyze."):
                o["k"] = "call"
    return {"call": c, "outs": rng.choice([1, 1, 2, 3]), "model": calls.gen_model(rng, 3), "inner": ins,
            "in": [rng.random() < 0.4, rng.random() < 0.7, rng.random() < 0.5],
            "eval": rng.choice(["serial", "serial", "parallel", "distributed"]), "nprocs": rng.choice([1, 2, 3]),
            "ana": rng.choice(["serial", "serial", "parallel"]), "world": common.gen_world(rng)}


def kwargs(c):
    kw = dict(c["kw"])
    if "seed" in c:
        kw["seed"] = calls.make_seed(c["seed"])
    return kw


def hooks(todo):
    """Functions to give a problem object that do `todo` on their way."""

    class M(calls.Model):
        def __call__(self, X, *a, **k):
            todo("model")
            y = calls.Model.__call__(self, X, *a, **k)
            todo("model")
            return y

    def sampler(name):
        real = calls.sampler(name).sample

        def sample(problem, **kw):
            todo("sampler")
            X = real(problem, **kw)
            todo("sampler")
            return X
        return sample

    def analyzer(name):
        real = calls.analyzer(name).analyze
        if name in calls.NEEDS_X:
            def analyze(problem, X, Y, **kw):
                todo("analysis")
                S = real(problem, X, Y, **kw)
                todo("analysis")
                return S
        else:
            def analyze(problem, Y, **kw):
                todo("analysis")
                S = real(problem, Y, **kw)
                todo("analysis")
                return S
        return analyze
    return M, sampler, analyzer


def study(c, model, outs, how, todo, definition=None):
    """A whole study on a problem object; its stages as plain values."""
    M, sampler, analyzer = hooks(todo)
    from SALib import ProblemSpec
    sp = ProblemSpec(definition) if definition is not None else common.spec(c["sample"]["problem"])
    s = c["sample"]
    sp.sample(sampler(s["f"][7:]), **kwargs(s))
    m = M(dict(model, k=model["k"][:outs]))
    if how["eval"] == "parallel":
        sp.evaluate_parallel(m, nprocs=how["nprocs"])
    elif how["eval"] == "distributed":
        sp.evaluate_distributed(m, nprocs=how["nprocs"], servers=["a:1", "b:1"])
    else:
        sp.evaluate(m)
    f, kw = analyzer(c["f"][8:]), kwargs(c)
    if how["ana"] == "parallel":
        sp.analyze_parallel(f, nprocs=how["nprocs"], **kw)
    else:
        sp.analyze(f, **kw)
    return [sp.samples, sp.results, sp.analysis]


PLAIN = {"eval": "serial", "nprocs": 1, "ana": "serial"}


def nothing(where):
    pass


def do(op):
    """The nested work; its own nested work is checked on the way."""
    if op["k"] == "study":
        from .. import pools
        how = dict(PLAIN)
        if op["par"] and pools._state["in_task"] is None:
            how = {"eval": "parallel", "nprocs": op["par"], "ana": "serial"}
        todo = nothing
        if op["inner"]:
            def todo(where):
                if where == op["in"]:
                    work(op["inner"])
        return calls.outcome(study, op["call"], op["call"]["model"], 1, how, todo)
    if op["k"] == "fail":
        # something that goes wrong, handled by the caller
        c = op["call"]
        if c["f"].startswith("sample."):
            p = calls.as_problem(c["problem"])
            p["bounds"] = [[1, 0]] * len(p["bounds"])
            return calls.outcome(calls.run_sample, c, p)
        p, X, Y = calls.make_data(c)
        return calls.outcome(calls.run_analyze, c, (p, X[:-1], Y[:-1]))
    return calls.outcome(calls.run_call, op["call"])


def name(op):
    return op["k"] + ":" + op["call"]["f"]


def ref(op):
    with common.quiet():
        return do(dict(op, inner=[], par=None))


def outer_ref(plan):
    with common.quiet():
        return study(plan["call"], plan["model"], plan["outs"], PLAIN, nothing)


def flat(ops):
    for o in ops:
        yield o
        yield from flat(o.get("inner", []))


def work(ops):
    for op in ops:
        world_depth[0] += 1
        try:
            with common.quiet():
                got = do(op)
        finally:
            world_depth[0] -= 1
        DONE.append((name(op), world_depth[0]))
        want = op["ref"]
        if got[0] != want[0]:
            BAD.append((name(op), "outcome", "%s instead of %s" % (str(got)[:200], str(want)[:200])))
        elif got[0] == "ok":
            d = calls.diff(got[1], want[1], 1e-6)
            if d:
                BAD.append((name(op), "result", d))


world_depth = [0]


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    plan = copy.deepcopy(plan)
    for op in flat(plan["inner"]):
        op["ref"] = fresh.alone(ref, op)
    try:
        want = fresh.alone(lambda p: calls.plain(outer_ref(p)), plan)
    except RuntimeError as e:
        raise Skip(str(e)[-300:])
    BAD.clear()
    DONE.clear()
    where = dict(zip(("sampler", "model", "analysis"), plan["in"]))

    def todo(at):
        if where[at]:
            work(plan["inner"])
    with activate(w), common.quiet():
        got = calls.outcome(study, plan["call"], plan["model"], plan["outs"], plan, todo)
    names = [name(o) for o in plan["inner"]]
    what = "%s with %s inside %s, evaluation %s, analysis %s" % (
        plan["call"]["f"], names, sorted(k for k in where if where[k]), plan["eval"], plan["ana"])
    if BAD:
        n, kind, d = BAD[0]
        raise Violation("nested call differs from running alone", "%s: %s %s: %s" % (what, n, kind, d),
                        key="nested-%s:%s" % (kind, n))
    if got[0] != "ok":
        raise Violation("outer study failed", "%s: %s" % (what, got), key="outer-outcome:" + plan["call"]["f"])
    for stage, a, b in zip(("samples", "results", "analysis"), got[1], want):
        d = calls.diff(a, b, 1e-6)
        if d:
            raise Violation("outer study differs from running alone", "%s: %s: %s" % (what, stage, d),
                            key="outer:%s:%s" % (stage, plan["call"]["f"]))
    return {"states": [digest([plan["call"]["f"], d[0], d[1]]) for d in DONE], "nontrivial": bool(DONE),
            "digest": digest([calls.fp(got), len(DONE)]),
            "sample": {"outer": plan["call"]["f"], "inner": names, "nested calls made": len(DONE)}}


def shrink(plan):
    for i in range(len(plan["inner"])):
        if len(plan["inner"]) > 1:
            p = copy.deepcopy(plan)
            del p["inner"][i]
            yield p
        if plan["inner"][i].get("inner"):
            p = copy.deepcopy(plan)
            p["inner"][i]["inner"] = []
            yield p
    for i in range(3):
        if plan["in"][i]:
            p = copy.deepcopy(plan)
            p["in"][i] = False
            yield p
    for k, v in (("eval", "serial"), ("ana", "serial"), ("outs", 1)):
        if plan[k] != v:
            p = copy.deepcopy(plan)
            p[k] = v
            yield p
