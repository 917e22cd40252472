"""C20: threads may share one problem, its data and its results.

Several threads work at the same time with the very same problem (a dictionary or a
ProblemSpec), input and output arrays, and analysis result: analysing columns of the shared
outputs, drawing further samples for the problem, making tables of the shared result, or
running a chain of their own on a problem object built from the shared definition.
"""
import copy
import random

from .. import calls, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate
from ..threads import Threads
from . import c15


def setup():
    common.preload()


DESIGNS = ["sobol", "sobol", "saltelli", "latin", "latin", "finite_diff", "morris", "morris", "fast_sampler", "ff"]


def gen(rng, tier, idx):
    f = rng.choice(DESIGNS)
    c = calls.gen_sample(rng, f, dmax=4, groups=0.4, seed="int", small=True, dists=0.5)
    p = c["problem"]
    if p.get("dists") and not set(p["dists"]) <= set(calls.BOUNDED):
        p["dists"] = ["unif"] * p["num_vars"]
        p["bounds"] = [calls._bound(rng, "unif") for _ in p["bounds"]]
        p.pop("_bounds", None)
    if f == "latin":
        c["kw"]["N"] = rng.choice([60, 80, 170] + [300] * (rng.random() < 0.15))
        if c["kw"]["N"] == 300 and p["num_vars"] > 3:
            c["kw"]["N"] = 170
    n = rng.choice([2, 2, 2, 3, 4])
    rush = rng.choice([None, None, "sample", "analyze", "analyze", "look", "chain"])
    ths = [[gen_op(rng, c) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
    if rush:
        # everyone comes at once for the same kind of thing
        ths = [[gen_op(rng, c, rush)] for _ in range(n)]
    if rng.random() < 0.5:
        # the same work on other columns or with other seeds
        for t in ths[1:]:
            t[0] = dict(ths[0][0], seed=rng.choice([ths[0][0]["seed"], rng.randrange(2**31)]), y=rng.randrange(9))
    return {"sample": c, "models": calls.gen_model(rng, rng.choice([1, 2, 3])), "threads": ths,
            "form": rng.choice(["dict", "dict", "spec"]), "fresh": rng.random() < 0.5, "seed0": rng.randrange(2**31),
            "grain": 1 if rush and rng.random() < 0.5 else rng.randrange(4), "world": common.gen_world(rng)}


def gen_op(rng, c, k=None):
    k = k or rng.choice(["analyze", "analyze", "analyze", "analyze", "sample", "look", "chain"])
    op = {"k": k, "s": rng.randrange(2**31), "seed": rng.choice([0, 1, rng.randrange(2**31)]), "y": rng.randrange(9),
          "bins": False, "col": False, "an": rng.randrange(1000)}
    if k in ("sample", "chain"):
        names = ["sobol", "saltelli", "latin", "finite_diff", "morris"]
        if c["f"] == "sample.ff":
            names = ["ff", "latin", "finite_diff", "sobol"]
        if k == "chain":
            # the shared definition padded or not: the chain starts from it as it is
            names = [x for x in names if x != "ff"]
        nm = rng.choice(names)
        g = calls.gen_sample(rng, nm, small=True, seed="int", big=False)
        op["f"], op["kw"] = g["f"], g["kw"]
    return op


def draw(p, f, kw, seed):
    kw = copy.deepcopy(kw)
    if f != "sample.saltelli":
        kw["seed"] = seed
    return calls.sampler(f[7:]).sample(p, **kw)


def chain(p, op, model, D):
    from SALib import ProblemSpec
    sp = ProblemSpec(p)
    kw = copy.deepcopy(op["kw"])
    if op["f"] != "sample.saltelli":
        kw["seed"] = op["seed"]
    sp.sample(calls.sampler(op["f"][7:]).sample, **kw)
    sp.evaluate(model)
    X, Y = sp.samples, sp.results
    a, akw = c15.analysis({"sampler": op["f"][7:], "Xc": X, "kw": op["kw"]}, op, D)
    if Y.ndim == 1 or a not in calls.HEAVY:
        sp.analyze(calls.analyzer(a).analyze, **akw)
    return {"X": X, "Y": Y, "S": sp.analysis}


def do(op, p, X, Y, Si, plan, D):
    """One step of a thread, given what is (or is not) shared."""
    k = op["k"]
    if k == "sample":
        return calls.outcome(draw, p, op["f"], op["kw"], op["seed"])
    if k == "look":
        return calls.outcome(lambda: [Si.to_df(), dict(Si)])
    if k == "chain":
        return calls.outcome(chain, p, op, calls.Model(plan["models"]), D)
    a, kw = c15.analysis({"sampler": plan["sample"]["f"][7:], "Xc": X, "kw": plan["sample"]["kw"]}, op, D)
    y = Y if Y.ndim == 1 else Y[:, op["y"] % Y.shape[1]]
    args = (X, y) if a in calls.NEEDS_X else (y,)
    return calls.outcome(calls.analyzer(a).analyze, p, *args, **kw)


def base(plan):
    """The shared things, made afresh (always the same)."""
    p = calls.as_problem(plan["sample"]["problem"])
    if plan["form"] == "spec":
        from SALib import ProblemSpec
        p = ProblemSpec(p)
    if plan["fresh"] and plan["sample"]["f"] != "sample.ff":
        # no call has seen the shared problem yet
        X = calls.run_sample(plan["sample"], calls.as_problem(plan["sample"]["problem"]))
    else:
        X = calls.run_sample(plan["sample"], p)
    Y = calls.Model(plan["models"])(X)
    D = p["num_vars"]
    op = {"k": "analyze", "s": plan["seed0"], "seed": plan["seed0"] % 1000, "y": 0, "bins": False, "col": False, "an": 0}
    a, kw = c15.analysis({"sampler": plan["sample"]["f"][7:], "Xc": X, "kw": plan["sample"]["kw"]}, op, D)
    y = Y if Y.ndim == 1 else Y[:, 0].copy()
    Si = calls.analyzer(a).analyze(copy.deepcopy(p) if plan["form"] == "dict" else calls.as_problem(dict(p)),
                                   *((X.copy(), y.copy()) if a in calls.NEEDS_X else (y.copy(),)), **kw)
    return p, X, Y, Si, D


def ref(plan, op):
    with common.quiet():
        p, X, Y, Si, D = base(plan)
        return do(op, p, X, Y, Si, plan, D)


def possible(plan):
    with common.quiet():
        base(plan)


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    try:
        fresh.alone(possible, plan)
    except RuntimeError as e:
        raise Skip(str(e)[-300:])
    refs = [[fresh.alone(ref, plan, op) for op in t] for t in plan["threads"]]
    if not any(r[0] == "ok" for t in refs for r in t):
        raise Skip("no valid call")
    with activate(w), common.quiet():
        p, X, Y, Si, D = base(plan)
        before = c15.definition(p), X.copy(), Y.copy(), calls.plain(Si)

        def work(t):
            return [do(op, p, X, Y, Si, plan, D) for op in t]
        th = Threads([lambda t=t: work(t) for t in plan["threads"]], plan["grain"])
        out = th.run()
        after = c15.definition(p), X, Y, calls.plain(Si)
    names = [[o["k"] + ":" + o.get("f", "")[7:] for o in t] for t in plan["threads"]]
    for t, got, want in zip(plan["threads"], out, refs):
        for i, op in enumerate(t):
            g = got[i] if isinstance(got, list) else got
            what = "%s on a shared %s (design %s) among %s, %d switches" % (
                op["k"] + ":" + op.get("f", ""), plan["form"], plan["sample"]["f"], names, th.switches)
            key = op["k"] + ":" + (op.get("f") or plan["sample"]["f"])
            if g is None or g[0] != want[i][0]:
                raise Violation("outcome differs from running alone", "%s: %s instead of %s" % (
                    what, str(g)[:300], str(want[i])[:200]), key="outcome:" + key)
            if g[0] == "ok":
                d = calls.diff(g[1], want[i][1], 1e-6)
                if d:
                    raise Violation("result differs from running alone", "%s: %s" % (what, d), key="result:" + key)
    if before[0] != after[0]:
        k = [x for x in before[0] if before[0][x] != after[0][x]][0]
        raise Violation("shared problem changed", "%s: %s instead of %s among %s" % (k, after[0][k], before[0][k], names),
                        key="definition:" + k)
    for k, a, b in (("samples", before[1], after[1]), ("outputs", before[2], after[2])):
        d = common.np_exact(a, b)
        if d:
            raise Violation("shared %s changed" % k, "%s among %s" % (d, names), key="array:" + k)
    d = calls.diff(before[3], after[3], 0.0)
    if d:
        raise Violation("shared result changed", "%s among %s" % (d, names), key="shared-result")
    world.fault("preemption", th.switches)
    return {"states": [digest([names, sorted(th.points)[:200], th.switches])], "nontrivial": th.switches > 0,
            "digest": digest([[[calls.fp(x) for x in o] for o in out], th.switches, th.lines]),
            "sample": {"threads": names, "design": plan["sample"]["f"], "switches": th.switches, "lines": th.lines}}


def shrink(plan):
    n = len(plan["threads"])
    for i in range(n):
        if n > 2:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            p.pop("sched", None)
            yield p
        for j in range(len(plan["threads"][i])):
            if len(plan["threads"][i]) > 1:
                p = copy.deepcopy(plan)
                del p["threads"][i][j]
                p.pop("sched", None)
                yield p
