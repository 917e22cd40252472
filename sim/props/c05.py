"""C05: evaluation over job servers == serial, or a clear failure."""
from .. import calls, common
from ..common import Violation, world, digest
from ..env import activate
from .c04 import attempt, MODEL


def setup():
    common.preload()


def gen(rng, tier, idx):
    nout = rng.choice([1, 1, 2, 3])
    m = calls.gen_model(rng, nout)
    if nout == 1 and rng.random() < 0.3:
        m["col2d"] = True
    m["form"] = rng.choice(["plain", "plain", "loop", "int", "f4", "bool", "nonempty"])
    rows = rng.choice([1, 2, 3, 4, 7, 10, 16, 31, 60])
    plan = {"problem": calls.gen_problem(rng, 2, 4, 0.2, 0.0), "model": m, "rows": rows,
            "model0": dict(calls.gen_model(rng, nout), **({"col2d": True} if "col2d" in m else {})),
            "xseed": rng.randrange(2**31), "prior": rng.choice(["none", "results", "analysis"]),
            "world": common.gen_world(rng), "ops": []}
    kinds = [k for k in MODEL if k != "cols" or plan["prior"] != "none"]
    for i in range(rng.choice([1, 1, 2, 3])):
        f = {}
        r = rng.random()
        if r < 0.1:
            f = {"pool": {"create": True}}
        elif r < 0.2:
            f = {"pool": {"map_error": True}}
        elif r < 0.28:
            f = {"pool": {"interrupt_at": rng.choice([0, 1, 2, 4])}}
        elif r < 0.5:
            f = {"pool": {"tasks": {str(rng.choice([0, 0, 1, 2, 3, 5])):
                                    rng.choice(["raise_before", "raise_after", "memory", "os_error", "unpicklable"])
                                    for _ in range(rng.choice([1, 1, 2]))}}}
        elif r < 0.65:
            f = {"model": [{"kind": rng.choice(kinds), "row": rng.randrange(rows), "exc": common.gen_exc(rng)}]}
        plan["ops"].append(_op(rng, f))
    plan["ops"].append(_op(rng, {}))
    return plan


def _op(rng, f):
    return {"fault": f, "nprocs": rng.choice([None, 1, 1, 2, 3, 4]),
            "servers": rng.choice([None, [], 1, 1, 2, 3, 5]), "verbose": rng.random() < 0.2,
            "extra": rng.choice(["none", "args", "kwargs", "both"]),
            "a": round(rng.uniform(-3, 3), 3), "b": round(rng.uniform(0.5, 3), 3)}


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    failed, states = 0, []
    with activate(w), common.quiet():
        X = common.rand_X(plan["problem"], plan["rows"], plan["xseed"])
        sp = common.spec(plan["problem"])
        sp.set_samples(X.copy())
        if plan["prior"] != "none":
            sp.evaluate(calls.Model(plan["model0"]))
        if plan["prior"] == "analysis":
            def analyze(problem, Y):
                from SALib.util import ResultDict
                return ResultDict(mean=Y.mean(), first=Y[0])
            sp.analyze(analyze)
        for i, op in enumerate(plan["ops"]):
            f = op["fault"]
            fs = [{"kind": m["kind"], "x0": float(X[m["row"], 0]), "exc": m.get("exc")} for m in f.get("model", [])]
            model = common.FaultyModel(plan["model"], fs)
            e = op["extra"]
            a = (op["a"], op["b"]) if e == "args" else (op["a"],) if e == "both" else ()
            k = {"a": op["a"], "b": op["b"]} if e == "kwargs" else {"b": op["b"]} if e == "both" else {}
            expect = calls.Model(plan["model"])(X, *a, **k)
            kw = dict(k)
            if op["nprocs"]:
                kw["nprocs"] = op["nprocs"]
            s = op["servers"]
            if s is not None:
                kw["servers"] = ["node%d:6000" % j for j in range(s)] if isinstance(s, int) else s
            if op["verbose"]:
                kw["verbose"] = True
            before, bf, np0 = common.snap(sp), dict(world.faults), len(world.pools)
            world.pool_faults = {"*": dict(f["pool"])} if "pool" in f else {}
            r, hurt = attempt(lambda: sp.evaluate_distributed(model, *a, **kw).results, bf)
            world.pool_faults = {}
            desc = "op %d %s fired=%s -> %s" % (i, {q: v for q, v in op.items()}, hurt, str(r)[:200])
            if hurt and r[0] == "ok":
                raise Violation("a failed distributed call returned", desc, key="failure-hidden")
            if r[0] == "raised":
                if not hurt:
                    raise Violation("a distributed call without a fault raised", desc, key="no-recovery")
                d = common.same_state(before, common.snap(sp))
                if d:
                    raise Violation("state changed by a failed distributed call", desc + ": " + d, key="state-changed")
                failed += 1
            else:
                d = ("type %s vs %s" % (r[1].dtype, expect.dtype) if r[1].dtype != expect.dtype else None) or \
                    common.np_exact(r[1], expect) or common.np_exact(sp.results, expect) or \
                    common.np_exact(sp.samples, X)
                if d:
                    raise Violation("distributed results differ from serial", desc + ": " + d,
                                    key="distributed-ne-serial")
                if sp.analysis is not None:
                    raise Violation("old analysis kept with new results", desc, key="stale-analysis")
            lk = [j for j in common.leaked() if j >= np0]
            if lk:
                raise Violation("job servers not released", desc, key="server-leak")
            states.append(digest([sorted(hurt), r[0], op["nprocs"], op["servers"],
                                  [p.order for p in world.pools[np0:]]]))
    return {"states": states, "nontrivial": any(len(p.order) > 1 for p in world.pools) or failed > 0,
            "digest": digest([world.ch.trace, states]),
            "sample": {"rows": plan["rows"], "ops": plan["ops"][:2]}}
