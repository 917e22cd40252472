"""C01: parallel evaluation == serial evaluation."""
import numpy as np

from .. import calls, common
from ..common import Violation, world, digest
from ..env import activate


def setup():
    common.preload()


def gen(rng, tier, idx):
    p = calls.gen_problem(rng, 1, 5, 0.2, 0.2)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        nout = rng.choice([1, 1, 2, 3, 5])
        m = calls.gen_model(rng, nout)
        if nout == 1 and rng.random() < 0.3:
            m["col2d"] = True
        m["form"] = rng.choice(["plain", "plain", "loop", "loop", "int", "f4", "bool", "nonempty", "complex", "nan"])
        ops.append({"rows": rng.choice([1, 2, 3, 5, 7, 10, 16, 33, rng.randint(1, 60), 200]) if rng.random() < 0.95 else
                    rng.choice([1000, 1024, rng.randint(500, 4000)]),
                    "array": rng.choice([None] * 6 + ["F", "f4", "slice", "dup"]),
                    "xseed": rng.randrange(2**31), "model": m,
                    "via": rng.choice(["evaluate", "parallel", "parallel"]),
                    "nprocs": rng.choice([None, 2, 2, 3, 4, 5, 7, 8, 13, 40, 300]),
                    "extra": rng.choice(["none", "args", "kwargs", "both"]),
                    "a": round(rng.uniform(-3, 3), 3), "b": round(rng.uniform(-3, 3), 3)
                    })
    return {"problem": p, "ops": ops, "world": common.gen_world(rng)}


def _args(op):
    e = op["extra"]
    if e == "args":
        return (op["a"], op["b"]), {}
    if e == "kwargs":
        return (), {"b": op["b"], "a": op["a"]}
    if e == "both":
        return (op["a"],), {"b": op["b"]}
    return (), {}


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    multi = False
    with activate(w), common.quiet():
        for i, op in enumerate(plan["ops"]):
            X = common.rand_X(plan["problem"], op["rows"], op["xseed"])
            if op.get("array") == "F":
                X = np.asfortranarray(X)
            elif op.get("array") == "f4":
                X = X.astype(np.float32)
            elif op.get("array") == "slice":
                X = np.repeat(X, 2, axis=0)[::2]
            elif op.get("array") == "dup":
                X = X[np.arange(len(X)) // 3]        # rows that repeat
            a, k = _args(op)
            model = calls.Model(op["model"])
            ref = common.spec(plan["problem"])
            ref.set_samples(X.copy())
            ref.evaluate(model, *a, **k)
            want = ref.results
            direct = model(X, *a, **k)
            # a fresh problem, or one that carries earlier results
            if i == 0 or (op["model"]["outs"] != plan["ops"][i - 1]["model"]["outs"]) \
                    or bool(op["model"].get("col2d")) != bool(plan["ops"][i - 1]["model"].get("col2d")):
                sp = common.spec(plan["problem"])
            Xin = X if op.get("array") == "slice" else X.copy(order="K")
            X = X.copy()
            sp.set_samples(Xin)
            n = op["nprocs"]
            if op["via"] == "evaluate" and n:
                got = sp.evaluate(model, *a, nprocs=n, **k).results
            elif n is None:
                got = sp.evaluate_parallel(model, *a, **k).results
            else:
                got = sp.evaluate_parallel(model, *a, nprocs=n, **k).results
            for name, r in (("serial", want), ("direct", direct)):
                d = common.np_exact(got, r)
                if not d and got.dtype != r.dtype:
                    d = "type %s vs %s" % (got.dtype, r.dtype)
                if d:
                    raise Violation("parallel results differ from %s evaluation" % name,
                                    "op %d nprocs=%s cpus=%s rows=%d: %s" % (i, n, world.cpus, op["rows"], d),
                                    key="parallel-ne-serial")
            d = common.np_exact(sp.samples, X) or common.np_exact(Xin, X)
            if d:
                raise Violation("samples changed by parallel evaluation", d, key="samples-changed")
            if list(sp["outputs"]) != list(ref["outputs"]):
                raise Violation("output names differ", "%s vs %s" % (sp["outputs"], ref["outputs"]),
                                key="output-names")
            multi = multi or any(len(p.order) > 1 for p in world.pools)
    o = common.orders()
    return {"states": o, "nontrivial": multi, "digest": digest([world.ch.trace, o]),
            "sample": {"ops": [{k: v for k, v in op.items() if k != "model"} for op in plan["ops"]],
                       "completion_orders": [p.order for p in world.pools][:3]}}


def shrink(plan):
    import copy
    for i, op in enumerate(plan["ops"]):
        for rows in (1, 2, op["rows"] // 2):
            if 0 < rows < op["rows"]:
                p = copy.deepcopy(plan)
                p["ops"][i]["rows"] = rows
                yield p
        if op["nprocs"] and op["nprocs"] > 2:
            p = copy.deepcopy(plan)
            p["ops"][i]["nprocs"] = 2
            yield p
        if op["extra"] != "none":
            p = copy.deepcopy(plan)
            p["ops"][i]["extra"] = "none"
            yield p
