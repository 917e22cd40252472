"""C21: parallel work is done exactly once, by no more workers than allowed."""
from .. import calls, common
from ..common import Violation, world, digest
from ..env import activate
from .c04 import attempt

SEEN = []       # what the model and the analyses were given, in order of execution


def setup():
    common.preload()


class Watched:
    """A row-wise model that notes each row it is given (and may fail for one)."""

    def __init__(self, spec, bad=None, exc="Boom"):
        self.m = calls.Model(spec)
        self.bad = bad
        self.exc = exc

    def __call__(self, X, *a, **k):
        SEEN.append(("call", len(X)))
        for r in X:
            SEEN.append(("row", round(float(r[0]), 12)))
        if self.bad is not None and any(float(r[0]) == self.bad for r in X):
            world.fault("model_raises")
            raise common.EXC[self.exc]("injected")
        return self.m(X, *a, **k)


def watched(name, bad=None, exc="Boom"):
    real = calls.analyzer(name).analyze

    def note(Y):
        SEEN.append(("output", round(float(Y[0]), 12)))
        if bad is not None and float(Y[0]) == bad:
            world.fault("analysis_raise")
            raise common.EXC[exc]("injected")
    if name in calls.NEEDS_X:
        def analyze(problem, X, Y, **kw):
            note(Y)
            return real(problem, X, Y, **kw)
    else:
        def analyze(problem, Y, **kw):
            note(Y)
            return real(problem, Y, **kw)
    return analyze


def gen(rng, tier, idx):
    ops = []
    nout = rng.choice([1, 2, 3, 5, 9])
    for _ in range(rng.choice([2, 3, 4])):
        k = rng.choice(["evaluate", "parallel", "parallel", "analyze", "analyze", "distributed", "sobol"])
        ops.append({"k": k, "nprocs": rng.choice([None, 1, 2, 2, 3, 4, 6, 8, 20, 100]), "via": rng.randrange(3),
                    "extra": rng.random() < 0.3, "servers": rng.choice([None, None, 1, 2, 3]),
                    "fault": rng.choice([None, None, None, "model", "task", "create", "interrupt"]),
                    "exc": common.gen_exc(rng), "at": rng.randrange(100), "seed": rng.randrange(2**31)})
    c = calls.gen_analyze(rng, rng.choice(["pawn", "rsa", "rbd_fast", "sobol", "sobol"]), dmax=3, small=True, seed="int")
    return {"call": c, "model": calls.gen_model(rng, nout), "ops": ops,
            "rows": rng.choice([None, 1, 2, 3, 5, 17, 100, rng.randint(1, 300)]),
            "world": common.gen_world(rng, cpus=(1, 1, 2, 3, 4, 8, 16, 64))}


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    c = plan["call"]
    name = c["f"].split(".")[1]
    kw0 = dict(c["kw"])
    if "seed" in c:
        kw0["seed"] = c["seed"]
    states, ok = [], 0
    with activate(w), common.quiet():
        p0 = common.spec(c["problem"])
        Xs = calls.run_sample(c["sample"], p0)
        for i, op in enumerate(plan["ops"]):
            k, n = op["k"], op["nprocs"]
            X = Xs if plan["rows"] is None or k in ("analyze", "sobol") else \
                common.rand_X(c["problem"], plan["rows"], op["seed"])
            rows = sorted(("row", round(float(r[0]), 12)) for r in X)
            sp = common.spec(c["problem"])
            sp.set_samples(X.copy())
            Y = calls.Model(plan["model"])(X)
            cols = [Y] if Y.ndim == 1 else [Y[:, j] for j in range(Y.shape[1])]
            bad, pf = None, {}
            if op["fault"] == "task":
                pf = {"*": {"tasks": {str(op["at"] % 4): ("raise_after", "os_error", "memory")[op["seed"] % 3]}}}
            elif op["fault"] == "create":
                pf = {"*": {"create": True}}
            elif op["fault"] == "interrupt":
                pf = {"*": {"interrupt_at": op["at"] % 3}}
            elif op["fault"] == "model":
                bad = float(X[op["at"] % len(X), 0]) if k not in ("analyze", "sobol") else \
                    float(cols[op["at"] % len(cols)][0])
            SEEN.clear()
            np0, bf = len(world.pools), dict(world.faults)
            world.pool_faults = pf
            a, kx = ((0.5,), {"b": 2.0}) if op["extra"] else ((), {})
            if k in ("evaluate", "parallel", "distributed"):
                model = Watched(plan["model"], bad, op["exc"])
                kk = dict(kx)
                if n is not None:
                    kk["nprocs"] = n
                if k == "evaluate":
                    f = lambda: sp.evaluate(model, *a, **kk)
                elif k == "parallel":
                    f = lambda: sp.evaluate_parallel(model, *a, **kk)
                else:
                    if op["servers"]:
                        kk["servers"] = ["node%d:6000" % j for j in range(op["servers"])]
                    f = lambda: sp.evaluate_distributed(model, *a, **kk)
                want = rows
            elif k == "analyze":
                sp.set_results(Y)
                kk = dict(kw0)
                if n is not None or op["via"]:
                    f = lambda: sp.analyze_parallel(watched(name, bad, op["exc"]), nprocs=n, **kk)
                else:
                    f = lambda: sp.analyze(watched(name, bad, op["exc"]), **kk)
                want = sorted(("output", round(float(y[0]), 12)) for y in cols)
            else:
                sp.set_results(Y)
                kk = dict(kw0)
                if name == "sobol":
                    kk.update(parallel=True, n_processors=n)
                f = lambda: sp.analyze(watched(name, bad, op["exc"]), **kk)
                want = sorted(("output", round(float(y[0]), 12)) for y in cols)
            r, hurt = attempt(f, bf)
            world.pool_faults = {}
            seen = sorted(s for s in SEEN if s[0] != "call")
            what = "op %d %s nprocs=%s cpus=%s rows=%d outputs=%d fault=%s -> %s" % (
                i, k, n, world.cpus, len(X), len(cols), op["fault"], r[0])
            if r[0] == "raised" and not hurt and k in ("analyze", "sobol") and not defined(sp, name, kw0):
                continue
            if r[0] == "raised" and not hurt:
                raise Violation("a call without a fault raised", what + ": " + str(r[1]), key="raised:" + k)
            if hurt and r[0] == "ok" and set(hurt) - {"interrupt_while_waiting"}:
                raise Violation("a failed call returned", what, key="hidden:" + k)
            if r[0] == "ok" and seen != want:
                raise Violation("work not done exactly once", "%s: %d pieces of work for %d" % (what, len(seen), len(want)),
                                key="once:" + k)
            if r[0] == "raised":
                left = list(want)
                for s in seen:
                    if s not in left:
                        raise Violation("work done twice", "%s: %s" % (what, s), key="twice:" + k)
                    left.remove(s)
            if ("call", 0) in SEEN:
                raise Violation("model called without samples", what, key="empty:" + k)
            if k == "evaluate" and n is None and SEEN.count(("call", len(X))) != 1:
                raise Violation("model not called once", "%s: %s" % (what, SEEN[:4]), key="serial-once")
            # workers
            for q in world.pools[np0:]:
                cap = limit(k, n, op, len(cols), len(X), c, name)
                if cap is not None and q.n > cap:
                    raise Violation("more workers than allowed", "%s: %d workers, at most %d allowed" % (what, q.n, cap),
                                    key="workers:" + k)
                ok += 1
            if len(world.pools) - np0 > (1 if k != "sobol" else len(cols)):
                raise Violation("more than one pool", what, key="pools:" + k)
            if any(j >= np0 for j in common.leaked()):
                raise Violation("worker pool left open", what, key="leak:" + k)
            states.append(digest([k, n, world.cpus, len(cols), min(len(X), 9), r[0], sorted(hurt)]))
    return {"states": states, "nontrivial": ok > 0, "digest": digest([world.ch.trace, states]),
            "sample": {"ops": [{q: o[q] for q in ("k", "nprocs", "fault")} for o in plan["ops"]], "cpus": world.cpus}}


def defined(sp, name, kw):
    """Whether the analysis of this data works at all."""
    try:
        sp.analyze(calls.analyzer(name).analyze, **kw)
        return True
    except Exception:
        return False


def limit(k, n, op, outs, rows, c, name):
    cpus = world.cpus
    if k in ("evaluate", "parallel"):
        return min(cpus, n) if n is not None else cpus
    if k == "analyze":
        return min(cpus, n, outs) if n is not None else cpus
    if k == "distributed":
        return (n or 1) * max(1, op["servers"] or 1)
    return n if n is not None else cpus
