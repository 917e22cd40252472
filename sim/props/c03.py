"""C03: Sobol' analysis on several processors == on one."""
import numpy as np

from .. import calls, common
from ..common import Violation, world, digest
from ..env import activate


def setup():
    common.preload()


def gen(rng, tier, idx):
    c = calls.gen_analyze(rng, "sobol", dmax=7, groups=0.4, seed="int")
    degen = None
    r = rng.random()
    if r < 0.12:
        degen = {"kind": "constant"}
    elif r < 0.3:
        # nearly constant output: some resamples see no variance at all
        degen = {"kind": "spike", "n": rng.randint(1, 2), "s": rng.randrange(2**31)}
        if rng.random() < 0.7:
            c["sample"]["kw"]["N"] = 4
    elif r < 0.36:
        degen = {"kind": "nan", "s": rng.randrange(2**31)}
    ops = [{"n": rng.choice([None, 1, 2, 2, 3, 4, 5, 7, 16, 64])} for _ in range(rng.choice([1, 2, 3]))]
    return {"call": c, "degen": degen, "ops": ops, "world": common.gen_world(rng)}


def execute(plan):
    import random
    c = plan["call"]
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    with activate(w), common.quiet():
        p, X, Y = calls.make_data(c)
        g = plan["degen"]
        if g:
            if g["kind"] == "constant":
                Y = np.full(len(Y), 2.5)
            elif g["kind"] == "spike":
                Y = np.full(len(Y), 1.25)
                r = random.Random(g["s"])
                for _ in range(g["n"]):
                    Y[r.randrange(len(Y))] += 1.0
            else:
                Y[random.Random(g["s"]).randrange(len(Y))] = np.nan
        serial = calls.outcome(calls.run_analyze, c, (p, X, Y))
        for op in plan["ops"]:
            c2 = dict(c, kw=dict(c["kw"], parallel=True, n_processors=op["n"]))
            Yc = Y.copy()
            got = calls.outcome(calls.run_analyze, c2, (p, X, Yc))
            what = "n_processors=%s cpus=%s D=%d degen=%s kw=%s" % (op["n"], world.cpus, p["num_vars"], g, c["kw"])
            if got[0] != serial[0]:
                raise Violation("parallel %s where serial %s" % (got[0], serial[0]),
                                "%s: %s / %s" % (what, str(got)[:300], str(serial)[:300]), key="outcome")
            if serial[0] == "ok":
                d = calls.diff(got[1], serial[1])
                if d:
                    raise Violation("parallel Sobol' indices differ from serial", what + ": " + d,
                                    key="parallel-ne-serial")
            if common.np_exact(Y, Yc):
                raise Violation("model output changed", what, key="data-changed")
        # the same analysis through a data frame
        if serial[0] == "ok":
            s1 = calls.run_analyze(c, (p, X, Y))
            s2 = calls.run_analyze(dict(c, kw=dict(c["kw"], parallel=True, n_processors=2)), (p, X, Y))
            d = calls.diff(calls.plain(s1.to_df()), calls.plain(s2.to_df()))
            if d:
                raise Violation("parallel Sobol' tables differ from serial", d, key="parallel-ne-serial")
    o = common.orders()
    return {"states": o, "nontrivial": serial[0] == "ok" and bool(o), "digest": digest([world.ch.trace, o, calls.fp(serial)]),
            "sample": {"D": p["num_vars"], "kw": c["kw"], "degenerate": g, "ops": plan["ops"],
                       "completion_orders": [q.order for q in world.pools][:2]}}
