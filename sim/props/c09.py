"""C09: seeded analysis is reproducible under any history and environment."""
import os

from .. import calls, cli, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate
from .c08 import gen_history, near, play, same

PEER = None


def setup():
    global PEER
    common.preload()
    import SALib.scripts.salib  # noqa
    PEER = fresh.Peer()


def teardown():
    PEER.close()


def gen(rng, tier, idx):
    c = calls.gen_analyze(rng, heavy=0.12)
    if rng.random() < 0.12 and "seed" in c:
        c["seed"] = 0
    return {"call": c, "ops": gen_history(rng, c, rng.choice([0, 1, 2, 4])) + near(rng, c),
            "peer": common.gen_world(rng), "world": common.gen_world(rng), "cli": rng.random() < 0.25,
            "spec": rng.random() < 0.3, "groups_given": rng.random() < 0.3}


def analyze_outcome(c, data):
    with common.quiet():
        return calls.outcome(calls.run_analyze, c, data)


def data_and_outcome(c):
    with common.quiet():
        d = calls.make_data(c)
        return d, calls.outcome(calls.run_analyze, c, d)


def execute(plan):
    import numpy as np
    c = plan["call"]
    name = c["f"].split(".")[1]
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    try:
        data, ref = fresh.alone(data_and_outcome, c)
    except RuntimeError as e:
        raise Skip(str(e)[-300:])
    if ref[0] != "ok":
        raise Skip("call not valid: " + str(ref[1]))
    states, trail = [], []
    with activate(w), common.quiet():
        run = lambda: calls.run_analyze(c, data)
        for op in plan["ops"] + [{"k": "end"}]:
            if op["k"] != "end":
                play(op, c, run, data)
                trail.append(op["k"] + (":" + op["call"]["f"] if "call" in op else ""))
            same(calls.outcome(run), ref, c, "after " + ",".join(trail[-4:]), "history")
            states.append(digest([name, trail[-2:]]))
        same(calls.outcome(run), ref, c, "repeated after " + ",".join(trail[-4:]), "repeat")
        if plan["spec"]:
            sp = common.spec(data[0])
            sp.set_samples(data[1].copy())
            sp.set_results(data[2].copy())
            kw = dict(c["kw"])
            if "seed" in c:
                kw["seed"] = calls.make_seed(c["seed"])
            got = calls.outcome(lambda: sp.analyze(calls.analyzer(name).analyze, **kw).analysis)
            same(got, ref, c, "through a problem object", "spec")
        pw = dict(plan["peer"], seed=plan["seed"])
        got = PEER.call(pw, "sim.props.c09.analyze_outcome", (c, data))
        same(got, ref, c, "in another process (hash seed, clock, cpus=%s)" % pw["cpus"], "process")
        world.fault("other_process")
        p = data[0]
        if plan["cli"] and cli_ok(c, p):
            with common.Scratch() as d:
                pf, xf, yf = (os.path.join(d, n) for n in ("p.txt", "x.txt", "y.txt"))
                fp = cli.write_params(pf, p)
                np.savetxt(xf, data[1], fmt="%.17e")
                np.savetxt(yf, data[2], fmt="%.17e")
                argv, api = cli.analyze_args(c, pf, xf, yf)
                texts = []
                for s in (1, 2):
                    np.random.seed(s * 977)
                    world.clock.now = 1e9
                    keep, world.clock.step, world.clock.jumps = world.clock.step, 0.0, {}
                    st, t, exc = cli.run(argv)
                    world.clock.step = keep
                    texts.append((st, strip(t)))
                if texts[0] != texts[1]:
                    raise Violation("command line does not honour the seed", "%s: %s / %s" % (
                        argv, str(texts[0])[-600:], str(texts[1])[-600:]), key="cli:" + name)
                world.probe("cli_compared")
    return {"states": states, "nontrivial": calls.finite_enough(ref[1]), "digest": digest([calls.fp(ref), states]),
            "sample": {"method": name, "kw": c["kw"], "seed": c.get("seed"), "history": trail}}


def strip(t):
    return t


def cli_ok(c, p):
    d = p.get("dists")
    if any(len(b) != 2 for b in p["bounds"]) or (d and set(d) - set(cli.FILE_DISTS)):
        return False
    if set(c["kw"]) & {"keep_resamples", "conf_level"} and (c["kw"].get("conf_level") or c["kw"].get("keep_resamples")):
        return False
    if c["f"] == "analyze.discrepancy" and c["kw"].get("method", "WD") != "WD":
        return False
    if c["f"] == "analyze.ff":      # the file would have to hold the padded problem
        return not isinstance(c.get("seed", 1), dict) and not p.get("groups") is p["names"]
    return not isinstance(c.get("seed", 1), dict)
