"""C08: seeded sampling is reproducible under any history and environment."""
import os
import random

from .. import calls, cli, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate

PEER = None


def setup():
    global PEER
    common.preload()
    import SALib.scripts.salib  # noqa
    PEER = fresh.Peer()


def teardown():
    PEER.close()


DET = {"saltelli", "finite_diff", "ff"}      # nothing random in the points
CONT = {"latin", "fast_sampler"}


def gen_history(rng, call, n):
    ops = []
    for _ in range(n):
        k = rng.choice(["near", "near", "near", "variant", "variant", "variant", "call", "call", "draw", "npseed", "pyseed", "cpus",
                        "entropy", "same", "fail", "scribble", "env", "settings"])
        op = {"k": k, "s": rng.randrange(2**31)}
        if k == "near":
            op["near"] = calls.gen_near(rng, call)
        if k == "settings":
            from . import c18
            op["to"] = c18.gen_settings(rng)
        if k == "variant":
            v = {kk: (dict(vv) if isinstance(vv, dict) else vv) for kk, vv in call.items()}
            if "sample" in v:
                v["sample"] = dict(v["sample"], kw=dict(v["sample"]["kw"]))
            how = rng.choice(["seed", "size", "problem", "kw", "noseed"])
            if how == "seed" and "seed" in v:
                v["seed"] = calls.gen_seed(rng, ints_only=True)
            elif how == "noseed":
                v.pop("seed", None)
            else:
                nm = call["f"].split(".")[1]
                g = calls.gen_sample(rng, nm, small=True) if call["f"].startswith("sample") else \
                    calls.gen_analyze(rng, nm, small=True)
                if how == "size":
                    if call["f"].startswith("sample"):
                        v["kw"]["N"] = g["kw"].get("N", 8)
                        if nm == "ff":
                            v["kw"] = {}
                    else:
                        v = g
                elif how == "problem" and call["f"].startswith("sample"):
                    v["problem"] = g["problem"]
                else:
                    g.pop("seed", None)
                    if "seed" in call:
                        g["seed"] = call["seed"]
                    v = g
            op["call"] = v
        elif k == "call":
            op["call"] = calls.gen_sample(rng, small=True) if rng.random() < 0.6 else \
                calls.gen_analyze(rng, small=True, heavy=0.02)
        ops.append(op)
    return ops


def play(op, call, runner, data=None):
    """One step of history; nothing it returns matters."""
    import numpy as np
    k = op["k"]
    if k in ("variant", "call"):
        world.probe("history_" + op["call"]["f"])
        calls.outcome(calls.run_call, op["call"])
    elif k == "near":
        v = op["near"]["call"]
        world.fault("almost_same_call_before")
        if v["f"].startswith("sample."):
            calls.outcome(calls.run_sample, v)
        elif data is None:
            calls.outcome(lambda: calls.run_analyze(v, calls.near_data(op["near"], calls.make_data(v))))
        else:
            calls.outcome(calls.run_analyze, v, calls.near_data(op["near"], data))
    elif k == "same":
        calls.outcome(runner)
    elif k == "scribble":
        try:
            r = runner()
            if isinstance(r, np.ndarray):
                r[...] = -7.25
            elif isinstance(r, dict):
                for v in r.values():
                    if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable:
                        v[...] = -7.25
        except Exception:
            pass
    elif k == "draw":
        np.random.random(op["s"] % 50 + 1)
        random.random()
        world.fault("rng_drawn")
    elif k == "npseed":
        np.random.seed(op["s"] % 2**32)
        world.fault("global_rng_reseeded")
    elif k == "pyseed":
        random.seed(op["s"])
        world.fault("global_rng_reseeded")
    elif k == "cpus":
        world.cpus = 1 + op["s"] % 16
        world.fault("cpu_count_changed")
    elif k == "entropy":
        world.entropy = random.Random(op["s"])
        world.clock.now += (op["s"] % 100001) - 50000
        world.fault("clock_jump")
    elif k == "settings":
        from . import c18
        c18.apply(op["to"])
        world.fault("process_settings_changed")
    elif k == "env":
        os.environ["SALIB_SIM_%d" % (op["s"] % 10)] = str(op["s"])
    elif k == "fail":
        bad = dict(call, problem={"num_vars": 2, "names": ["a", "b"], "bounds": [[1, 0], [0, 1]]})
        try:
            calls.run_call(bad)
        except Exception:
            pass
        world.fault("failed_call_before")


def near(rng, c):
    return [{"k": "near", "near": calls.gen_near(rng, c), "s": 0}] if rng.random() < 0.4 else []


def gen(rng, tier, idx):
    c = calls.gen_sample(rng)
    if "seed" not in c and rng.random() < 0.5:
        pass
    if rng.random() < 0.12 and "seed" in c:
        c["seed"] = 0
    return {"call": c, "ops": gen_history(rng, c, rng.choice([0, 1, 2, 4, 7])) + near(rng, c),
            "peer": common.gen_world(rng), "world": common.gen_world(rng),
            "cli": rng.random() < 0.3, "other": [rng.randrange(2**31) for _ in range(3)],
            "share_problem": rng.random() < 0.3}


def sample_outcome(c):
    with common.quiet():
        return calls.outcome(calls.run_sample, c)


def _cli_ok(c):
    p = c["problem"]
    d = p.get("dists")
    if any(len(b) != 2 for b in p["bounds"]) or (d and set(d) - set(cli.FILE_DISTS)):
        return False
    if c["f"] == "sample.finite_diff" and "skip_values" in c["kw"]:
        return False
    return not isinstance(c.get("seed", 1), dict)


def execute(plan):
    import numpy as np
    c = plan["call"]
    name = c["f"].split(".")[1]
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    ref = fresh.alone(sample_outcome, c)
    if ref[0] != "ok":
        raise Skip("call not valid: " + str(ref[1]))
    others = []
    if name not in DET and isinstance(c.get("seed"), int):
        for s in plan["other"] + [c["seed"] + 2**32]:
            if s != c["seed"]:
                others.append((s, fresh.alone(sample_outcome, dict(c, seed=s))))
    states = []
    with activate(w), common.quiet():
        run = lambda: calls.run_sample(c)
        trail = []
        for op in plan["ops"] + [{"k": "end"}]:
            if op["k"] != "end":
                play(op, c, run)
                trail.append(op["k"] + (":" + op["call"]["f"] if "call" in op else ""))
            got = calls.outcome(run)
            same(got, ref, c, "after " + ",".join(trail[-4:]), "history")
            got = calls.outcome(run)
            same(got, ref, c, "repeated after " + ",".join(trail[-4:]), "repeat")
            states.append(digest([name, trail[-2:]]))
        pw = dict(plan["peer"], seed=plan["seed"])
        got = PEER.call(pw, "sim.props.c08.sample_outcome", (c,))
        same(got, ref, c, "in another process (hash seed, clock, cpus=%s)" % pw["cpus"], "process")
        world.fault("other_process")
        for s, o in others:
            if o[0] != "ok":
                raise Violation("seed refused", "%s seed=%s: %s" % (name, s, o[1]), key="seed-refused:" + name)
        if others:
            eq = [s for s, o in others if np.array_equal(o[1], ref[1])]
            limit = 0 if (name in CONT or (name == "sobol" and c["kw"].get("scramble", True))) else len(others) - 1
            if name == "sobol" and not c["kw"].get("scramble", True):
                limit = len(others)
            if len(eq) > limit:
                raise Violation("different seeds give the same sample", "%s seeds %s and %s, kw %s" % (
                    name, c["seed"], eq, c["kw"]), key="seed-ignored:" + name)
        if plan["cli"] and _cli_ok(c):
            with common.Scratch() as d:
                pf, of = os.path.join(d, "p.txt"), os.path.join(d, "o.txt")
                fp = cli.write_params(pf, c["problem"])
                argv, api = cli.sample_args(c, pf, of, None, 17)
                want = calls.outcome(lambda: calls.sampler(name).sample(fp, **api))
                st, _, exc = cli.run(argv)
                if (st == "ok") != (want[0] == "ok"):
                    raise Violation("command line %s, call %s" % (st, want[0]), "%s: %r" % (argv, exc), key="cli:" + name)
                if st == "ok":
                    got = np.loadtxt(of, ndmin=2)
                    d2 = common.np_exact(got, want[1]) if want[1].ndim == 2 else None
                    if d2 and calls.diff(got, want[1], 1e-15):
                        raise Violation("command-line sample differs from the call with the same seed",
                                        "%s: %s" % (argv, d2), key="cli:" + name)
                    world.probe("cli_compared")
    return {"states": states, "nontrivial": ref[0] == "ok", "digest": digest([calls.fp(ref), states]),
            "sample": {"sampler": name, "kw": c["kw"], "seed": c.get("seed"), "history": trail}}


def same(got, ref, c, how, key):
    if got[0] != ref[0]:
        raise Violation("outcome differs", "%s %s seed=%s %s: %s instead of %s" % (
            c["f"], c["kw"], c.get("seed"), how, str(got)[:200], str(ref)[:200]), key=key + ":" + c["f"])
    if ref[0] == "ok":
        d = calls.diff(got[1], ref[1], calls.tol(c["f"]))
        if d:
            raise Violation("seeded result not reproduced", "%s %s seed=%s %s: %s" % (
                c["f"], c["kw"], c.get("seed"), how, d), key=key + ":" + c["f"])
