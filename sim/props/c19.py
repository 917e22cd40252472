"""C19: sampling carries on exactly where it stopped.

Two kinds of campaign, both cut into pieces by seeded crashes and restarts:
- a low-discrepancy design drawn in batches, each skipping what was drawn before;
- a stream of calls sharing a random generator that is checkpointed and restored.
The pieces must be those of the campaign drawn in one go by a pristine process.
"""
import os
import pickle

from .. import calls, cli, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate
from . import c08

PEER = None
BITGEN = ["PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"]


def setup():
    global PEER
    common.preload()
    import SALib.scripts.salib  # noqa
    PEER = fresh.Peer()


def teardown():
    PEER.close()


# ---------------------------------------------------------------- generation
def gen(rng, tier, idx):
    return gen_batches(rng) if rng.random() < 0.5 else gen_streams(rng)


def gen_batches(rng):
    c = calls.gen_sample(rng, rng.choice(["sobol", "sobol", "saltelli", "finite_diff"]), dmax=5, small=True, seed="int",
                         dists=0.3)
    kw = c["kw"]
    kw.pop("N"), kw.pop("skip_values", None)
    return {"kind": "batches", "call": c, "skip": rng.choice([0, 0, 1, 8, 16, 37, 64, 1024]),
            "batches": [{"n": rng.choice([1, 2, 3, 4, 5, 8, 16, 32]),
                         "where": rng.choice(["here", "here", "spec", "peer", "cli"]),
                         "lost": rng.random() < 0.2,
                         "between": c08.gen_history(rng, dict(c, kw=dict(kw, N=4)), rng.choice([0, 0, 1, 2]))}
                        for _ in range(rng.choice([2, 2, 3, 4, 6]))],
            "peer": common.gen_world(rng), "world": common.gen_world(rng)}


def gen_streams(rng):
    gens = [{"bit": rng.choice(BITGEN), "s": rng.randrange(2**31)} for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        if rng.random() < 0.8:
            call = calls.gen_sample(rng, rng.choice(["latin", "sobol", "morris", "fast_sampler", "latin"]), dmax=4, small=True,
                                    seed="int")
        else:
            call = calls.gen_analyze(rng, rng.choice(["morris", "rbd_fast"]), dmax=4, small=True, seed="int")
        ops.append({"call": call, "g": rng.randrange(len(gens)),
                    "save": rng.random() < 0.5, "crash": rng.random() < 0.35, "peer": rng.random() < 0.4,
                    "between": c08.gen_history(rng, call, rng.choice([0, 0, 0, 1]))})
    return {"kind": "streams", "gens": gens, "ops": ops, "peer": common.gen_world(rng), "world": common.gen_world(rng)}


# ---------------------------------------------------------------- batches
def draw(c, n, skip, where="here"):
    with common.quiet():
        c = dict(c, kw=dict(c["kw"], N=n, skip_values=skip))
        if where != "spec":
            return calls.outcome(calls.run_sample, c)

        def go():
            sp = common.spec(c["problem"])
            kw = dict(c["kw"])
            if "seed" in c:
                kw["seed"] = c["seed"]
            return getattr(sp, "sample_" + c["f"].split(".")[1])(**kw).samples
        return calls.outcome(go)


def draw_cli(c, n, skip):
    import numpy as np
    c = dict(c, kw=dict(c["kw"], N=n, skip_values=skip))
    with common.Scratch() as d:
        pf, of = os.path.join(d, "p.txt"), os.path.join(d, "o.txt")
        fp = cli.write_params(pf, c["problem"])
        argv, _ = cli.sample_args(c, pf, of, None, 17)
        st, _, exc = cli.run(argv)
        if st != "ok":
            return ("err", "%s %r" % (st, exc)), fp
        return ("ok", np.loadtxt(of, ndmin=2)), fp


def block(c):
    """Rows that belong to one point of the base sequence."""
    p, f = c["problem"], c["f"].split(".")[1]
    D = p["num_vars"]
    if f == "finite_diff":
        return D + 1
    G = len(set(p["groups"])) if p.get("groups") else D
    return 2 * G + 2 if c["kw"].get("calc_second_order", True) else G + 2


def run_batches(plan):
    import numpy as np
    c = plan["call"]
    name = c["f"].split(".")[1]
    total = sum(b["n"] for b in plan["batches"])
    # Groups listed under their names only: one group for all is not valid everywhere
    ref = fresh.alone(draw, c, total, plan["skip"])
    if ref[0] != "ok":
        raise Skip("call not valid: %s" % (ref[1],))
    k = block(c)
    if len(ref[1]) != k * total:
        raise Violation("design has the wrong number of rows", "%s: %d rows for %d points of %d" % (
            name, len(ref[1]), total, k), key="rows:" + name)
    at, trail, states, cuts = 0, [], [], 0
    run = lambda: calls.run_sample(dict(c, kw=dict(c["kw"], N=4)))
    for b in plan["batches"]:
        for op in b["between"]:
            c08.play(op, dict(c, kw=dict(c["kw"], N=4)), run)
        want = ref[1][k * at:k * (at + b["n"])]
        for again in range(2 if b["lost"] else 1):
            where, tol = b["where"], 1e-12
            if where == "peer":
                world.fault("crash_restart_in_new_process")
                got = PEER.call(dict(plan["peer"], seed=plan["seed"]), "sim.props.c19.draw", (c, b["n"], plan["skip"] + at))
            elif where == "cli" and name == "sobol" and c08._cli_ok(c) and not c["problem"].get("dists") \
                    and not c["problem"].get("groups"):
                world.probe("batch_from_command_line")
                got, fp = draw_cli(c, b["n"], plan["skip"] + at)
                if calls.diff(calls.plain(fp["bounds"]), calls.plain(c["problem"]["bounds"]), 0.0):
                    got = draw(c, b["n"], plan["skip"] + at)
            else:
                got = draw(c, b["n"], plan["skip"] + at, where)
            if again == 0 and b["lost"]:
                world.fault("batch_lost_and_redrawn")
            trail.append([where, b["n"], plan["skip"] + at])
            if got[0] != "ok":
                raise Violation("a batch was refused", "%s %s: %s (batches %s)" % (name, c["kw"], got[1], trail[-5:]),
                                key="batch-refused:" + name)
            d = calls.diff(got[1], want, tol)
            if d:
                raise Violation("batches are not the design drawn at once", "%s %s seed=%s: %s (batches %s)" % (
                    name, c["kw"], c.get("seed"), d, trail[-5:]), key="batch:" + name)
        at += b["n"]
        cuts += 1
        states.append(digest([name, c["kw"].get("calc_second_order"), c["kw"].get("scramble"), b["n"], where, plan["skip"] > 0]))
    return {"states": states, "nontrivial": cuts > 1, "digest": digest([calls.fp(ref), trail]),
            "sample": {"sampler": name, "kw": c["kw"], "batches": trail}}


# ---------------------------------------------------------------- streams
def make(g):
    import numpy as np
    return np.random.Generator(getattr(np.random, g["bit"])(g["s"]))


def state(g):
    b = g.bit_generator
    return digest([calls.fp(calls.plain(b.state)), b.seed_seq.n_children_spawned])


def one(call, g, data):
    c = {k: v for k, v in call.items() if k != "seed"}
    kw = dict(c["kw"], seed=g)
    if c["f"].startswith("sample."):
        return calls.outcome(calls.sampler(c["f"].split(".")[1]).sample, calls.as_problem(c["problem"]), **kw)
    p, X, Y = data
    f = calls.analyzer(c["f"].split(".")[1]).analyze
    if c["f"].split(".")[1] in calls.NEEDS_X:
        return calls.outcome(f, calls.as_problem(p), X.copy(), Y.copy(), **kw)
    return calls.outcome(f, calls.as_problem(p), Y.copy(), **kw)


def alone_stream(g, todo):
    """Every call of one stream in order, nothing in between: (outcome, generator state) of each."""
    with common.quiet():
        g, out = make(g), []
        for call, data in todo:
            r = one(call, g, data)
            out.append((r, state(g)))
        return out


def resume(blob, todo):
    with common.quiet():
        g, out = pickle.loads(blob), []
        for call, data in todo:
            r = one(call, g, data)
            out.append((r, state(g)))
        return out


def run_streams(plan):
    ops, gens = plan["ops"], plan["gens"]
    data = [fresh.alone(_data, o["call"]) if o["call"]["f"].startswith("analyze.") else None for o in ops]
    mine = [[i for i, o in enumerate(ops) if o["g"] == j] for j in range(len(gens))]
    ref = {}
    for j, g in enumerate(gens):
        for i, r in zip(mine[j], fresh.alone(alone_stream, g, [(ops[i]["call"], data[i]) for i in mine[j]])):
            ref[i] = r
    live = [make(g) for g in gens]
    saved = [(pickle.dumps(g), 0) for g in live]     # (generator, how many of its calls were done)
    done = [0] * len(gens)
    hist, states = [], []

    def compare(i, got, how):
        c = ops[i]["call"]
        if got[0][0] != ref[i][0][0] or got[0][0] == "ok" and calls.diff(got[0][1], ref[i][0][1], calls.tol(c["f"])):
            raise Violation("calls with a generator depend on more than its state", "%s %s %s: %s (history %s)" % (
                c["f"], c["kw"], how, calls.diff(got[0], ref[i][0], 1e-9), hist[-5:]), key="stream:" + c["f"])
        if got[1] != ref[i][1]:
            raise Violation("generator left in another state", "%s %s %s (history %s)" % (c["f"], c["kw"], how, hist[-5:]),
                            key="state:" + c["f"])

    for i, o in enumerate(ops):
        j = o["g"]
        for b in o["between"]:
            c08.play(b, o["call"], lambda: calls.run_call(o["call"]))
        if o["save"]:
            saved[j] = (pickle.dumps(live[j]), done[j])
            world.fault("generator_checkpointed")
        if o["crash"]:
            # everything since the checkpoint is lost and done again
            world.fault("crash_and_replay")
            blob, n = saved[j]
            todo = mine[j][n:done[j]]
            if o["peer"]:
                later = mine[j][n:]
                got = PEER.call(dict(plan["peer"], seed=plan["seed"]), "sim.props.c19.resume",
                                (blob, [(ops[k]["call"], data[k]) for k in later]))
                for k, r in zip(later, got):
                    compare(k, r, "resumed in a new process")
            live[j] = pickle.loads(blob)
            for k in todo:
                compare(k, (one(ops[k]["call"], live[j], data[k]), state(live[j])), "replayed after a crash")
        r = one(o["call"], live[j], data[i])
        hist.append([o["call"]["f"], j, r[0]])
        compare(i, (r, state(live[j])), "in sequence")
        done[j] += 1
        states.append(digest([o["call"]["f"], gens[j]["bit"], o["save"], o["crash"], o["peer"], len(gens)]))
    return {"states": states, "nontrivial": len(ops) > 1, "digest": digest([hist, [ref[i][1] for i in sorted(ref)]]),
            "sample": {"generators": [g["bit"] for g in gens], "history": hist}}


def _data(c):
    with common.quiet():
        return calls.make_data(c)


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    with activate(w), common.quiet():
        return run_batches(plan) if plan["kind"] == "batches" else run_streams(plan)
