"""C17: a problem saved, copied or restored at any point of its history carries on as if never interrupted.

The history is a list of seeded steps on one problem.  At seeded points the problem (or its
stored analysis) is made durable or copied; then the process 'crashes' and goes on with the
restored problem, here or in another process started with another hash seed, or goes on
with both the original and the copy.
"""
import copy
import pickle
import random
import sys
import threading

from .. import calls, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate

HOW = ["pickle2", "pickle4", "pickle5", "pickle5", "dill", "deepcopy", "deepcopy", "copy"]
PEER = None
OF = {"sobol": ["sobol", "sobol", "pawn", "rsa", "rbd_fast"], "saltelli": ["sobol", "pawn"],
      "latin": ["delta", "rbd_fast", "pawn", "rsa", "rsa", "discrepancy", "hdmr", "enhanced_hdmr"],
      "finite_diff": ["dgsm"], "morris": ["morris"], "fast_sampler": ["fast"], "ff": ["ff"]}
STEPS = ["sample", "evaluate", "analyze"]


def setup():
    global PEER
    common.preload()
    PEER = fresh.Peer()


def teardown():
    PEER.close()


def gen(rng, tier, idx):
    names = ["sobol", "sobol", "latin", "latin", "morris", "finite_diff", "fast_sampler", "ff", "saltelli"]
    s = calls.gen_sample(rng, rng.choice(names), dmax=4, small=True, seed="int")
    p = s["problem"]
    ops = gen_chain(rng, s)
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = s["f"].split(".")[1]
        if k == "ff":
            break
        nm = rng.choice(["sobol", "latin", "finite_diff", "saltelli"] + ([] if p.get("groups") else ["fast_sampler"]) + ["morris"])
        t = calls.gen_sample(rng, nm, dmax=4, small=True, seed="int")
        ops += gen_chain(rng, dict(t, problem=p))
    # cut the chain anywhere, so that the last step may be any
    if rng.random() < 0.3:
        ops = ops[: rng.randint(1, len(ops))]
    saves = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        saves.append({"at": rng.randint(0, len(ops)), "how": rng.choice(HOW),
                      "then": rng.choice(["crash", "crash", "crash_peer", "both", "both", "inside"]),
                      "what": rng.choice(["problem", "problem", "problem", "analysis"])})
    saves.sort(key=lambda x: x["at"])
    return {"problem": p, "ops": ops, "saves": saves, "outs": rng.choice([None, None, 2]), "world": common.gen_world(rng)}


def gen_chain(rng, s):
    """sample, evaluate, analyse with what fits the sampler; parts may be repeated."""
    nm = s["f"].split(".")[1]
    kw = dict(s["kw"])
    if nm == "latin":
        kw["N"] = rng.choice([40, 60, 170, 300 if s["problem"]["num_vars"] < 4 and not s["problem"].get("dists") else 60])
    out = [{"k": "sample", "f": nm, "kw": kw, "seed": s.get("seed", 3), "way": rng.choice(["method", "func"])}]
    out.append({"k": "evaluate", "m": calls.gen_model(rng, 1), "way": rng.choice(["serial", "local", "lambda", "method", "parallel", "set"])})
    an = OF[nm]
    if nm == "latin":
        an = [a for a in an if (a not in calls.HEAVY and a != "delta") or kw["N"] >= (300 if a in calls.HEAVY else 160)]
    for _ in range(rng.choice([1, 1, 2])):
        a = rng.choice(an)
        out.append({"k": "analyze", "f": a, "kw": ana_kw(rng, a, kw), "seed": rng.randrange(2**31),
                    "way": rng.choice(["method", "func", "func", "parallel"])})
    return out


def ana_kw(rng, a, k):
    if a == "sobol":
        return {"calc_second_order": k.get("calc_second_order", True), "num_resamples": 4, "keep_resamples": rng.random() < 0.3}
    if a == "morris":
        return {"num_resamples": 4, "num_levels": k.get("num_levels", 4)}
    if a in ("dgsm", "rbd_fast"):
        return {"num_resamples": 3}
    if a == "fast":
        return {"num_resamples": 3, "M": k["M"]}
    if a == "delta":
        return {"num_resamples": 2}
    if a == "pawn":
        return {"S": 3}
    if a == "rsa":
        return {"bins": 4, "target": rng.choice(["X", "Y"])}
    if a == "ff":
        return {"second_order": rng.random() < 0.5}
    if a == "discrepancy":
        return {"method": "WD"}
    if a == "hdmr":
        return {"maxorder": 2, "maxiter": 3, "m": 2, "K": 1}
    return {"max_order": 2, "poly_order": 2, "bootstrap": 1, "max_iter": 100, "return_emulator": rng.random() < 0.7}


def model_of(plan, op):
    return calls.Model(dict(op["m"], outs=plan["outs"] or 1, k=op["m"]["k"] * (plan["outs"] or 1)) if not plan["outs"]
                       else {"outs": plan["outs"], "k": [[x + j for x in op["m"]["k"][0]] for j in range(plan["outs"])]})


class Runs:
    """A model that holds what cannot be saved: a lock and an open stream."""

    def __init__(self, m):
        self.m, self.lock, self.out = m, threading.Lock(), sys.stderr

    def run(self, X):
        with self.lock:
            return self.m(X)


def do(plan, sp, op, hook=None):
    """One step; the outcome's kind ('ok' or the exception's class)."""
    k = op["k"]

    def go():
        if k == "sample":
            kw = dict(op["kw"])
            if op["f"] != "saltelli":
                kw["seed"] = op["seed"]
            if op["way"] == "method":
                getattr(sp, "sample_" + op["f"].replace("_sampler", ""))(**kw)
            else:
                sp.sample(calls.sampler(op["f"]).sample, **kw)
        elif k == "evaluate":
            m = model_of(plan, op)
            if hook:
                inner = m

                def m(X):
                    hook()
                    return inner(X)
            if op["way"] == "parallel" and not hook:
                sp.evaluate(m, nprocs=2)
            elif op["way"] == "local":
                scale = m(sp.samples) * 0 + 1

                def local(X, *a, k=1, **kw):
                    return m(X) * k * scale
                sp.evaluate(local, k=1)
            elif op["way"] == "lambda":
                sp.evaluate(lambda X, a, b: m(X), object(), b=open)
            elif op["way"] == "method":
                sp.evaluate(Runs(m).run)
            elif op["way"] == "set":
                sp.set_results(m(sp.samples))
            else:
                sp.evaluate(m)
        else:
            kw = dict(op["kw"], seed=op["seed"])
            if op["way"] == "method":
                getattr(sp, "analyze_" + op["f"])(**kw)
            elif op["way"] == "parallel" and plan["outs"]:
                sp.analyze(calls.analyzer(op["f"]).analyze, nprocs=2, **kw)
            else:
                sp.analyze(calls.analyzer(op["f"]).analyze, **kw)
    return calls.outcome(go)[0] if not hook else (go(), "ok")[1]


KEYS = ("names", "bounds", "num_vars", "dists", "outputs", "groups")


def snap(sp):
    """Everything a user can ask of a problem."""
    d = {k: calls.plain(sp.get(k)) for k in KEYS}
    d.update(common.snap(sp))
    d["keys"] = sorted(k for k in sp if k not in calls.DROP)
    d["text"] = text(sp)
    an = sp.analysis
    d["tables"] = tables(an)
    d["emulator"] = emulated(sp)
    return d


def text(sp):
    try:
        return str(sp)
    except Exception as e:
        return "raises " + type(e).__name__


def tables(an):
    if an is None:
        return None
    parts = [an[k] for k in an] if type(an) is dict else [an]
    out = []
    for a in parts:
        try:
            out.append(calls.plain(a.to_df()))
        except Exception as e:
            out.append("raises " + type(e).__name__)
        out.append(emulated(a))
        out.append(getattr(getattr(a, "plot", None), "__name__", None))
        out.append(getattr(getattr(getattr(a, "plot", None), "__func__", None), "__module__", None))
    return out


def emulated(a):
    """What an analysis' own emulator predicts at fixed points."""
    f = getattr(a, "emulate", None)
    if f is None or not isinstance(a, dict):
        return f is not None
    import numpy as np
    d = len([n for n in a.get("names", a.get("Term", [])) if "/" not in n])
    X = np.array([[(7 * i + 3 * j) % 11 / 11 for j in range(d)] for i in range(12)])
    had = "emulated" in a
    st = calls.outcome(f, X)
    if not had and "emulated" in a:
        st = ("ok", calls.plain(a.pop("emulated")))
    return list(st)


def differ(a, b, tol=0.0):
    for k in a:
        if (a[k] is None) != (b[k] is None):
            return "%s: %s vs %s" % (k, str(a[k])[:100], str(b[k])[:100])
        if k == "text" and tol:
            continue
        d = calls.diff(a[k], b[k], tol, k)
        if d:
            return d
    return None


def refuse(what, how, e):
    raise Violation("%s cannot be %s" % (what, {"copy": "copied", "deepcopy": "copied"}.get(how, "saved and restored")),
                    "%s: %s: %s" % (how, type(e).__name__, str(e)[:200]), key="refused:" + how)


def pack(how, x):
    try:
        return _pack(how, x)
    except Exception as e:
        refuse(type(x).__name__, how, e)


def _pack(how, x):
    if how.startswith("pickle"):
        return pickle.dumps(x, int(how[6:]))
    if how == "dill":
        from .. import pools
        return pools._ser("dill").dumps(x)
    return None


def unpack(how, b):
    try:
        return pickle.loads(b) if how.startswith("pickle") else __import__("dill").loads(b)
    except Exception as e:
        refuse("object", how, e)


def duplicate(how, x):
    b = pack(how, x)
    if b is not None:
        return unpack(how, b)
    try:
        return copy.deepcopy(x) if how == "deepcopy" else copy.copy(x)
    except Exception as e:
        refuse(type(x).__name__, how, e)


def reference(plan):
    """The same history, never interrupted: state after every step."""
    with common.quiet():
        sp = new(plan)
        out = [snap(sp)]
        sts = []
        for op in plan["ops"]:
            sts.append(do(plan, sp, op))
            out.append(snap(sp))
        return sts, out


def new(plan):
    return common.spec(plan["problem"], ["o%d" % i for i in range(plan["outs"])] if plan["outs"] else None)


def resume(plan, how, blob, at):
    """In another process: the restored problem's state, and its states after the remaining steps."""
    with common.quiet():
        sp = unpack(how, blob)
        out = [snap(sp)]
        for op in plan["ops"][at:]:
            do(plan, sp, op)
            out.append(snap(sp))
        return out


def tol_of(plan):
    return 1e-6 if any(o.get("f") in calls.HEAVY for o in plan["ops"]) else 1e-9


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    sts, ref = fresh.alone(reference, plan)
    tol = tol_of(plan)
    ops, hist, states, done = plan["ops"], [], [], 0
    with activate(w), common.quiet():
        sp = new(plan)
        saves = list(plan["saves"])

        def same(got, want, what, key):
            d = differ(got, want, tol)
            if d:
                raise Violation(what, "%s (history %s)" % (d, hist[-6:]), key=key)

        def save(s, n):
            """Returns the problem to go on with."""
            nonlocal done
            how, then = s["how"], s["then"]
            before = snap(sp)
            if s["what"] == "analysis":
                if sp.analysis is None:
                    return sp
                q = duplicate(how, sp.analysis)
                d = calls.diff(calls.plain(q), calls.plain(sp.analysis), 0.0) or \
                    calls.diff(tables(q), tables(sp.analysis), 0.0)
                if d or type(q) is not type(sp.analysis):
                    raise Violation("restored analysis differs from the saved one", "%s: %s (history %s)" % (how, d, hist[-4:]),
                                    key="analysis:" + how)
                for name in ("to_df", "plot", "emulate"):
                    f = getattr(q, name, None)
                    if type(q) is not dict and f is not None and getattr(f, "__self__", q) is not q:
                        raise Violation("restored analysis answers for another one", "%s of %s" % (name, how),
                                        key="analysis-bound:" + how)
                same(snap(sp), before, "saving changed the problem", "save-changed:" + how)
                done += 1
                states.append(digest(["analysis", how, ops[n - 1].get("f")]))
                hist.append([how, "analysis"])
                return sp
            world.fault("save_" + how)
            blob = pack(how, sp)
            q = unpack(how, blob) if blob is not None else duplicate(how, sp)
            same(snap(sp), before, "saving changed the problem", "save-changed:" + how)
            hist.append([how, then])
            if type(q) is not type(sp):
                raise Violation("restored problem is another kind of object", "%s: %s" % (how, type(q)), key="type:" + how)
            same(snap(q), before, "restored problem differs from the saved one", "restored:" + how)
            states.append(digest([how, then, [o["k"] + str(o.get("f")) + str(o.get("way")) for o in ops[max(0, n - 1):n + 1]]]))
            done += 1
            if then == "crash_peer" and blob is not None:
                world.fault("crash_restart_in_new_process")
                cfg = {"seed": plan["seed"], "cpus": 2, "entropy": plan["world"]["entropy"] + 1}
                got = PEER.call(cfg, "sim.props.c17.resume", (plan, how, blob, n))
                for j, g in enumerate(got):
                    same(g, ref[n + j], "restarted history differs from the uninterrupted one", "restart:" + how)
                return q
            if then == "both":
                # the copy goes its own way first: the original must not notice
                world.fault("copy_used_on_its_own")
                a = snap(q)
                for op in ops[n:n + 1] or ops[:1]:
                    do(plan, q, op)
                if how != "copy":
                    scribble(q)
                same(snap(sp), before, "using the copy changed the original", "independent:" + how)
                q2 = duplicate(how, sp)
                for op in ops[n:n + 1] or ops[:1]:
                    do(plan, sp, op)
                same(snap(q2), a, "using the original changed the copy", "independent2:" + how)
                return q2
            world.fault("crash_restart")
            return q

        for n in range(len(ops) + 1):
            inside = None
            while saves and saves[0]["at"] == n:
                s = saves.pop(0)
                if s["then"] == "inside" and n < len(ops) and ops[n]["k"] == "evaluate" and s["what"] == "problem" \
                        and ops[n]["way"] in ("serial", "local", "lambda", "method"):
                    inside = s
                    continue
                sp = save(s, n)
            if n == len(ops):
                break
            if inside:
                # the model itself saves the problem while it is being evaluated, then the process dies
                kept = []

                def hook():
                    world.fault("save_during_evaluation")
                    kept.append(duplicate(inside["how"], sp))
                try:
                    do(plan, sp, ops[n], hook)
                except Violation:
                    raise
                except Exception:
                    pass
                if kept and inside["how"] != "copy":
                    sp = kept[0]
                    hist.append([inside["how"], "inside"])
                    same(snap(sp), ref[n], "problem saved during evaluation differs from before it", "inside:" + inside["how"])
                    done += 1
            st = do(plan, sp, ops[n])
            hist.append([ops[n]["k"], ops[n].get("f"), ops[n].get("way"), st])
            if st != sts[n]:
                raise Violation("step ended otherwise than in the uninterrupted history", "%s instead of %s (history %s)" % (
                    st, sts[n], hist[-6:]), key="outcome:" + ops[n]["k"])
            same(snap(sp), ref[n + 1], "history after restore differs from the uninterrupted one", "later:" + ops[n]["k"])
        final = snap(sp)
    return {"states": states, "nontrivial": done > 0, "digest": digest([hist, calls.fp(final)]),
            "sample": {"history": hist}}


def scribble(q):
    """Overwrite everything the copy holds."""
    import numpy as np
    for v in (q.samples, q.results):
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
            v[...] = 99.5
    an = q.analysis
    if an is not None:
        for a in ([an[k] for k in an] if type(an) is dict else [an]):
            for v in a.values():
                if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
                    v[...] = -77.25
    if type(q["bounds"]) is not tuple and type(q["bounds"][0]) is not tuple:
        q["bounds"][0][0] = -1234.5
    elif type(q["bounds"]) is list:
        q["bounds"][0] = (-1234.5, 0.0)
    q["names"][0] = "changed"
