"""C15: histories of calls on shared problems and arrays leave no trace."""
import copy
import random

from .. import calls, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate

VIEWS = ["dict", "dict", "dict", "shallow", "spec", "spec"]
KEYS = ("names", "bounds", "num_vars", "dists")


def setup():
    common.preload()


def gen_emulation(rng):
    """Several emulators of one problem, used in any order."""
    p = calls.gen_problem(rng, 2, 3, 0.0, 0.0, calls.BOUNDED)
    ops = [gen_op(rng, p, False, "sample")]
    ops[0].update(f="sample.latin", kw={"N": 310})
    for _ in range(rng.choice([1, 2, 2, 3])):
        o = gen_op(rng, p, False, "analyze")
        o.update(heavy=rng.choice(sorted(calls.HEAVY)), view=rng.randrange(len(VIEWS)), slot=0)
        ops.append(o)
        for _ in range(rng.choice([1, 2, 3])):
            l = gen_op(rng, p, False, "look")
            l["how"] = rng.choice(["emulate", "emulate", "to_df", "plot"])
            ops.append(l)
        if rng.random() < 0.3:
            ops.append(gen_op(rng, p, False, "newY"))
    return {"problem": p, "ops": ops, "world": common.gen_world(rng)}


def gen(rng, tier, idx):
    if rng.random() < 0.06:
        return gen_emulation(rng)
    ff = rng.random() < 0.35
    p = calls.gen_problem(rng, 2, 5, 0.0 if ff else 0.4, 0.0 if ff else 0.3, calls.BOUNDED)
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 9]) if tier == "quick" else rng.choice([3, 6, 12, 20])):
        ops.append(gen_op(rng, p, ff))
    if not any(o["k"] == "sample" for o in ops[:2]):
        ops.insert(0, gen_op(rng, p, ff, "sample"))
    out = []
    for o in ops:
        out.append(o)
        if o["k"] in ("sample", "analyze") and rng.random() < 0.3:
            # overwrite what this call returned, then make the same call again
            x = gen_op(rng, p, ff, "scribbleX" if o["k"] == "sample" else "scribbleS")
            x["slot"], x["col"] = -1, x["col"] or rng.random() < 0.5
            out += [x, gen_op(rng, p, ff, "same")]
        elif o["k"] == "analyze" and rng.random() < 0.3:
            # new data in the very same arrays, then the same call again
            x = gen_op(rng, p, ff, rng.choice(["scribbleX", "scribbleX", "newY"]))
            x["slot"], x["col"] = o["slot"], True
            out += [x, gen_op(rng, p, ff, "same")]
    ops = out
    return {"problem": p, "ops": ops, "world": common.gen_world(rng)}


def gen_op(rng, p, ff, k=None):
    k = k or rng.choice(["sample", "sample", "sample", "analyze", "analyze", "analyze", "analyze", "scribbleX",
                         "scribbleS", "newY", "editb", "same", "same", "spec_chain", "stray", "look", "look"])
    if ff and k == "analyze" and rng.random() < 0.3:
        k = "ffany"
    op = {"k": k, "view": rng.randrange(len(VIEWS)), "s": rng.randrange(2**31), "slot": rng.randrange(100),
          "seed": rng.choice([0, 1, rng.randrange(2**31), 2**31 - 1]), "col": rng.random() < 0.3}
    if k == "editb":
        op["i"] = rng.randrange(p["num_vars"])
        op["b"] = calls._bound(rng, (p.get("dists") or ["unif"] * 9)[op["i"]])
    names = ["sobol", "saltelli", "latin", "latin", "finite_diff", "morris", "fast_sampler"] + (["ff", "ff"] if ff else [])
    if k == "stray":
        op["call"] = calls.gen_sample(rng, small=True, seed="int") if rng.random() < 0.5 else \
            calls.gen_analyze(rng, small=True, seed="int", heavy=0.05)
    if k in ("sample", "spec_chain"):
        nm = rng.choice(names)
        if nm == "fast_sampler" and p.get("groups"):
            nm = "latin"
        g = calls.gen_sample(rng, nm, small=True, seed="int")
        op["f"], op["kw"] = g["f"], g["kw"]
        if nm == "latin":
            op["kw"]["N"] = rng.choice([60, 170, 300 if rng.random() < 0.2 else 80])
    op["an"] = rng.randrange(1000)
    op["bins"] = rng.random() < 0.5
    if k == "look":
        op["how"] = rng.choice(["to_df", "to_df", "emulate", "emulate", "plot", "print"])
    return op


OF = {"sobol": ["sobol", "sobol", "pawn", "rsa", "rbd_fast", "discrepancy"],
      "saltelli": ["sobol", "pawn", "rsa"],
      "latin": ["delta", "delta", "rbd_fast", "pawn", "rsa", "discrepancy", "hdmr", "enhanced_hdmr"],
      "finite_diff": ["dgsm"], "morris": ["morris"], "fast_sampler": ["fast"], "ff": ["ff"]}


def analysis(slot, op, D):
    """(method, keyword arguments) for a slot's data."""
    r = random.Random(op["an"])
    nm = OF[slot["sampler"]]
    n = len(slot["Xc"])
    nm = [a for a in nm if a != "delta" or n >= 160]
    nm = [a for a in nm if a not in calls.HEAVY or (n >= 300 and D <= 3)]
    a = op.get("heavy") or r.choice(nm)
    kw = {}
    if a == "sobol":
        kw = {"calc_second_order": slot["kw"].get("calc_second_order", True), "num_resamples": 5,
              "keep_resamples": r.random() < 0.4}
    elif a == "morris":
        kw = {"num_resamples": 5, "num_levels": slot["kw"].get("num_levels", 4), "scaled": r.random() < 0.4}
    elif a in ("dgsm", "fast", "rbd_fast"):
        kw = {"num_resamples": 4}
        if a == "fast":
            kw["M"] = slot["kw"]["M"]
    elif a == "delta":
        kw = {"num_resamples": 2}
        if op["bins"]:
            kw["bins_specs"] = "SHARED"
    elif a == "pawn":
        kw = {"S": 3}
    elif a == "rsa":
        kw = {"bins": 4, "target": r.choice(["X", "Y"])}
    elif a == "ff":
        kw = {"second_order": r.random() < 0.5}
    elif a == "discrepancy":
        kw = {"method": r.choice(["WD", "CD"])}
    elif a == "hdmr":
        kw = {"maxorder": r.choice([1, 2, 2, min(3, D)]), "maxiter": 3, "m": r.choice([2, 3]), "K": r.choice([1, 1, 2]), "R": 300}
    elif a == "enhanced_hdmr":
        kw = {"max_order": r.choice([1, 2, 2, min(3, D)]), "poly_order": r.choice([2, 2, 3]), "bootstrap": r.choice([1, 1, 2]),
              "max_iter": 100, "extended_base": r.random() < 0.5,
              "return_emulator": r.random() < 0.8}
        if kw["bootstrap"] > 1:
            kw["subset"] = 300
    kw["seed"] = op["seed"]
    return a, kw


class Model:
    """What each view of the problem must define, aliasing included."""

    def __init__(self, p):
        base = copy.deepcopy(p)
        self.v = [base if k == "dict" else dict(base) for k in VIEWS]
        first = None
        for i, k in enumerate(VIEWS):
            if k == "dict":
                first = self.v[i] if first is None else first
                self.v[i] = first

    def pad(self, i):
        m = self.v[i]
        D = m["num_vars"]
        n = 1
        while n < D:
            n *= 2
        if n > D:
            m["names"] = list(m["names"]) + ["dummy_%d" % j for j in range(n - D)]
            m["bounds"] = list(m["bounds"]) + [[0, 1] for _ in range(n - D)]
            m["num_vars"] = n


def definition(p):
    d = {k: copy.deepcopy(p.get(k)) for k in KEYS}
    d["names"], d["bounds"] = list(d["names"]), [list(b) for b in d["bounds"]]
    g = p.get("groups")
    d["groups"] = list(g) if g is not None and len(g) and list(g) != d["names"] else None
    return d


def ref_sample(p, f, kw):
    with common.quiet():
        return calls.outcome(calls.sampler(f).sample, copy.deepcopy(p), **copy.deepcopy(kw))


def ref_analyze(p, a, X, Y, kw):
    with common.quiet():
        args = (X, Y) if a in calls.NEEDS_X else (Y,)
        return calls.outcome(calls.analyzer(a).analyze, copy.deepcopy(p), *args, **copy.deepcopy(kw))


def other_values(X, how):
    """Other samples in the same ranges."""
    if how == 0:
        return X[::-1].copy()
    if how == 1:
        return X[:, ::-1].copy()
    lo, hi = X.min(axis=0), X.max(axis=0)
    u = (X - lo) / (hi - lo + (hi == lo))
    return lo + (hi - lo) * (u * u if how == 2 else (1 - u) * 0.5)


def new_points(p, n, s):
    import numpy as np
    r = random.Random(s)
    return np.array([[r.uniform(b[0], b[1]) for b in p["bounds"]] for _ in range(n)])


def ref_emulate(p, a, X, Y, kw, Xn, Yn):
    with common.quiet():
        Si = calls.analyzer(a).analyze(copy.deepcopy(p), X, Y, **copy.deepcopy(kw))
        return calls.outcome(emulated, Si, a, Xn, Yn)


def emulated(Si, a, Xn, Yn):
    if a == "hdmr":
        Si.emulate(Xn, Yn)
        return Si["emulated"].copy()
    return Si.emulate(Xn)


def shown(Si):
    """The tables a user sees."""
    t = calls.outcome(Si.to_df)
    return {"table": t, "values": calls.plain({k: v for k, v in Si.items() if k not in ("emulated", "Y_test")})}


def show(Si, how):
    if how == "to_df":
        return Si.to_df()
    if how == "print":
        return print(Si, str(Si), repr(Si))
    import matplotlib.pyplot as plt
    try:
        Si.plot()
    finally:
        plt.close("all")


def execute(plan):
    import numpy as np
    from SALib import ProblemSpec
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    hist, states, ok = [], [], 0
    base = calls.as_problem(plan["problem"])
    model = Model(plan["problem"])
    with activate(w), common.quiet():
        views = []
        for k in VIEWS:
            if k == "dict":
                views.append(base)
            elif k == "shallow":
                views.append(dict(base))
            else:
                views.append(ProblemSpec(dict(base)))
        slots, tables, bins = [], [], None
        last = None

        def check(what):
            for i, v in enumerate(views):
                a, b = definition(v), definition(model.v[i])
                if a != b:
                    k = [x for x in a if a[x] != b[x]][0]
                    raise Violation("problem definition changed", "%s: %s of %s: %s instead of %s (history %s)" % (
                        what, k, VIEWS[i], a[k], b[k], hist[-5:]), key="definition:" + what.split("(")[0])
            for s in slots:
                d = common.np_exact(s["X"], s["Xc"]) or common.np_exact(s["Y"], s["Yc"])
                if s["big"] is not None:
                    d = d or common.np_exact(s["big"], s["bigc"])
                if d:
                    raise Violation("caller's array changed", "%s: %s (history %s)" % (what, d, hist[-5:]),
                                    key="array:" + what.split("(")[0])
            if bins is not None and bins != binsc:
                raise Violation("caller's bins_specs changed", "%s: %s" % (what, bins), key="bins")

        def add_slot(X, f, kw):
            Xc = X.copy()
            m = calls.Model({"outs": 1, "k": [[round(random.Random(len(slots)).uniform(-2, 2), 3) for _ in range(8)]]})
            s = {"X": X, "Xc": Xc, "sampler": f, "kw": kw, "m": m, "big": None}
            Y = m(Xc)
            if len(slots) % 3 == 1:
                big = np.stack([Y * 0 - 5.0, Y, Y * 0 + 7.0], axis=1)
                s["big"], s["bigc"] = big, big.copy()
                Y = big[:, 1]
            s["Y"], s["Yc"] = Y, np.array(Y)
            slots.append(s)
            return s

        def compare(got, want, what):
            if got[0] != want[0]:
                raise Violation("outcome differs from a fresh call", "%s: %s instead of %s (history %s)" % (
                    what, str(got)[:200], str(want)[:200], hist[-5:]), key="later:" + what.split("(")[0])
            if got[0] == "ok":
                d = calls.diff(got[1], want[1], calls.tol(what.split("(")[0]))
                if d:
                    raise Violation("an earlier call changed a later result", "%s: %s (history %s)" % (what, d, hist[-6:]),
                                    key="later:" + what.split("(")[0])

        def do_sample(op, keep=True):
            f, kw = op["f"][7:], dict(op["kw"])
            if f != "saltelli":
                kw["seed"] = op["seed"]
            i = op["view"]
            want = fresh.alone(ref_sample, definition(model.v[i]), f, kw)
            if f == "ff" and want[0] == "ok":
                model.pad(i)
            X = []

            def go():
                r = calls.sampler(f).sample(views[i], **kw)
                X.append(r)
                return r
            got = calls.outcome(go)
            what = "sample.%s(%s)" % (f, VIEWS[i])
            compare(got, want, what)
            if got[0] == "ok" and keep:
                add_slot(X[0], f, kw)
            return what, got[0]

        def do_analyze(op, slot=None):
            nonlocal bins, binsc
            if not slots:
                return "none", "ok"
            s = slot or slots[op["slot"] % len(slots)]
            i = op["view"]
            D = model.v[i]["num_vars"]
            if s["Xc"].shape[1] != D:
                return "none", "ok"
            a, kw = analysis(s, op, D)
            if a in calls.HEAVY and model.v[i].get("dists"):
                return "none", "ok"
            rkw = dict(kw)
            if kw.get("bins_specs") == "SHARED":
                if bins is None:
                    bins = {n: random.Random(j).choice([5, 8]) for j, n in enumerate(model.v[i]["names"][:2])}
                    binsc = dict(bins)
                kw["bins_specs"] = bins
                rkw["bins_specs"] = dict(binsc)
            want = fresh.alone(ref_analyze, definition(model.v[i]), a, s["Xc"].copy(), s["Yc"].copy(), rkw)
            if a == "ff" and want[0] == "ok":
                model.pad(i)
            res = []

            def go():
                args = (s["X"], s["Y"]) if a in calls.NEEDS_X else (s["Y"],)
                r = calls.analyzer(a).analyze(views[i], *args, **kw)
                res.append(r)
                return r
            got = calls.outcome(go)
            what = "analyze.%s(%s)" % (a, VIEWS[i])
            compare(got, want, what)
            if res:
                tables.append((res[0], s, (definition(model.v[i]), a, rkw, s["Xc"].copy(), s["Yc"].copy())))
            return what, got[0]

        binsc = None
        for n, op in enumerate(plan["ops"]):
            k = op["k"]
            what, st = k, "-"
            if k == "same" and last is not None:
                op = last
                k = op["k"]
            if k == "sample":
                what, st = do_sample(op)
                last = op
            elif k in ("analyze", "ffany"):
                what, st = do_analyze(op)
                last = op
            elif k == "stray":
                calls.outcome(calls.run_call, op["call"])
                what = "stray:" + op["call"]["f"]
            elif k == "scribbleX" and slots:
                s = slots[op["slot"] % len(slots)]
                s["X"][...] = other_values(s["X"], op["s"] % 4) if op["col"] else -1.5
                s["Xc"] = s["X"].copy()
                if not op["col"]:
                    slots[:] = [t for t in slots if t is not s]
                else:
                    y = s["m"](s["Xc"])
                    s["Y"][...] = y
                    s["Yc"] = np.array(y)
                    if s["big"] is not None:
                        s["bigc"] = s["big"].copy()
                world.fault("returned_sample_overwritten")
            elif k == "newY" and slots:
                s = slots[op["slot"] % len(slots)]
                y = s["m"](s["Xc"], a=0.5, b=-2.0) + np.sin(s["Xc"][:, 0])
                s["Y"][...] = y
                s["Yc"] = np.array(y)
                if s["big"] is not None:
                    s["bigc"] = s["big"].copy()
                world.fault("outputs_replaced_in_place")
            elif k == "scribbleS" and tables:
                Si, s = tables.pop(op["slot"] % len(tables))[:2]
                try:
                    df = Si.to_df()
                    for d in (df if isinstance(df, (list, tuple)) else [df]):
                        if d is not None:
                            for c in list(d.columns):
                                d[c] = 0
                except Exception:
                    pass
                for k, v in Si.items():
                    if k in ("X", "Y"):
                        continue        # HDMR keeps the input it was given, for its emulator
                    if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable:
                        if any(np.shares_memory(v, x) for t in slots for x in (t["X"], t["Y"])):
                            raise Violation("returned table shares memory with the caller's arrays", str(sorted(Si)),
                                            key="alias")
                        v[...] = 123.25
                world.fault("returned_table_overwritten")
            elif k == "look" and tables:
                # the last result a user would look at, or an old one
                t = [t for t in tables if t[2][1] in calls.HEAVY] if op["how"] == "emulate" else tables
                if t:
                    Si, s, (dp, a, akw, X0, Y0) = t[op["slot"] % len(t)]
                    before, what = shown(Si), "look:%s.%s" % (op["how"], a)
                    if op["how"] == "emulate":
                        Xn = new_points(dp, 20 + op["s"] % 30, op["s"])
                        Yn = Xn.sum(axis=1) if op["s"] % 2 else None
                        want = fresh.alone(ref_emulate, dp, a, X0, Y0, akw, Xn.copy(), None if Yn is None else Yn.copy())
                        mine, mineY = Xn.copy(), None if Yn is None else Yn.copy()
                        got = calls.outcome(emulated, Si, a, mine, mineY)
                        compare(got, want, what)
                        d = common.np_exact(mine, Xn) or (common.np_exact(mineY, Yn) if Yn is not None else None)
                        if d:
                            raise Violation("caller's array changed", "%s: %s" % (what, d), key="array:" + what)
                    else:
                        calls.outcome(show, Si, op["how"])
                    world.probe("look_" + op["how"])
                    d = calls.diff(shown(Si), before, 0.0)
                    if d:
                        raise Violation("looking at a result changed it", "%s: %s (history %s)" % (what, d, hist[-4:]), key=what)
                    st = "ok"
            elif k == "editb":
                # the user replaces one parameter's bounds
                if plan["problem"].get("_bounds") not in ("tuple", "array"):
                    views[op["view"]]["bounds"][op["i"]] = list(op["b"])
                    model.v[op["view"]]["bounds"][op["i"]] = list(op["b"])
                    world.fault("bounds_replaced")
            elif k == "spec_chain":
                i = VIEWS.index("spec") + op["s"] % 2
                sp = views[i]
                f, kw = op["f"][7:], dict(op["kw"])
                if f != "saltelli":
                    kw["seed"] = op["seed"]
                want = fresh.alone(ref_sample, definition(model.v[i]), f, kw)
                if f == "ff" and want[0] == "ok":
                    model.pad(i)
                got = calls.outcome(lambda: sp.sample(calls.sampler(f).sample, **kw).samples)
                what, st = "sample.%s(chain)" % f, got[0]
                compare(got, want, what)
                if got[0] == "ok":
                    s = {"sampler": f, "kw": kw, "Xc": sp.samples.copy(), "X": sp.samples, "big": None}
                    m = calls.Model({"outs": 1, "k": [[0.5, -1.0, 2.0, 0.25, 1.5, -0.75, 1.0, 0.1]]})
                    s["m"], s["Yc"] = m, m(s["Xc"])
                    a, akw = analysis(s, op, model.v[i]["num_vars"])
                    akw.pop("bins_specs", None)
                    if not (a in calls.HEAVY and model.v[i].get("dists")):
                        sp.evaluate(m)
                        s["Y"] = sp.results
                        if op["s"] % 3 == 0:
                            slots.append(s)
                        want = fresh.alone(ref_analyze, definition(model.v[i]), a, s["Xc"].copy(), s["Yc"].copy(), akw)
                        if a == "ff" and want[0] == "ok":
                            model.pad(i)
                        got = calls.outcome(lambda: sp.analyze(calls.analyzer(a).analyze, **akw).analysis)
                        what, st = "analyze.%s(chain)" % a, got[0]
                        compare(got, want, what)
                        d = common.np_exact(sp.samples, s["Xc"]) or common.np_exact(sp.results, s["Yc"])
                        if d:
                            raise Violation("stored samples or results changed", what + ": " + d, key="stored:" + a)
            hist.append([what, st])
            ok += st == "ok"
            check(what)
            states.append(digest([h[0] for h in hist[-3:]]))
    return {"states": states, "nontrivial": ok >= 2, "digest": digest([hist, [calls.fp(s["Yc"]) for s in slots]]),
            "sample": {"history": hist}}
