"""C07: a call interrupted at any line of library code leaves nothing half-done."""
import copy
import random

from .. import calls, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate
from ..threads import Lines

EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError}


def setup():
    common.preload()


def gen(rng, tier, idx):
    kind = rng.choice(["sample", "analyze", "analyze", "spec"])
    if kind == "sample":
        c = calls.gen_sample(rng, small=True, seed="any")
        if rng.random() < 0.2:
            c = calls.gen_sample(rng, "ff")
    else:
        c = calls.gen_analyze(rng, small=True, seed="any", heavy=0.08)
        if kind == "spec":
            c["model"] = calls.gen_model(rng, rng.choice([1, 1, 2, 3]))
            if c["f"].split(".")[1] in calls.HEAVY:
                c = calls.gen_analyze(rng, "morris", small=True, seed="int")
            if isinstance(c["seed"], dict):
                c["seed"] = 7
    crashes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        crashes.append({"step": rng.choice(["sample", "evaluate", "evaluate_par", "analyze", "analyze", "analyze_par"]),
                        "at": round(rng.random() ** rng.choice([0.5, 1, 2]), 5),
                        "exc": rng.choice(["interrupt", "interrupt", "memory"])})
    return {"kind": kind, "call": c, "crashes": crashes, "world": common.gen_world(rng),
            "share_groups": rng.random() < 0.5}


DEFN = ("names", "bounds", "num_vars", "groups", "dists")


def defn(p):
    """The problem definition, with an absent grouping spelled out."""
    d = {k: copy.deepcopy(p.get(k)) for k in DEFN}
    d["names"] = list(d["names"])
    d["groups"] = list(d["groups"]) if d["groups"] is not None and len(d["groups"]) else list(d["names"])
    d["bounds"] = [list(b) for b in d["bounds"]]
    return d


def _count(fn):
    l = Lines()
    l.run(fn)
    return l.n


def _ref_direct(plan):
    c = plan["call"]
    if c["f"].startswith("sample."):
        p = calls.as_problem(c["problem"])
        before = defn(p)
        n = [0]

        def go():
            l = Lines()
            r = l.run(lambda: calls.run_sample(c, p))
            n[0] = l.n
            return r
        with common.quiet():
            out = calls.outcome(go)
        return {"before": before, "after": defn(p), "lines": n[0], "out": out, "data": None}
    with common.quiet():
        p, X, Y = calls.make_data(c)
        q = calls.as_problem(p)
        before = defn(q)
        n = [0]

        def go():
            l = Lines()
            r = l.run(lambda: calls.run_analyze(c, (p, X, Y), q))
            n[0] = l.n
            return r
        out = calls.outcome(go)
    return {"before": before, "after": defn(q), "lines": n[0], "out": out, "data": (p, X, Y)}


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    if plan["kind"] == "spec":
        return exec_spec(plan, w)
    c = plan["call"]
    name = c["f"]
    ref = fresh.alone(_ref_direct, plan)
    if ref["lines"] == 0:
        raise Skip("no lines")
    fired = []
    with activate(w), common.quiet():
        if ref["data"] is None:
            p = calls.as_problem(c["problem"])
            run = lambda: calls.run_sample(c, p)
            X = Y = None
        else:
            p0, X, Y = ref["data"]
            p = calls.as_problem(p0)
            Xu, Yu = X.copy(), Y.copy()
            run = lambda: calls.run_analyze(c, (p0, Xu, Yu), p, share=True)
        ok_defs = (ref["before"], ref["after"])
        for cr in plan["crashes"]:
            at = 1 + min(ref["lines"] - 1, int(cr["at"] * ref["lines"]))
            l = Lines(at, EXC[cr["exc"]], skip=("util/problem.py",))
            try:
                l.run(run)
            except Exception:
                pass
            except KeyboardInterrupt:
                pass
            if l.fired:
                world.fault("line_" + cr["exc"])
                fired.append(l.fired)
            if defn(p) not in ok_defs:
                raise Violation("problem definition half-done", "%s interrupted at %s: %s" % (name, l.fired, defn(p)),
                                key="definition:" + name)
            if X is not None and (common.np_exact(X, Xu) or common.np_exact(Y, Yu)):
                raise Violation("caller's arrays changed", "%s interrupted at %s: %s" % (
                    name, l.fired, common.np_exact(X, Xu) or common.np_exact(Y, Yu)), key="arrays:" + name)
        got = calls.outcome(run)
        compare(got, ref["out"], name, fired)
        if defn(p) != ref["after"]:
            raise Violation("problem definition differs after the retry", "%s after %s: %s instead of %s" % (
                name, fired, defn(p), ref["after"]), key="definition-after:" + name)
    return {"states": [name + ":" + f for f in fired], "nontrivial": bool(fired) and got[0] == "ok",
            "digest": digest([fired, calls.fp(got)]), "sample": {"call": name, "kw": c["kw"], "interrupted_at": fired,
                                                                 "lines_in_call": ref["lines"]}}


def compare(got, want, name, fired):
    if got[0] != want[0]:
        raise Violation("retry %s, uninterrupted call %s" % (got[0], want[0]),
                        "%s after %s: %s / %s" % (name, fired, str(got)[:300], str(want)[:300]), key="retry:" + name)
    d = calls.diff(got[1], want[1], calls.tol(name)) if got[0] == "ok" else None
    if d:
        raise Violation("retry differs from the uninterrupted call", "%s after %s: %s" % (name, fired, d),
                        key="retry:" + name)


# ---------------------------------------------------------------- steps of a ProblemSpec
class Step:
    def __init__(self, plan):
        self.c = plan["call"]
        self.name = self.c["f"].split(".")[1]
        self.sname = self.c["sample"]["f"].split(".")[1]

    def kw(self):
        kw = dict(self.c["kw"])
        if "seed" in self.c:
            kw["seed"] = calls.make_seed(self.c["seed"])
        return kw

    def skw(self):
        kw = dict(self.c["sample"]["kw"])
        if "seed" in self.c["sample"]:
            kw["seed"] = self.c["sample"]["seed"]
        return kw

    def do(self, sp, step, bomb=None):
        m = calls.Model(self.c["model"])

        def model(X):
            Y = m(X)
            if bomb:
                bomb()
            return Y
        if step == "sample":
            sp.sample(calls.sampler(self.sname).sample, **self.skw())
        elif step == "evaluate":
            sp.evaluate(model)
        elif step == "evaluate_par":
            sp.evaluate_parallel(m, nprocs=3)
        elif step == "analyze":
            sp.analyze(calls.analyzer(self.name).analyze, **self.kw())
        else:
            sp.analyze_parallel(calls.analyzer(self.name).analyze, nprocs=2, **self.kw())


def _ref_spec(plan):
    s = Step(plan)
    out = {"defs": [], "lines": {}}
    with common.quiet():
        sp = common.spec(plan["call"]["problem"])
        out["defs"].append(defn(sp))
        for step in ("sample", "evaluate", "analyze"):
            l = Lines(skip=("util/problem.py",))
            l.run(lambda: s.do(sp, step))
            out["lines"][step] = max(1, l.n)
            out["defs"].append(defn(sp))
        out["final"] = common.snap(sp)
    return out


def exec_spec(plan, w):
    s = Step(plan)
    try:
        ref = fresh.alone(_ref_spec, plan)
    except RuntimeError as e:
        raise Skip(str(e)[-200:])
    fired = []
    with activate(w), common.quiet():
        sp = common.spec(plan["call"]["problem"])
        order = ["sample", "evaluate", "analyze"]
        todo = list(plan["crashes"])
        pos = 0
        while pos < 3:
            step = order[pos]
            mine = [c for c in todo if c["step"].split("_")[0] == step]
            for cr in mine:
                todo.remove(cr)
                st = cr["step"]
                before = (common.snap(sp), defn(sp))
                what = "%s/%s" % (s.sname if step == "sample" else s.name, st)
                exc = EXC[cr["exc"]]
                try:
                    if st == "evaluate":
                        def bomb():
                            world.fault("model_" + cr["exc"])
                            fired.append(what)
                            raise exc("injected")
                        s.do(sp, st, bomb)
                    elif st.endswith("_par"):
                        f = {"interrupt_at": int(cr["at"] * 3)} if cr["exc"] == "interrupt" else \
                            {"tasks": {str(int(cr["at"] * 3)): "memory"}}
                        world.pool_faults = {"*": f}
                        s.do(sp, st)
                    else:
                        at = 1 + min(ref["lines"][step] - 1, int(cr["at"] * ref["lines"][step]))
                        l = Lines(at, exc, skip=("util/problem.py",))
                        try:
                            l.run(lambda: s.do(sp, st))
                        finally:
                            if l.fired:
                                world.fault("line_" + cr["exc"])
                                fired.append(what + ":" + l.fired)
                    done = True
                except (Exception, KeyboardInterrupt):
                    done = False
                world.pool_faults = {}
                if done:
                    # the fault did not strike (or was absorbed): the step is complete
                    continue
                fired.append(what)
                d = common.same_state(before[0], common.snap(sp))
                if d:
                    raise Violation("state half-done after an interrupted step", "%s %s: %s" % (what, fired[-2:], d),
                                    key="state:" + step)
                if defn(sp) not in (before[1], ref["defs"][pos + 1]):
                    raise Violation("problem definition half-done", "%s %s: %s" % (what, fired[-2:], defn(sp)),
                                    key="definition:" + what)
            s.do(sp, step)
            pos += 1
        d = None
        for k in ref["final"]:
            d = d or calls.diff(common.snap(sp)[k], ref["final"][k], calls.tol(s.name), k)
        if d:
            raise Violation("result after interruptions differs from the uninterrupted run",
                            "%s after %s: %s" % (s.name, fired, d), key="retry:" + s.name)
        if defn(sp) != ref["defs"][3]:
            raise Violation("problem definition differs after the retry", "%s after %s" % (s.name, fired),
                            key="definition-after:" + s.name)
    return {"states": fired, "nontrivial": bool(fired), "digest": digest([fired, calls.fp(common.snap(sp))]),
            "sample": {"sampler": s.sname, "method": s.name, "interrupted_at": fired}}
