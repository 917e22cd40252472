"""C10: concurrent seeded calls do not influence each other or the global generator."""
import random

from .. import calls, common, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate
from ..threads import Threads


def setup():
    common.preload()
    import SALib.scripts.salib  # noqa


def _call(rng, name=None):
    if name is None:
        c = calls.gen_sample(rng, small=True) if rng.random() < 0.4 else \
            calls.gen_analyze(rng, small=True, heavy=0.03)
    elif name.startswith("sample."):
        c = calls.gen_sample(rng, name[7:], small=True)
    else:
        c = calls.gen_analyze(rng, name[8:], small=True)
    if "seed" not in c and c["f"] == "analyze.sobol":
        c["seed"] = 1
    return c


def gen(rng, tier, idx):
    n = rng.choice([2, 2, 2, 3, 4])
    cs = [_call(rng)]
    for _ in range(n - 1):
        # same method twice: most shared state lives within one module
        if rng.random() < 0.3:
            v = calls.gen_near(rng, cs[0])["call"]
            if "model" in v and rng.random() < 0.6:
                v["model"] = calls.gen_model(rng, 1)
            cs.append(v)
        else:
            cs.append(_call(rng, cs[0]["f"] if rng.random() < 0.6 else None))
    return {"calls": cs, "how": [rng.choice(["call", "call", "call", "spec"]) for _ in cs],
            "world": common.gen_world(rng), "grain": rng.randrange(4), "data_inside": rng.random() < 0.4}


def seeded(c):
    return "seed" in c or c["f"] in ("sample.saltelli", "sample.ff")


def job(c, data, how, inside):
    """One client's whole work, as a plain outcome."""
    def go():
        if how == "spec":
            if c["f"].startswith("sample."):
                sp = common.spec(c["problem"])
                kw = dict(c["kw"])
                if "seed" in c:
                    kw["seed"] = calls.make_seed(c["seed"])
                sp.sample(calls.sampler(c["f"][7:]).sample, **kw)
                return sp.samples
            sp = common.spec(data[0])
            sp.set_samples(data[1].copy())
            sp.set_results(data[2].copy())
            kw = dict(c["kw"])
            if "seed" in c:
                kw["seed"] = calls.make_seed(c["seed"])
            sp.analyze(calls.analyzer(c["f"][8:]).analyze, **kw)
            return sp.analysis
        if inside and not c["f"].startswith("sample."):
            return calls.run_call(c)
        return calls.run_call(c, data)
    return calls.outcome(go)


def prepare(c):
    with common.quiet():
        return calls.make_data(c) if c["f"].startswith("analyze.") else None


def rng_state():
    import numpy as np
    s = np.random.get_state()
    return digest([s[0], s[1].tobytes().hex(), s[2], s[3], s[4]]), digest(repr(random.getstate()))


def alone(c, data, how, inside):
    a = rng_state()
    with common.quiet():
        out = job(c, data, how, inside)
    return out, a == rng_state(), [x == y for x, y in zip(a, rng_state())]


def execute(plan):
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    cs, how, inside = plan["calls"], plan["how"], plan["data_inside"]
    data, ref = [], []
    for c, h in zip(cs, how):
        try:
            d = fresh.alone(prepare, c)
            o, clean, which = fresh.alone(alone, c, d, h, inside)
        except RuntimeError as e:
            raise Skip(str(e)[-300:])
        data.append(d)
        ref.append(o)
        if not clean and seeded(c):
            raise Violation("seeded call changed the global random generator", "%s %s seed=%s: %s" % (
                c["f"], c["kw"], c.get("seed"), "numpy" if not which[0] else "random"), key="global-rng:" + c["f"])
    # ff pads problems once, saltelli etc. are deterministic: all comparable
    if not any(o[0] == "ok" for o in ref):
        raise Skip("no valid call")
    with activate(w), common.quiet():
        before = rng_state()
        t = Threads([lambda c=c, d=d, h=h: job(c, d, h, inside) for c, d, h in zip(cs, data, how)],
                    plan["grain"])
        out = t.run()
        after = rng_state()
    names = [c["f"] for c in cs]
    for c, got, want in zip(cs, out, ref):
        if got is None or got[0] != want[0]:
            raise Violation("outcome differs from running alone", "%s among %s: %s instead of %s" % (
                c["f"], names, str(got)[:300], str(want)[:200]), key="outcome:" + c["f"])
        if want[0] != "ok":
            continue
        d = calls.diff(got[1], want[1], calls.tol(c["f"]))
        if d and seeded(c):
            raise Violation("result differs from running alone", "%s %s seed=%s among %s, %d switches: %s" % (
                c["f"], c["kw"], c.get("seed"), names, t.switches, d), key="result:" + c["f"])
    if all(seeded(c) for c in cs) and before != after:
        raise Violation("concurrent seeded calls changed the global random generator", "%s" % names,
                        key="global-rng-concurrent")
    world.fault("preemption", t.switches)
    return {"states": [digest([names, sorted(t.points)[:200], t.switches])], "nontrivial": t.switches > 0,
            "digest": digest([[calls.fp(o) for o in out], t.switches, t.lines]),
            "sample": {"threads": names, "switches": t.switches, "lines": t.lines}}


def shrink(plan):
    import copy
    n = len(plan["calls"])
    if n > 2:
        for i in range(n):
            p = copy.deepcopy(plan)
            del p["calls"][i], p["how"][i]
            p.pop("sched", None)
            yield p
