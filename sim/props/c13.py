"""C13: incomplete outputs are refused; a resumed run is as if uninterrupted."""
import os

from .. import calls, cli, common, env, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate


def setup():
    common.preload()
    import SALib.scripts.salib  # noqa


def gen(rng, tier, idx):
    name = rng.choice(["sobol", "sobol", "sobol", "morris", "morris", "dgsm", "fast", "ff", "delta", "rbd_fast",
                       "pawn", "rsa", "discrepancy", "hdmr" if rng.random() < 0.3 else "delta",
                       "enhanced_hdmr" if rng.random() < 0.3 else "rsa"])
    c = calls.gen_analyze(rng, name, seed="int", groups=0.5, small=rng.random() < 0.7, dmax=6)
    if name == "sobol" and rng.random() < 0.2:
        c["kw"].update(parallel=True, n_processors=rng.choice([2, 3, 5]))
    cuts = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        cuts.append({"at": rng.choice(["frac", "frac", "frac", "start", "end", "step-1", "step+1", "half", "zero"]),
                     "frac": round(rng.random(), 5), "offer": rng.random() < 0.9,
                     "via": rng.choice(["call", "call", "call", "spec", "cli"]),
                     "cutX": rng.random() < 0.4, "onlyX": rng.random() < 0.15, "extra": rng.random() < 0.15,
                     "dup": rng.random() < 0.1})
    return {"call": c, "cuts": cuts, "world": common.gen_world(rng),
            "final": rng.choice(["call", "call", "spec"])}


def step_of(c, X):
    """Rows per unit of the design: any other number of outputs is incomplete."""
    name = c["f"][8:]
    p = c["problem"]
    D = p["num_vars"]
    g = len(set(p["groups"])) if p.get("groups") else D
    if name == "sobol":
        return 2 * g + 2 if c["kw"]["calc_second_order"] else g + 2
    if name == "morris":
        return g + 1
    if name == "dgsm":
        return D + 1
    if name == "fast":
        return D
    if name == "ff":
        return len(X)
    return None


def where(cut, lo, n, step):
    """The row at which this run stops: lo <= k < n."""
    s = step or max(1, n // 7)
    k = {"frac": lo + int(cut["frac"] * (n - lo)), "start": lo + 1, "end": n - 1, "half": n // 2, "zero": lo,
         "step-1": lo + s - 1 - (lo % s), "step+1": lo + s + 1 - (lo % s)}[cut["at"]]
    return max(lo, min(n - 1, k))


def prepare(c):
    with common.quiet():
        d = calls.make_data(c)
        return d, calls.outcome(calls.run_analyze, c, d)


def via_spec(c, p, X, Y):
    sp = common.spec(p)
    sp.set_samples(X.copy())
    sp.set_results(Y.copy())
    kw = dict(c["kw"])
    if "seed" in c:
        kw["seed"] = calls.make_seed(c["seed"])
    sp.analyze(calls.analyzer(c["f"][8:]).analyze, **kw)
    return sp.analysis


def cli_ok(c, p):
    d = p.get("dists")
    return not (any(len(b) != 2 for b in p["bounds"]) or (d and set(d) - set(cli.FILE_DISTS))) and \
        not (set(c["kw"]) & {"conf_level"}) and not c["kw"].get("keep_resamples") and \
        (c["f"] != "analyze.discrepancy" or c["kw"].get("method", "WD") == "WD")


def via_cli(c, p, X, Y):
    import numpy as np
    with common.Scratch() as d:
        pf, xf, yf = (os.path.join(d, n) for n in ("p.txt", "x.txt", "y.txt"))
        cli.write_params(pf, p)
        np.savetxt(xf, X, fmt="%.17e")
        np.savetxt(yf, Y, fmt="%.17e")
        argv, _ = cli.analyze_args(c, pf, xf, yf)
        st, text, exc = cli.run(argv)
        if st != "ok":
            if isinstance(exc, SystemExit):
                raise Skip("usage error")
            raise exc if isinstance(exc, Exception) else RuntimeError(repr(exc))
        return {"printed": text}


def execute(plan):
    import numpy as np
    c = plan["call"]
    name = c["f"][8:]
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    try:
        (p, X, Y), ref = fresh.alone(prepare, c)
    except RuntimeError as e:
        raise Skip(str(e)[-200:])
    if ref[0] != "ok":
        raise Skip("call not valid")
    step, n = step_of(c, X), len(X)
    needs_x = name in calls.NEEDS_X
    hist, states, offered = [], [], 0
    model = calls.Model(c["model"])
    with activate(w), common.quiet():
        disk = np.empty(0)              # what the model run has stored so far
        for cut in plan["cuts"]:
            lo = len(disk)
            if lo >= n - 1:
                break
            k = where(cut, lo, n, step)
            disk = np.concatenate([disk, model(X[lo:k])]) if k > lo else disk
            world.fault("model_run_stopped")
            if not cut["offer"]:
                continue
            Yc, Xc, how = disk.copy(), X, "Y[:%d] of %d, step %s" % (k, n, step)
            if cut["extra"]:
                # the resumed run wrote some rows twice
                Yc = np.concatenate([Y, Y[: max(1, min(k, n - 1))]])
                how = "%d rows too many of %d, step %s" % (len(Yc) - n, n, step)
            if needs_x and cut.get("onlyX"):
                # the outputs of the whole run, with an input file that is cut short
                Xc, Yc, how = X[:k], Y.copy(), "X[:%d] with all %d outputs" % (k, n)
                bad = True
            elif needs_x and cut["cutX"] and not cut["extra"] and step:
                Xc = X[:k]
                how = "X and " + how
                bad = k % step != 0 or k == 0
            elif needs_x:
                bad = len(Yc) != n
            else:
                bad = len(Yc) % step != 0 or len(Yc) == 0
            if not bad:
                hist.append([k, "complete design"])
                continue
            fn = {"call": lambda: calls.run_analyze(c, (p, Xc, Yc)), "spec": lambda: via_spec(c, p, Xc, Yc),
                  "cli": lambda: via_cli(c, c["problem"] if name == "ff" else p, Xc, Yc)}
            via = cut["via"]
            if via == "cli" and (not cli_ok(c, p) or len(Yc) == 0):
                via = "call"
            o = calls.outcome(fn[via])
            offered += 1
            hist.append([k, via, o[0] if o[0] == "ok" else o[1]])
            states.append(digest([name, step, via, k % step if step else k * 8 // n, cut["cutX"], cut["extra"]]))
            if o[0] == "ok":
                raise Violation("incomplete outputs analysed", "%s %s via %s: %s gave %s" % (
                    name, c["kw"], via, how, str(o[1])[:300]), key="accepted:%s:%s" % (name, via))
            if o[1] == "Skip":
                raise Skip("usage error")
        lo = len(disk)
        disk = np.concatenate([disk, model(X[lo:])])
        if common.np_exact(disk, Y):
            raise RuntimeError("harness model is not row-wise")
        got = calls.outcome(lambda: via_spec(c, p, X, disk) if plan["final"] == "spec" else
                            calls.run_analyze(c, (p, X, disk)))
        if got[0] != "ok":
            raise Violation("resumed run refused", "%s %s after %s: %s" % (name, c["kw"], hist, got[1]), key="resume:" + name)
        d = calls.diff(got[1], ref[1], calls.tol(c["f"]))
        if d:
            raise Violation("resumed run differs from the uninterrupted one", "%s %s after %s: %s" % (
                name, c["kw"], hist, d), key="resume:" + name)
    return {"states": states, "nontrivial": offered > 0, "digest": digest([hist, calls.fp(got)]),
            "sample": {"method": name, "rows": n, "step": step, "history": hist}}


def shrink(plan):
    import copy
    for i in range(len(plan["cuts"])):
        p = copy.deepcopy(plan)
        del p["cuts"][i]
        yield p
