"""C12: `salib analyze` prints the table of the files it was given, or fails."""
import errno
import io
import json
import os
import re
import sys

from .. import calls, cli, common, env, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate

READ_ERR = ["EIO", "EIO", "ESTALE", "EISDIR"]
OPEN = ["EACCES", "EMFILE", "ENOENT", "EIO"]


def setup():
    common.preload()
    import SALib.scripts.salib  # noqa


def gen_fault(rng, files):
    k = rng.choice(["read", "read", "read", "short", "short", "open", "stdout", "stdout", "outshort"])
    if k == "read":
        return {"op": "read", "file": rng.choice(files), "kind": rng.choice(["error", "error", "interrupt", "memory"]),
                "errno": getattr(errno, rng.choice(READ_ERR)), "frac": round(rng.random(), 4) if rng.random() < 0.85 else
                rng.choice([0.0, 1.0])}
    if k == "short":
        return {"op": "read", "file": None, "kind": "short",
                "sizes": [rng.choice([1, 2, 3, 7, rng.randint(1, 200), 500]) for _ in range(5)], "sticky": True}
    if k == "open":
        return {"op": "open_r", "file": rng.choice(files), "kind": "error", "errno": getattr(errno, rng.choice(OPEN))}
    if k == "stdout":
        return {"op": "stdout", "kind": "error", "errno": getattr(errno, rng.choice(["EPIPE", "ENOSPC", "EIO"])),
                "frac": round(rng.random(), 4)}
    return {"op": "stdout", "kind": "short", "errno": 0, "frac": round(rng.random(), 4)}


def gen(rng, tier, idx):
    name = rng.choice([a for a in calls.ANALYZERS if a not in calls.HEAVY or rng.random() < 0.35])
    while True:
        c = calls.gen_analyze(rng, name, seed="int", groups=0.4, dists=0.0, small=rng.random() < 0.6)
        s = c["sample"]
        if name not in ("ff",) and rng.random() < 0.3:
            kinds = cli.FILE_DISTS if s["f"] in ("sample.latin", "sample.fast_sampler") else cli.FILE_BOUNDED
            p = s["problem"]
            ds = [rng.choice(kinds) for _ in range(p["num_vars"])]
            if name != "discrepancy" and not all(d == "unif" for d in ds):
                p["dists"] = ds
                p["bounds"] = [calls._bound(rng, d) for d in ds]
        break
    if name in ("pawn", "rsa", "rbd_fast", "discrepancy", "delta", "dgsm", "fast") and rng.random() < 0.12:
        p = s["problem"]
        for k in ("names", "bounds", "dists"):
            if k in p:
                p[k] = p[k][:1]
        if "dists" in p:
            del p["dists"]
            p["bounds"] = [[-3.0, 3.0]]
        p["num_vars"] = 1
    for k in ("keep_resamples", "conf_level"):
        c["kw"].pop(k, None)
    if name == "discrepancy":
        c["kw"] = {}
    if name == "sobol" and rng.random() < 0.2:
        c["kw"].update(parallel=True, n_processors=rng.choice([2, 3, 4]))
    for k in ("num_resamples", "num_levels", "S", "bins", "target", "method", "M", "second_order", "m", "maxiter",
              "max_iter"):
        # fast and fast_sampler must agree on M, a morris design on its levels
        if k in c["kw"] and rng.random() < 0.15 and not (k == "M" and name == "fast") and k != "num_levels" and \
                not (k == "num_resamples" and name in ("delta", "dgsm", "morris", "sobol")):
            del c["kw"][k]
    files = ["p.txt", "y.txt"] + (["x.txt"] if name in calls.NEEDS_X else [])
    bins = None
    if name == "delta" and rng.random() < 0.35:
        bins = {"how": rng.choice(["inline", "file"]),
                "spec": {n: rng.choice([4, 6, 8]) for n in s["problem"]["names"] if rng.random() < 0.6}}
        if bins["how"] == "file":
            files.append("b.json")
    if rng.random() < 0.1:
        c.pop("seed", None)
    elif rng.random() < 0.1:
        c["seed"] = 0
    ncol = rng.choice([1, 1, 2, 3, 5])
    rounds = []
    for _ in range(rng.choice([1, 1, 2])):
        rounds.append({"fault": None if rng.random() < 0.3 else gen_fault(rng, files),
                       "buf": rng.choice([16, 100, 512, 4096, 8192]), "obuf": rng.choice([1, 64, 1024, 8192])})
    return {"call": c, "ncol": ncol, "col": rng.randrange(ncol), "colflag": ncol > 1 or rng.random() < 0.2,
            "delim": rng.choice([None, None, ",", ";", "\t", "|"]), "pdelim": rng.choice([" ", ",", "\t"]),
            "comments": rng.random() < 0.2, "eol": rng.choice(["\n", "\n", "\n", "\r\n"]), "last": rng.random() < 0.85,
            "bins": bins, "rounds": rounds,
            "torn": {"file": rng.choice(files[1:3]), "how": rng.choice(["byte", "byte", "row", "cell", "word", "head"]),
                     "frac": round(rng.random(), 4)} if rng.random() < 0.2 else None, "world": common.gen_world(rng)}


def parse(text, delim, col=None):
    """The rows of a data file, read independently of numpy; None if a value (of column col) is malformed."""
    rows = []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if line:
            try:
                cells = line.split() if delim == " " else line.split(delim)
                rows.append([float(v) for v in (cells if col is None else [cells[col]])])
            except (ValueError, IndexError):
                return None
    return rows


def tear(text, t):
    """What is on disk after the program writing a data file was stopped part way, or damaged it."""
    n = len(text)
    k = int(t["frac"] * n)
    if t["how"] == "byte":
        return text[:k]
    if t["how"] == "row":
        return text[:text.rfind("\n", 0, k) + 1]
    if t["how"] == "head":
        return text[text.find("\n", k) + 1:] if text.find("\n", k) >= 0 else text[:k]
    lines = text.split("\n")
    i = min(int(t["frac"] * len(lines)), len(lines) - 1)
    while i > 0 and not lines[i].strip():
        i -= 1
    ln = lines[i].rstrip("\r")
    if t["how"] == "cell":
        lines[i] = ln[:int(len(ln) * (t["frac"] * 7.3 % 1))]
    else:
        lines[i] = "failed"
    return "\n".join(lines)


RANDOM_NAMES = {"morris", "sobol", "delta", "dgsm", "fast", "rbd_fast", "hdmr", "enhanced_hdmr", "ff"}


def prepare(plan):
    """The data files' contents."""
    import numpy as np
    c = plan["call"]
    with common.quiet():
        p, X, Y = calls.make_data(c)
    return X, Y


def frames(Si):
    """Every number of the tables a result converts to."""
    import numpy as np
    import pandas as pd
    df = Si.to_df()
    out = []
    for d in (df if isinstance(df, (list, tuple)) else [df]):
        if isinstance(d, pd.DataFrame):
            for col in d.columns:
                if pd.api.types.is_float_dtype(d[col]):
                    out += [float(v) for v in d[col].to_numpy()]
    return out


def api_text(plan, fp, X, Y, api):
    """(status, printed text, numbers) of the equivalent Python call."""
    c = plan["call"]
    name = c["f"].split(".")[1]
    buf = io.StringIO()
    o = sys.stdout
    world.clock.step, world.clock.jumps, world.clock.now = 0.0, {}, 1e9
    try:
        sys.stdout = buf
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a = (fp, X, Y) if name in calls.NEEDS_X else (fp, Y)
            Si = calls.analyzer(name).analyze(*a, print_to_console=True, **api)
    except Exception as e:
        return "err", type(e).__name__, []
    finally:
        sys.stdout = o
    try:
        nums = frames(Si)
    except Exception:
        nums = []
    return "ok", buf.getvalue(), nums


_NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|NaN|inf)")


def tokens(text):
    out = []
    for t in _NUM.findall(text):
        try:
            out.append(float(t))
        except ValueError:
            pass
    return out


def missing(nums, text, eps=2e-5):
    """A number of the table that the text does not show (to the printed digits)."""
    import math
    if "..." in text:
        return None
    toks = tokens(text)
    for v in nums:
        if not math.isfinite(v):
            continue
        if not any(abs(t - v) <= 1e-3 * abs(v) + eps for t in toks):
            return v
    return None


def execute(plan):
    import numpy as np
    c = plan["call"]
    name = c["f"].split(".")[1]
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    try:
        X, Y = fresh.alone(prepare, plan)
    except RuntimeError as e:
        raise Skip(str(e)[-200:])
    delim = plan["delim"] if plan["delim"] is not None else " "
    hist, states, shown = [], [], 0
    with common.Scratch() as d:
        pf, xf, yf, bf = (os.path.join(d, n) for n in ("p.txt", "x.txt", "y.txt", "b.json"))
        fp = cli.write_params(pf, c["problem"], plan["pdelim"], plan["comments"])
        Ys = np.stack([Y * (1 + 0.37 * (j - plan["col"])) + 11.0 * (j - plan["col"]) ** 2 * np.sin(np.arange(len(Y)) + j)
                       if j != plan["col"] else Y for j in range(plan["ncol"])], axis=1)
        bad = False
        for path, M in ((xf, X), (yf, Ys)):
            t = plan["eol"].join(delim.join("%.17e" % v for v in r) for r in M) + (plan["eol"] if plan["last"] else "")
            if plan["comments"]:
                t = "# made by the model" + plan["eol"] + t
            if plan.get("torn") and path.endswith(plan["torn"]["file"]):
                t = tear(t, plan["torn"])
                world.fault("torn_data_file")
                rows = parse(t, delim, None if path == xf else plan["col"])
                if path == xf:
                    if not rows or any(len(r) != X.shape[1] for r in rows):
                        bad = True
                    else:
                        X = np.array(rows)
                elif not rows:
                    bad = True
                else:
                    Y = np.array([r[0] for r in rows])
            with env.real_open(path, "w", newline="") as f:
                f.write(t)
        argv, api = cli.analyze_args(c, pf, xf, yf, plan["col"] if plan["colflag"] else None, plan["delim"])
        if plan["bins"]:
            api["bins_specs"] = dict(plan["bins"]["spec"])
            js = json.dumps(plan["bins"]["spec"])
            if plan["bins"]["how"] == "file":
                with env.real_open(bf, "w") as f:
                    f.write(js)
                argv += ["--bins_specs", bf]
            else:
                argv += ["--bins_specs", js]
        sizes = {n: os.path.getsize(os.path.join(d, n)) for n in os.listdir(d)}
        before = {n: open(os.path.join(d, n), "rb").read() for n in sizes}
        exact = "seed" in c or name not in RANDOM_NAMES
        want = ("err", "a data file is malformed", []) if bad else fresh.alone(api_text, plan, fp, X, Y, api)
        eps = 6e-3 if name in calls.HEAVY else 2e-5
        if want[0] == "ok" and missing(want[2], want[1], eps) is not None:
            raise Violation("printed table lacks a computed index", "%s %s: %s not in %s" % (
                name, api, missing(want[2], want[1], eps), want[1][-800:]), key="table:" + name)
        with activate(w), common.quiet():
            for rd in plan["rounds"] + [{"fault": None, "buf": 8192, "obuf": 8192}]:
                f = dict(rd["fault"]) if rd["fault"] else None
                of = None
                if f and f["op"] == "stdout":
                    of = dict(f, at=int(f["frac"] * max(1, len(want[1]))))
                elif f and f["op"] == "read" and "frac" in f:
                    f["at"] = int(f["frac"] * sizes[f["file"]])
                world.fs = env.FS(d, rd["buf"], [f] if f and not of else [])
                world.clock.step, world.clock.jumps, world.clock.now = 0.0, {}, 1e9
                st, text, exc = cli.run(argv, of, rd["obuf"])
                fs, world.fs = world.fs, None
                kind = (f["op"] + "_" + f["kind"]) if f else "none"
                fired = any(x.get("hit") for x in fs.faults)
                hist.append([kind, st])
                what = "%s fault %s: " % (argv, of or f)
                for n, b in before.items():
                    with env.real_open(os.path.join(d, n), "rb") as g:
                        if g.read() != b:
                            raise Violation("input file changed", what + n, key="input-changed:" + name)
                if st == "ok":
                    if want[0] != "ok":
                        raise Violation("command succeeds where the call raises", what + str(want) + text[-300:],
                                        key="success:" + name)
                    if fired and f["op"] == "read" and f["kind"] != "short" or fired and f["op"] == "open_r":
                        if not (exact and text == want[1]):
                            raise Violation("success reported after a read failed", what + text[-300:], key="read:" + name)
                    if exact and text != want[1] and differs(text, want[1], name):
                        raise Violation("printed table is not the call's", what + "%r instead of %r" % (
                            text[-900:], want[1][-900:]), key="%s:%s" % ("faulty" if f else "clean", name))
                    shown += 1
                else:
                    text = text.rstrip("\ufffd")        # cut inside a character
                    if exact and want[0] == "ok" and text != want[1][:len(text)] and differs(text, want[1][:len(text)], name):
                        raise Violation("failing command printed something else than the table", what + text[-900:],
                                        key="partial:" + name)
                    if want[0] == "ok" and f is None:
                        raise Violation("command fails with no fault present", what + repr(exc), key="fails:" + name)
                    if want[0] == "ok" and f and f["kind"] == "short":
                        raise Violation("command fails on short reads or writes", what + repr(exc), key="short:" + name)
                states.append(digest([name, kind, st, plan["col"], sorted(api)]))
    return {"states": states, "nontrivial": shown > 0, "digest": digest([hist, want[1] if exact else want[0]]),
            "sample": {"argv": argv[:2], "options": {k: v for k, v in api.items()}, "column": plan["col"],
                       "history": hist}}


def differs(a, b, name):
    """Texts that are not the same table (last printed digit aside)."""
    sa, sb = _NUM.sub("#", a).split(), _NUM.sub("#", b).split()
    if sa != sb:
        return True
    ta, tb = tokens(a), tokens(b)
    return len(ta) != len(tb) or any(not (x == y or (x != x and y != y) or abs(x - y) <= 1e-4 * max(abs(x), abs(y), 1e-6))
                                     for x, y in zip(ta, tb))


def shrink(plan):
    import copy
    for i in range(len(plan["rounds"])):
        p = copy.deepcopy(plan)
        del p["rounds"][i]
        yield p
    for k, v in (("ncol", 1), ("delim", None), ("comments", False), ("pdelim", " "), ("eol", "\n"), ("bins", None)):
        if plan[k] != v:
            p = dict(copy.deepcopy(plan), **{k: v})
            if k == "ncol":
                p["col"] = 0
            yield p
