"""C11: `salib sample` writes the whole sample or fails visibly."""
import errno
import os

from .. import calls, cli, common, env, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate

LEFT = ["none", "none", "empty", "longer", "shorter", "garbage", "nonewline", "binary"]
ERR = ["ENOSPC", "EIO", "EDQUOT", "EFBIG"]
OPEN = ["EACCES", "EMFILE", "ENOENT", "EISDIR", "EROFS"]


def setup():
    common.preload()
    import SALib.scripts.salib  # noqa


def gen_fault(rng, size):
    k = rng.choice(["write", "write", "write", "short", "crash", "crash", "interrupt", "close", "open", "read", "readshort"])
    at = rng.choice([0, 0, 1, rng.randrange(1, size + 1), rng.randrange(1, size + 1), rng.randrange(1, size + 1),
                     max(0, size - 1), rng.randrange(max(1, size - 40), size + 1)])
    if k == "write":
        return {"op": "write", "file": "o.txt", "kind": "error", "errno": getattr(errno, rng.choice(ERR)), "at": at,
                "sticky": rng.random() < 0.5}
    if k == "short":
        return {"op": "write", "file": "o.txt", "kind": "short", "at": at, "sticky": True}
    if k in ("crash", "interrupt"):
        return {"op": "write", "file": "o.txt", "kind": k, "at": at}
    if k == "close":
        return {"op": "close", "file": "o.txt", "kind": "error", "errno": getattr(errno, rng.choice(ERR))}
    if k == "open":
        return {"op": rng.choice(["open_w", "open_r"]), "file": None, "kind": "error",
                "errno": getattr(errno, rng.choice(OPEN))}
    if k == "read":
        return {"op": "read", "file": "p.txt", "kind": rng.choice(["error", "interrupt"]), "errno": errno.EIO,
                "at": rng.choice([0, 1, rng.randrange(1, 200)])}
    return {"op": "read", "file": "p.txt", "kind": "short", "sizes": [rng.randint(1, 40) for _ in range(5)], "sticky": True}


def gen(rng, tier, idx):
    name = rng.choice(calls.SAMPLERS)
    g = 0.4 if name in ("sobol", "saltelli", "morris", "latin") else 0.0
    kinds = cli.FILE_DISTS if name in ("latin", "fast_sampler") else cli.FILE_BOUNDED
    c = calls.gen_sample(rng, name, groups=0.0, seed="int", small=rng.random() < 0.7, dists=0.0)
    c["problem"] = calls.gen_problem(rng, 2, 7, g, 0.35 if name != "ff" else 0.0, kinds)
    c["kw"].pop("skip_values", None) if name == "finite_diff" else None
    if "seed" in c and rng.random() < 0.1:
        c["seed"] = 0
    if rng.random() < 0.1:
        c.pop("seed", None)
    if rng.random() < 0.25:
        for k in ("scramble", "calc_second_order", "M", "delta", "num_levels"):
            if rng.random() < 0.6 and not (name == "fast_sampler"):
                c["kw"].pop(k, None)
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        rounds.append({"faults": [] if rng.random() < 0.25 else [gen_fault(rng, 4000)],
                       "buf": rng.choice([1, 16, 100, 256, 4096, 8192])})
        rounds[-1]["frac"] = [round(rng.random(), 4) for _ in rounds[-1]["faults"]]
    return {"call": c, "delim": rng.choice([None, None, ",", ";", "\t", ", ", "|"]),
            "precision": rng.choice([None, None, 0, 1, 4, 12, 16, 17]), "long": rng.random() < 0.3,
            "pdelim": rng.choice([" ", " ", ",", "\t"]), "comments": rng.random() < 0.3,
            "left": rng.choice(LEFT), "rounds": rounds, "world": common.gen_world(rng)}


def leave(path, kind, n, s):
    import random
    r = random.Random(s)
    if kind == "none":
        return
    row = b"9.99999999e+99 " * 3 + b"\n"
    b = {"empty": b"", "longer": row * (n * 3 + 20), "shorter": row, "garbage": b"name,value\n# nothing\n",
         "nonewline": row[:-1], "binary": bytes(r.randrange(256) for _ in range(3000))}[kind]
    with env.real_open(path, "wb") as f:
        f.write(b)


def expected(plan, fp):
    import numpy as np
    c = plan["call"]
    argv, api = cli.sample_args(c, "", "")
    with common.quiet():
        o = calls.outcome(lambda: calls.sampler(c["f"].split(".")[1]).sample(fp, **api))
    return o


def wrong(path, plan, want):
    """Why the file is not the complete sample, or None."""
    delim = plan["delim"] if plan["delim"] is not None else " "
    prec = plan["precision"] if plan["precision"] is not None else 8
    if not os.path.exists(path):
        return "no file"
    try:
        rows, text = cli.parse(path, delim)
    except UnicodeDecodeError as e:
        return "not text: %s" % e
    if not text.endswith("\n"):
        return "last line cut: %r" % text[-30:]
    if len(rows) != len(want):
        return "%d rows instead of %d" % (len(rows), len(want))
    exact = "seed" in plan["call"] or plan["call"]["f"] in ("sample.saltelli", "sample.ff", "sample.finite_diff")
    for i, (r, w) in enumerate(zip(rows, want)):
        if len(r) != len(w):
            return "row %d has %d columns instead of %d" % (i, len(r), len(w))
        for j, (x, v) in enumerate(zip(r, w)):
            try:
                f = float(x)
            except ValueError:
                return "row %d column %d is %r" % (i, j, x)
            if not exact:
                continue
            t = "%.*e" % (prec, v)
            if x != t and not abs(f - float(v)) <= 1.01 * 10.0 ** -prec * abs(float(v)) * 1.0 + 1e-300:
                return "row %d column %d is %s instead of %s" % (i, j, x, t)
            if prec <= 12 and len(x.split("e")[0].split(".")[-1] if "." in x else "") < prec:
                return "row %d column %d is %s: fewer than %d digits" % (i, j, x, prec)
    return None


def execute(plan):
    c = plan["call"]
    name = c["f"].split(".")[1]
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    states, hist = [], []
    done = 0
    with common.Scratch() as d:
        pf, of = os.path.join(d, "p.txt"), os.path.join(d, "o.txt")
        fp = cli.write_params(pf, c["problem"], plan["pdelim"], plan["comments"])
        with env.real_open(pf, "rb") as f:
            ptext = f.read()
        want = fresh.alone(expected, plan, fp)
        argv, api = cli.sample_args(c, pf, of, plan["delim"], plan["precision"], plan["long"])
        leave(of, plan["left"], len(want[1]) if want[0] == "ok" else 5, plan["seed"])
        prec = plan["precision"] if plan["precision"] is not None else 8
        size = 200
        if want[0] == "ok":
            r, k = want[1].shape
            size = r * (k * (prec + 7) + (k - 1) * len(plan["delim"] or " ") + 1)
        with activate(w), common.quiet():
            for i, rd in enumerate(plan["rounds"] + [{"faults": [], "buf": 8192, "frac": []}]):
                faults = []
                for f, fr in zip(rd["faults"], rd["frac"]):
                    f = dict(f)
                    if f["op"] == "write" and f.get("at", 0) > 1:
                        f["at"] = int(fr * size)
                    faults.append(f)
                world.fs = env.FS(d, rd["buf"], faults)
                st, text, exc = cli.run(argv)
                fs, world.fs = world.fs, None
                fired = any(f.get("hit") or f.get("n") for f in fs.faults)
                kinds = [f["op"] + "_" + f["kind"] for f in faults]
                hist.append([kinds, st])
                what = "%s round %d faults %s: " % (argv, i, faults)
                with env.real_open(pf, "rb") as f:
                    if f.read() != ptext:
                        raise Violation("parameter file changed", what, key="paramfile:" + name)
                if st == "ok":
                    if want[0] != "ok":
                        raise Violation("command succeeds where the call raises", what + str(want), key="success:" + name)
                    x = wrong(of, plan, want[1])
                    if x:
                        raise Violation("success reported for an incomplete or wrong file", what + x,
                                        key="%s:%s" % ("faulty" if faults else "clean", name))
                    done += 1
                elif not faults and want[0] == "ok":
                    raise Violation("command fails with no fault present", what + repr(exc), key="fails:" + name)
                elif faults and st == "fail" and want[0] == "ok" and not fired and \
                        not any(f["op"] == "read" or f["kind"] == "short" for f in faults):
                    raise Violation("command fails though no fault struck", what + repr(exc), key="fails:" + name)
                elif faults and all(f["kind"] == "short" for f in faults) and want[0] == "ok" and st == "fail":
                    # short reads and writes are not errors
                    raise Violation("command fails on short reads or writes", what + repr(exc), key="short:" + name)
                states.append(digest([name, kinds, st, plan["left"]]))
    return {"states": states, "nontrivial": done > 0 and want[0] == "ok", "digest": digest([hist, calls.fp(want)]),
            "sample": {"argv": argv[:2], "options": api, "left_behind": plan["left"], "history": hist}}


def shrink(plan):
    import copy
    for i in range(len(plan["rounds"])):
        p = copy.deepcopy(plan)
        del p["rounds"][i]
        yield p
    for k, v in (("left", "none"), ("delim", None), ("precision", None), ("long", False), ("comments", False),
                 ("pdelim", " ")):
        if plan[k] != v:
            yield dict(copy.deepcopy(plan), **{k: v})
