"""C14: a parameter file is read whole or not at all."""
import errno
import os

from .. import calls, cli, common, env, fresh
from ..common import Violation, Skip, world, digest
from ..env import activate
from ..threads import Lines


def setup():
    common.preload()


def gen_fault(rng):
    k = rng.choice(["short", "short", "err", "err", "nth", "nth", "open", "seek", "line", "line", "memory", "interrupt"])
    chunk = {"op": "read", "file": None, "kind": "short", "sticky": True,
             "sizes": [rng.choice([1, 2, 5, 9, rng.randint(1, 60), rng.randint(60, 900)]) for _ in range(6)]}
    out = [chunk] if k == "short" or rng.random() < 0.4 else []
    if k in ("err", "memory", "interrupt"):
        kind = {"err": "error"}.get(k, k)
        f = {"op": "read", "file": None, "kind": kind, "errno": getattr(errno, rng.choice(["EIO", "EIO", "ESTALE", "EBADMSG"])),
             "frac": round(rng.random(), 4), "sticky": rng.random() < 0.3}
        out.append(f)
    elif k == "nth":
        out.append({"op": "read", "file": None, "kind": rng.choice(["error", "interrupt"]), "errno": errno.EIO,
                    "nth": rng.choice([0, 1, 2, 3, 5, 8, rng.randint(1, 40)])})
    elif k == "open":
        out.append({"op": "open_r", "file": None, "kind": "error",
                    "errno": getattr(errno, rng.choice(["EACCES", "EMFILE", "ENOENT", "EIO"]))})
    elif k == "seek":
        out.append({"op": "seek", "file": None, "kind": "error", "errno": errno.EIO})
    elif k == "line":
        out.append({"op": "line", "kind": rng.choice(["interrupt", "memory"]), "frac": round(rng.random(), 5)})
    # the interesting fault first: a short read must not hide it
    return out[::-1]


def gen(rng, tier, idx):
    big = rng.random()
    if big < 0.5:
        p = calls.gen_problem(rng, 2, 12, 0.4, 0.4, cli.FILE_DISTS)
    else:
        D = rng.choice([rng.randint(20, 60), rng.randint(60, 200), rng.randint(200, 500),
                        rng.randint(200, 500) if big < 0.95 else rng.randint(1000, 3000)])
        # some names whose characters take several bytes, which a short read may split
        pre = ["x", "par_", "Factor"] if rng.random() < 0.7 else ["\u03b8", "d\u00e9bit_", "\u53c2\u6570", "\U0001d6fc", "k"]
        p = {"num_vars": D, "names": ["%s%d" % (rng.choice(pre), i + 1) for i in range(D)],
             "bounds": [calls._bound(rng, "unif") for _ in range(D)]}
        if rng.random() < 0.4:
            p["dists"] = [rng.choice(cli.FILE_DISTS) for _ in range(D)]
            p["bounds"] = [calls._bound(rng, d) for d in p["dists"]]
        if rng.random() < 0.5:
            p["groups"] = ["G%d" % rng.randrange(5) for _ in range(D)]
            p["groups"][0], p["groups"][1] = "G0", "G1"
    rounds = [{"faults": gen_fault(rng), "buf": rng.choice([16, 64, 256, 1024, 4096, 8192, 65536])}
              for _ in range(rng.choice([1, 2, 3, 5]))]
    return {"problem": p, "delim": rng.choice([" ", ",", "\t", ";"]), "pass_delim": rng.random() < 0.3,
            "comments": rng.random() < 0.3, "eol": rng.choice(["\n", "\n", "\r\n"]), "last": rng.random() < 0.8,
            "blank": rng.random() < 0.15, "always": rng.choice([None, None, 4, 5]), "rounds": rounds,
            "world": common.gen_world(rng)}


def same(got, want):
    for k in ("num_vars", "names", "bounds", "dists"):
        if got.get(k) != want[k]:
            return k
    # no groups and every parameter its own group are one meaning
    g = lambda d: list(d.get("groups") or d["names"])
    if g(got) != g(want):
        return "groups"
    return None


def execute(plan):
    from SALib.util import read_param_file
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    p = plan["problem"]
    hist, states, split = [], [], 0
    with common.Scratch() as d:
        pf = os.path.join(d, "p.txt")
        want = cli.write_params(pf, p, plan["delim"], plan["comments"], plan["eol"], plan["always"])
        if want["dists"] and all(x == "unif" for x in want["dists"]):
            want["dists"] = None
        with env.real_open(pf, "rb") as f:
            text = f.read()
        if not plan["last"]:
            text = text[:-len(plan["eol"])]
        if plan["blank"]:
            text += plan["eol"].encode() * 2
        with env.real_open(pf, "wb") as f:
            f.write(text)
        a = (pf, plan["delim"]) if plan["pass_delim"] else (pf,)

        def lines():
            l = Lines()
            l.run(lambda: read_param_file(*a))
            return l.n
        try:
            n = fresh.alone(lines)
        except RuntimeError as e:
            n = 50
        fd0 = len(os.listdir("/proc/self/fd"))
        with activate(w), common.quiet():
            for i, rd in enumerate(plan["rounds"] + [{"faults": [], "buf": 8192}]):
                faults, l = [], None
                for f in rd["faults"]:
                    f = dict(f)
                    if f["op"] == "line":
                        l = Lines(1 + min(n - 1, int(f["frac"] * n)),
                                  KeyboardInterrupt if f["kind"] == "interrupt" else MemoryError)
                        continue
                    if "frac" in f:
                        f["at"] = int(f["frac"] * (len(text) + 1))
                    faults.append(f)
                world.fs = env.FS(d, rd["buf"], faults)
                try:
                    got = l.run(lambda: read_param_file(*a)) if l else read_param_file(*a)
                    st = "ok"
                except (Exception, KeyboardInterrupt) as e:
                    st, got = type(e).__name__, None
                fs, world.fs = world.fs, None
                hard = [f for f in fs.faults if f.get("hit") and f["kind"] != "short"]
                if l and l.fired:
                    world.fault("line_interrupt")
                struck = [f["op"] + "_" + f["kind"] for f in hard] + (["line"] if l and l.fired else [])
                split = max(split, fs.ops)
                what = "%d bytes, %d parameters, faults %s: " % (len(text), p["num_vars"], rd["faults"])
                hist.append([struck, st])
                if st == "ok":
                    k = same(got, want)
                    if k:
                        raise Violation("wrong definition returned", what + "%s is %s instead of %s" % (
                            k, str(got.get(k))[:500], str(want[k])[:500]), key="wrong:" + ("fault" if struck else "clean"))
                elif not struck:
                    raise Violation("read fails with no fault present", what + st, key="fails")
                states.append(digest([struck, st, len(text) // 256, fs.ops // 4, rd["buf"]]))
        fd1 = len(os.listdir("/proc/self/fd"))
        if fd1 > fd0 + 1:
            world.probe("descriptor_left_open")
    return {"states": states, "nontrivial": split > 1, "digest": digest(hist),
            "sample": {"bytes": len(text), "parameters": p["num_vars"], "reads": split, "history": hist}}


def shrink(plan):
    import copy
    for i in range(len(plan["rounds"])):
        p = copy.deepcopy(plan)
        del p["rounds"][i]
        yield p
    for k, v in (("comments", False), ("eol", "\n"), ("last", True), ("blank", False), ("always", None)):
        if plan[k] != v:
            yield dict(copy.deepcopy(plan), **{k: v})
    D = plan["problem"]["num_vars"]
    for m in (D // 2, D - 1):
        if m >= 2:
            p = copy.deepcopy(plan)
            q = p["problem"]
            for k in ("names", "bounds", "dists", "groups"):
                if k in q:
                    q[k] = q[k][:m]
            q["num_vars"] = m
            if "groups" in q and len(set(q["groups"])) < 2:
                continue
            yield p
