"""Determinism of the simulator itself: check.py selftest [runs per property] [PROP ...]

Every run is executed three times: in ascending order in one process per shard, in
descending order in other processes with other processes running beside them, and alone
in a process of its own (a sample).  Everything a run reports has to be the same: outcome,
digest of history, schedule decisions, faults fired, probes, and simulated time.
"""
import json
import os
import pickle
import subprocess
import sys

from . import core, env


def one(prop, tier, seed, idxs, out):
    env.install(ptqdm=os.environ.get("SIM_PTQDM") == "1")
    mod = core.load(prop)
    if hasattr(mod, "setup"):
        mod.setup()
    res = {}
    for i in idxs:
        o = core.run_plan(mod, core.gen_plan(mod, prop, seed, i, tier))
        r = o.get("out") or {}
        res[i] = core.digest([o["status"], o.get("key"), o.get("detail"), o.get("why"), r.get("digest"),
                              sorted(map(str, r.get("states", ()))), o.get("sched"), o.get("faults"),
                              o.get("probes"), repr(o.get("sim_time"))])
    if hasattr(mod, "teardown"):
        mod.teardown()
    with env.real_open(out, "w") as f:
        json.dump(res, f)


def start(prop, idxs, shard, tmp, tag):
    out = os.path.join(tmp, "%s-%s-%d.json" % (prop, tag, shard))
    p = subprocess.Popen([core.PY, os.path.join(core.HERE, "check.py"), "_selfshard", prop, "quick", "1",
                          ",".join(map(str, idxs)), out], env=core.shard_env("1", shard), cwd=core.HERE,
                         stdin=subprocess.DEVNULL)
    return p, out


def finish(jobs):
    res = {}
    for p, out in jobs:
        if p.wait():
            raise SystemExit("selftest: a process failed")
        with open(out) as f:
            res.update(json.load(f))
    return res


def main(a):
    import shutil
    n = int(a[0]) if a else 200
    props = a[1:] or sorted(f[:3].upper() for f in os.listdir(os.path.join(core.HERE, "sim", "props")) if f[0] == "c" and f.endswith(".py"))
    tmp = os.path.join(core.HERE, ".work", "selftest-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    bad, report = 0, {}
    for prop in props:
        by = {s: [i for i in range(n) if i % 8 == s] for s in range(8)}
        first = finish([start(prop, by[s], s, tmp, "a") for s in range(8)])
        second = {}
        for group in ((0, 1, 2), (3, 4, 5), (6, 7)):
            second.update(finish([start(prop, by[s][::-1], s, tmp, "b") for s in group]))
        third = finish([start(prop, [i], i % 8, tmp, "c") for i in range(0, n, max(n // 8, 1))])
        d = [i for i in first if second[i] != first[i]] + [i for i in third if third[i] != first[i]]
        report[prop] = {"runs": n, "repeated_alone": len(third), "different": d}
        print(prop, "runs", n, "different", d, flush=True)
        bad += len(d)
    shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0
