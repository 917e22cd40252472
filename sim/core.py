"""Seed -> plan -> execution; shards, isolation, shrinking, evidence, replay."""
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import env, pools
from .env import world

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
now = env.real_time
RUN_TIMEOUT = 100.0


class Violation(Exception):
    def __init__(self, kind, detail="", key=None):
        super().__init__(kind)
        self.kind = kind
        self.detail = str(detail)[:4000]
        self.key = key or kind


class Skip(Exception):
    """The generated case is not usable (counted, never a verdict)."""


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def jdump(x):
    return json.dumps(x, sort_keys=True, default=lambda o: o.item() if hasattr(o, "item") else str(o))


def digest(x):
    if not isinstance(x, (str, bytes)):
        x = jdump(x)
    if isinstance(x, str):
        x = x.encode()
    return hashlib.sha1(x).hexdigest()[:16]


# ---------------------------------------------------------------- one run, in a fork
def _raised_in_library(e):
    """Where in SALib an exception came from, if the innermost frame that belongs to
    either SALib or this machinery is SALib's (and not a seam called by it)."""
    lib = os.path.join(os.path.realpath(env.REPO_SRC), "SALib") + os.sep
    sim = os.path.join(HERE, "sim") + os.sep
    last = None
    for f, line in traceback.walk_tb(e.__traceback__):
        fn = os.path.realpath(f.f_code.co_filename)
        if fn.startswith(lib):
            last = "%s:%d" % (fn[len(lib):], line)
        elif fn.startswith(sim):
            last = None
    return last


def _child(fn, args, wfd):
    try:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        if not os.environ.get("SIM_DEBUG"):
            os.dup2(dn, 2)
        import warnings
        warnings.simplefilter("ignore")
        try:
            out = {"status": "ok", "out": fn(*args)}
        except Violation as v:
            out = {"status": "violation", "kind": v.kind, "detail": v.detail, "key": v.key}
        except Skip as s:
            out = {"status": "skip", "why": str(s)}
        except env.SimEscape as e:
            out = {"status": "error", "trace": "SimEscape " + traceback.format_exc()}
        except env.SimDeadlock as e:
            out = {"status": "violation", "kind": "hang", "detail": str(e), "key": "hang"}
        except BaseException as e:
            world.active = False
            tr = traceback.format_exc()[-6000:]
            where = _raised_in_library(e)
            if where:
                # A call of the scenario that has to succeed raised inside the library
                out = {"status": "violation", "kind": "a call that should succeed raised in the library",
                       "detail": "%s: %s in %s\n%s" % (type(e).__name__, e, where, tr),
                       "key": "library-raised:" + type(e).__name__}
            else:
                out = {"status": "error", "trace": tr}
        world.active = False
        out["sched"] = list(world.ch.trace)
        out["faults"] = dict(world.faults)
        out["probes"] = dict(world.probes)
        out["sim_time"] = world.sim_time
        data = pickle.dumps(out)
    except BaseException:
        data = pickle.dumps({"status": "error", "trace": traceback.format_exc()[-6000:]})
    try:
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    finally:
        os._exit(0)


def fork_call(fn, *args, timeout=RUN_TIMEOUT):
    """Run fn(*args) in a fork of this process; the result comes back pickled."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(fn, args, w)
    os.close(w)
    buf = []
    t0 = now()
    timed_out = False
    while True:
        left = timeout - (now() - t0)
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf.append(d)
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        return {"status": "timeout"}
    _, st = os.waitpid(pid, 0)
    if not buf:
        return {"status": "error", "trace": "run died, wait status %r" % st}
    return pickle.loads(b"".join(buf))


def fork_value(fn, *args, timeout=RUN_TIMEOUT):
    """As fork_call, but give the value or raise."""
    o = fork_call(fn, *args, timeout=timeout)
    if o["status"] == "ok":
        return o["out"]
    if o["status"] == "violation":
        raise Violation(o["kind"], o["detail"], o["key"])
    raise RuntimeError("isolated reference run: %r" % (o,))


def _exec(mod, plan):
    with_world = dict(plan.get("world", {}))
    with_world["seed"] = plan["seed"]
    if "sched" in plan:
        with_world["sched"] = plan["sched"]
    world.reset(with_world)
    return mod.execute(plan)


def run_plan(mod, plan):
    t0 = now()
    o = fork_call(_exec, mod, plan, timeout=RUN_TIMEOUT * getattr(mod, "TIMEOUT_SCALE", 1))
    if o["status"] == "timeout":
        o = {"status": "violation", "kind": "no-progress", "key": "no-progress",
             "detail": "the run did not end within %.0f s" % RUN_TIMEOUT,
             "sched": [], "faults": {}, "probes": {}, "sim_time": 0.0}
    o["wall"] = now() - t0
    return o


def gen_plan(mod, prop, seed, idx, tier):
    rng = random.Random("%s:%s:%s" % (prop, seed, idx))
    plan = mod.gen(rng, tier, idx)
    plan.setdefault("seed", rng.randrange(2**31))
    plan["idx"] = idx
    return plan


# ---------------------------------------------------------------- shrinking
def _generic_shrinks(plan):
    for key in ("ops", "faults", "crashes"):
        v = plan.get(key)
        if isinstance(v, list) and v:
            n = len(v)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    if size == n and key == "ops":
                        continue
                    p = copy.deepcopy(plan)
                    p[key] = v[:i] + v[i + size:]
                    yield p
                size //= 2
    s = plan.get("sched")
    if s:
        for cut in (0, len(s) // 2):
            p = copy.deepcopy(plan)
            p["sched"] = s[:cut]
            yield p
        for frac in range(4):
            a, b = len(s) * frac // 4, len(s) * (frac + 1) // 4
            if any(s[a:b]):
                p = copy.deepcopy(plan)
                p["sched"] = s[:a] + [0] * (b - a) + s[b:]
                yield p
        if len(s) <= 40:
            for i, x in enumerate(s):
                if x:
                    p = copy.deepcopy(plan)
                    p["sched"] = s[:i] + [0] + s[i + 1:]
                    yield p


def minimise(mod, plan, out, budget=40.0, max_runs=150):
    t0 = now()
    best, bout = copy.deepcopy(plan), out
    if "sched" not in best and out.get("sched"):
        p = copy.deepcopy(best)
        p["sched"] = list(out["sched"])
        o = run_plan(mod, p)
        if o["status"] == "violation" and o["key"] == out["key"]:
            best, bout = p, o
    runs = 0
    improved = True
    seen = set()
    while improved and now() - t0 < budget and runs < max_runs:
        improved = False
        cands = list(getattr(mod, "shrink", lambda p: [])(best)) + list(_generic_shrinks(best))
        for c in cands:
            d = digest(c)
            if d in seen:
                continue
            seen.add(d)
            if now() - t0 > budget or runs >= max_runs:
                break
            runs += 1
            o = run_plan(mod, c)
            if o["status"] == "violation" and o["key"] == out["key"]:
                best, bout = c, o
                improved = True
                break
    return best, bout, runs


# ---------------------------------------------------------------- shard process
def shard_main(prop, tier, seed, shard, nshards, count, wall, outfile):
    env.install(ptqdm=os.environ.get("SIM_PTQDM") == "1")
    mod = load(prop)
    if hasattr(mod, "setup"):
        mod.setup()
    pools.own_copy(pools.module_data())      # looked through once, before forking
    world.active = False
    import gc
    gc.freeze()
    agg = {"runs": 0, "skips": 0, "errors": [], "violations": [], "faults": {}, "probes": {},
           "sim_time": 0.0, "states": set(), "nontrivial": 0, "samples": [], "digests": {},
           "idx": [], "wall": 0.0}
    t0 = now()
    for idx in range(shard, count, nshards):
        if now() - t0 > wall:
            break
        plan = gen_plan(mod, prop, seed, idx, tier)
        o = run_plan(mod, plan)
        agg["runs"] += 1
        agg["idx"].append(idx)
        for k in ("faults", "probes"):
            for a, b in (o.get(k) or {}).items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["sim_time"] += o.get("sim_time") or 0.0
        if o["status"] == "ok":
            r = o["out"] or {}
            agg["states"].update(r.get("states", ()))
            agg["digests"][idx] = r.get("digest")
            if r.get("nontrivial", True):
                agg["nontrivial"] += 1
            if len(agg["samples"]) < 1 and r.get("sample") is not None:
                agg["samples"].append(r["sample"])
        elif o["status"] == "skip":
            agg["skips"] += 1
        elif o["status"] == "violation":
            agg["violations"].append({"idx": idx, "plan": plan, "out": o})
            if len(agg["violations"]) >= 3:
                break
        else:
            agg["errors"].append({"idx": idx, "trace": o.get("trace", o["status"])})
            if len(agg["errors"]) >= 5:
                break
    agg["wall"] = now() - t0
    if hasattr(mod, "teardown"):
        mod.teardown()
    with open(outfile, "wb") as f:
        pickle.dump(agg, f)


def shard_env(seed, shard):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str((int(seed) * 31 + shard * 7 + 1) % 4294967295),
             PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             MKL_NUM_THREADS="1", MPLBACKEND="Agg", SIM_PTQDM=str(shard % 2),
             LANG="C.UTF-8", COLUMNS="80", PYTHONPATH=HERE)
    e.pop("PYTHONWARNINGS", None)
    return e


def known_findings():
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[9:].split(" | ")[0].split() if "=" in x)
                d["text"] = l.split(" | ", 1)[1].strip() if " | " in l else ""
                out.append(d)
    return out


def check(prop, tier, seed, count=None, wall=None, nshards=None, quiet=False):
    """Run a whole check.  Returns the exit status."""
    t0 = now()
    sys.path.insert(0, HERE)
    cfg = json.load(open(os.path.join(HERE, "sim", "budgets.json")))[prop][tier]
    count = count or cfg["runs"]
    wall = wall or float(os.environ.get("SIM_WALL", 0)) or cfg["wall"]
    nshards = nshards or 8
    tmp = os.path.join(HERE, ".work", "%s-%d" % (prop, env.real_getpid()))
    os.makedirs(tmp, exist_ok=True)
    procs = []
    for s in range(nshards):
        of = os.path.join(tmp, "s%d.pkl" % s)
        ef = open(os.path.join(tmp, "s%d.err" % s), "wb")
        p = subprocess.Popen([PY, os.path.join(HERE, "check.py"), "_shard", prop, tier, str(seed),
                              str(s), str(nshards), str(count), str(wall), of],
                             env=shard_env(seed, s), stdin=subprocess.DEVNULL, stdout=ef, stderr=ef,
                             cwd=HERE)
        procs.append((p, of, ef, s))
    aggs, broken = [], []
    for p, of, ef, s in procs:
        p.wait()
        ef.close()
        if p.returncode == 0 and os.path.exists(of):
            with open(of, "rb") as f:
                a = pickle.load(f)
            a["shard"] = s
            aggs.append(a)
        else:
            with open(ef.name, errors="replace") as f:
                broken.append("shard %d status %s: %s" % (s, p.returncode, f.read()[-3000:]))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    tot = {"runs": 0, "skips": 0, "nontrivial": 0, "sim_time": 0.0}
    faults, probes, states, samples, viol, errs = {}, {}, set(), [], [], []
    for a in aggs:
        for k in tot:
            tot[k] += a[k]
        for d, k in ((faults, "faults"), (probes, "probes")):
            for x, y in a[k].items():
                d[x] = d.get(x, 0) + y
        states |= a["states"]
        samples += a["samples"]
        viol += [(v["idx"], a["shard"], v) for v in a["violations"]]
        errs += a["errors"]
    wall_s = now() - t0
    mod_rule, extra = cfg.get("rule", ""), cfg.get("evidence", {})
    known = known_findings()
    code = 0
    lines = []
    viol.sort(key=lambda t: t[0])
    fresh, seen_known = [], set()
    for idx, shard, v in viol:
        k = [f for f in known if f.get("property") == prop and f.get("key") == v["out"]["key"]]
        if k:
            seen_known.add(k[0]["key"])
            if k[0]["key"] not in [l for l in lines]:
                pass
        else:
            fresh.append((idx, shard, v))
    for f in known:
        if f.get("property") == prop:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, f.get("text", f.get("key"))))
    nviol = len(fresh)
    if fresh:
        idx, shard, v = fresh[0]
        path = confirm(prop, tier, seed, idx, shard, v)
        keys = sorted({x["out"]["key"] for _, _, x in fresh})
        if len(keys) > 1:
            lines.append("all violation keys: " + ", ".join(keys))
        lines.append("violation kind=%s key=%s run=%d: %s" % (v["out"]["kind"], v["out"]["key"], idx,
                                                     v["out"]["detail"][:600].replace("\n", " ")))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif broken or errs:
        for b in broken[:2]:
            lines.append("HARNESS-ERROR " + b)
        for e in errs[:2]:
            lines.append("HARNESS-ERROR run %s: %s" % (e["idx"], e["trace"]))
        code = 2
    ev = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": min(tot["nontrivial"], tot["runs"]) if not states else
            min(len(states), tot["nontrivial"]),
            "rule": mod_rule,
            "samples": samples[:4] or ["(none)"],
            "simulated_runs": tot["runs"],
            "unusable_cases_skipped": tot["skips"],
            "runs_per_hour": round(tot["runs"] / max(wall_s, 1e-9) * 3600),
            "seeds": tot["runs"],
            "simulated_seconds": round(tot["sim_time"], 3),
            "faults_injected": faults,
            "probes": probes,
            "distinct_states_or_interleavings": len(states),
            "shards": [{"PYTHONHASHSEED": shard_env(seed, a["shard"])["PYTHONHASHSEED"],
                        "progress_bar_package": bool(a["shard"] % 2), "runs": a["runs"]} for a in aggs],
            "harness_errors": len(errs) + len(broken),
        },
        "assumptions": extra.get("assumptions", []),
        "wall_s": round(wall_s, 2),
        "violations": nviol,
    }
    ev["coverage"].update({k: v for k, v in extra.items() if k != "assumptions"})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if not quiet:
        for l in lines:
            print(l)
        print("%s %s: %d runs, %d non-trivial, %d distinct, faults %s, %.1f s, exit %d" % (
            prop, tier, tot["runs"], tot["nontrivial"], len(states), sum(faults.values()), wall_s, code))
    return code


def confirm(prop, tier, seed, idx, shard, v):
    """Minimise in a fresh process like the shard's, write the replay file, replay it."""
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s-%s.json" % (prop, seed, idx))
    doc = {"property": prop, "tier": tier, "seed": seed, "run": idx, "shard": shard,
           "kind": v["out"]["kind"], "key": v["out"]["key"], "detail": v["out"]["detail"],
           "faults_fired": v["out"].get("faults"), "plan": v["plan"], "minimised": False,
           "how": "python check.py replay <this file>"}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    try:
        subprocess.run([PY, os.path.join(HERE, "check.py"), "_minimise", path], env=shard_env(seed, shard),
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       cwd=HERE, timeout=300)
    except subprocess.TimeoutExpired:
        pass
    return path


def minimise_main(path):
    env.install(ptqdm=os.environ.get("SIM_PTQDM") == "1")
    with env.real_open(path) as f:
        doc = json.load(f)
    mod = load(doc["property"])
    if hasattr(mod, "setup"):
        mod.setup()
    pools.own_copy(pools.module_data())      # looked through once, before forking
    o = run_plan(mod, doc["plan"])
    doc["reproduced_in_fresh_process"] = o["status"] == "violation" and o["key"] == doc["key"]
    if doc["reproduced_in_fresh_process"]:
        plan, out, runs = minimise(mod, doc["plan"], o)
        doc.update(plan=plan, kind=out["kind"], detail=out["detail"], faults_fired=out.get("faults"),
                   minimised=True, minimisation_runs=runs)
    if hasattr(mod, "teardown"):
        mod.teardown()
    with env.real_open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    return subprocess.run([PY, os.path.join(HERE, "check.py"), "_replay", os.path.abspath(path)],
                          env=shard_env(doc["seed"], doc["shard"]), cwd=HERE).returncode


def replay_main(path):
    env.install(ptqdm=os.environ.get("SIM_PTQDM") == "1")
    with env.real_open(path) as f:
        doc = json.load(f)
    mod = load(doc["property"])
    if hasattr(mod, "setup"):
        mod.setup()
    pools.own_copy(pools.module_data())      # looked through once, before forking
    o = run_plan(mod, doc["plan"])
    if hasattr(mod, "teardown"):
        mod.teardown()
    if o["status"] == "violation":
        print("kind=%s key=%s\n%s" % (o["kind"], o["key"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    print("replay: %s %s" % (o["status"], o.get("trace", "")))
    return 0 if o["status"] in ("ok", "skip") else 2
