#!/usr/bin/env python3
"""Turn a bug description into /verif/seeded/<id>/ after confirming it in a scratch copy.

usage: plant.py make SPEC.py [--notests] [--nocheck]      plant.py check ID [PROP...]
SPEC.py defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source).
The scratch copy of /repo is $SCRATCH (default /tmp/w/repo), made with cp -a on first use.
Nothing here is used by the registered checks.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

SCR = os.environ.get("SCRATCH", "/tmp/w/repo")
SEEDED = "/verif/seeded"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTHONHASHSEED="0")
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def fresh():
    if os.path.isdir(SCR):
        sh(["git", "-C", SCR, "checkout", "-q", "-f", "--", "."])
        sh(["git", "-C", SCR, "fetch", "-q", "/repo", "HEAD"])
        sh(["git", "-C", SCR, "reset", "-q", "--hard", "FETCH_HEAD"])
    else:
        os.makedirs(os.path.dirname(SCR), exist_ok=True)
        sh(["cp", "-a", "/repo", SCR])


def demo(d):
    e = dict(ENV, PYTHONPATH=SCR + "/src")
    return sh(["bash", d + "/demo.sh"], cwd=SCR, env=e, timeout=300)


def stable_tests():
    t = open("/opt/vp/test.sh").read().replace("cd /repo ", f"cd {SCR} ")
    t = t.replace("unset PYTHONPATH PYTEST_ADDOPTS", f"unset PYTEST_ADDOPTS; export PYTHONPATH={SCR}/src")
    open(SCR + "_test.sh", "w").write(t)
    out = SCR + "_t.json"
    r = sh(["bash", SCR + "_test.sh", out])
    res = json.load(open(out))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(res.get("passed", []))
    bad = [s for s in stable if s not in passed]
    return bad


def check(prop, seed="1"):
    e = dict(ENV, SIM_REPO_SRC=SCR + "/src", VERIF_SEED=seed, VERIF_TIER="quick")
    r = sh(["/opt/venv/bin/python", "/verif/check.py", prop, "quick"], cwd="/verif", env=e)
    lines = [l for l in (r.stdout + r.stderr).splitlines()]
    key = [l for l in lines if l.startswith("VIOLATION") or "violation" in l.lower() or "error" in l.lower()]
    return r.returncode, (key or lines[-3:])[:3]


def make(spec, tests=True, chk=True):
    s = runpy.run_path(spec)
    bid = os.path.basename(spec)[:-3]
    fresh()
    for f, old, new in s["EDITS"]:
        p = f"{SCR}/src/SALib/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(f"{bid}: edit in {f} matches {t.count(old)} times: {old[:60]!r}")
            return 1
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "-C", SCR, "diff"]).stdout
    base = "4826349"
    orig = 0
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = sh(["git", "-C", "/repo", "show", f"{base}:{l[6:]}"]).stdout.splitlines()
        elif l.startswith("-") and l[1:].strip() and l[1:] in cur:
            orig += 1
    if not orig:
        print(f"{bid}: changes no line of the original repository, not kept")
    d = f"{SEEDED}/{bid}"
    tmp = f"/tmp/bugs/out_{bid}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/patch.diff", "w").write(diff)
    open(tmp + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
    open(tmp + "/demo.sh", "w").write(DEMO_SH)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(tmp + "/meta.json", "w"), indent=1)
    r = demo(tmp)
    if r.returncode == 0:
        print(f"{bid}: demo does not fail with the patch\n{r.stdout[-500:]}{r.stderr[-500:]}")
        return 1
    msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
    bad = stable_tests() if tests else []
    if bad and all("delta_svm" in b for b in bad):
        bad = []
    if bad:
        again = stable_tests()
        bad = [b for b in bad if b in again]
    if bad:
        print(f"{bid}: breaks stable tests: {bad[:4]}")
        return 1
    rc, key = check(s["PROP"]) if chk else (None, None)
    fresh()
    r = demo(tmp)
    if r.returncode != 0:
        print(f"{bid}: demo fails on the unchanged tree\n{r.stdout[-800:]}{r.stderr[-800:]}")
        return 1
    if orig:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
    print(f"{bid}: {'planted' if orig else 'tried'} ({s['PROP']}); demo: {msg}; check exit {rc} {key}", flush=True)
    return 0


def recheck(bid, props):
    fresh()
    d = f"{SEEDED}/{bid}"
    r = sh(["git", "-C", SCR, "apply", d + "/patch.diff"])
    if r.returncode:
        print(bid, "does not apply", r.stderr)
        return
    p = json.load(open(d + "/meta.json"))["property"]
    for prop in props or [p]:
        print(bid, prop, *check(prop), flush=True)
    fresh()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in [a for a in sys.argv[2:] if not a.startswith("--")]:
            try:
                make(f, "--notests" not in sys.argv, "--nocheck" not in sys.argv)
            except Exception as e:
                print(f, "failed:", repr(e)[:500], flush=True)
    else:
        recheck(sys.argv[2], sys.argv[3:])
