#!/opt/venv/bin/python
"""Which lines of SALib the simulated runs of each property execute (a survey, not a check).

cover.py run OUT.json RUNS [PROP...]   : RUNS runs per property, executed lines per file
cover.py show OUT.json [FILE]          : lines no property reached
"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
sys.dont_write_bytecode = True


def shard(prop, n, out):
    from sim import env, core
    env.install(ptqdm=os.environ.get("SIM_PTQDM") == "1")
    mod = core.load(prop)
    if hasattr(mod, "setup"):
        mod.setup()
    lib = env.salib_dir() + os.sep
    m = sys.monitoring
    hits = set()

    def line(code, no):
        f = code.co_filename
        if f.startswith(lib):
            hits.add((f[len(lib):], no))
        return m.DISABLE
    m.use_tool_id(m.COVERAGE_ID, "cover")
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    orig = core._child

    def child(fn, args, wfd):
        hits.clear()
        m.set_events(m.COVERAGE_ID, m.events.LINE)

        def wrapped(*a):
            try:
                return fn(*a)
            finally:
                with env.real_open(out, "a") as f:
                    f.write(json.dumps(sorted(hits)) + "\n")
        return orig(wrapped, args, wfd)
    core._child = child
    import gc
    gc.freeze()
    for i in range(n):
        core.run_plan(mod, core.gen_plan(mod, prop, "77", i, "quick"))


def run(out, n, props):
    import subprocess
    from sim import core
    res = {}
    for p in props:
        procs = []
        for s in range(2):
            f = "/tmp/cov-%s-%d.txt" % (p, s)
            if os.path.exists(f):
                os.remove(f)
            e = core.shard_env(77, s)
            e["MPLBACKEND"] = "Agg"
            procs.append((subprocess.Popen([core.PY, __file__, "_shard", p, str(n), f], env=e), f))
        hits = {}
        for pr, f in procs:
            pr.wait()
            for l in open(f):
                for a, b in json.loads(l):
                    hits.setdefault(a, set()).add(b)
            os.remove(f)
        res[p] = {a: sorted(b) for a, b in hits.items()}
        print(p, sum(map(len, res[p].values())), flush=True)
        json.dump(res, open(out, "w"))


def code_lines(path):
    import types
    src = open(path).read()
    out = set()

    def go(c, fn):
        for _, _, no in c.co_lines():
            if no and fn:
                out.add(no)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                go(k, True)
    c = compile(src, path, "exec")
    go(c, False)
    for k in c.co_consts:
        if isinstance(k, types.CodeType) and k.co_firstlineno in out:
            pass
    return out


def show(out, only=None):
    res = json.load(open(out))
    base = "/repo/src/SALib/"
    for root, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            rel = os.path.relpath(os.path.join(root, f), base)
            if only and only not in rel:
                continue
            want = code_lines(base + rel)
            got = set()
            for p in res:
                got |= set(res[p].get(rel, ()))
            miss = sorted(want - got)
            if not want:
                continue
            print("%-34s %4d/%4d missing: %s" % (rel, len(want) - len(miss), len(want), ranges(miss)))


def ranges(a):
    out, i = [], 0
    while i < len(a):
        j = i
        while j + 1 < len(a) and a[j + 1] - a[j] <= 2:
            j += 1
        out.append(str(a[i]) if i == j else "%d-%d" % (a[i], a[j]))
        i = j + 1
    return " ".join(out)


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "_shard":
        shard(a[2], int(a[3]), a[4])
    elif a[1] == "run":
        run(a[2], int(a[3]), a[4:] or ["C%02d" % i for i in range(1, 17)])
    else:
        show(a[2], a[3] if len(a) > 3 else None)
