"""C18: whatever happens inside a call, the process around it is left as it was found."""
import ast
import builtins
import errno
import os
import random
import sys
import warnings

from .. import calls, cli, common, env
from ..common import Violation, Skip, world, digest
from ..env import activate

EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError}
KINDS = ["sample", "analyze", "analyze", "analyze", "steps", "parallel", "parallel", "command", "command", "params",
         "savedf", "delta"]


def setup():
    common.preload()
    import matplotlib  # noqa
    import logging  # noqa
    import SALib.scripts.salib  # noqa
    no_strike(None)


# ---------------------------------------------------------------- generation
def gen(rng, tier, idx):
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(KINDS)
        r = {"k": k, "line": None, "s": rng.randrange(2**31)}
        if k == "sample":
            r["call"] = calls.gen_sample(rng, small=True, seed="int")
        elif k in ("delta", "savedf"):
            r["call"] = calls.gen_analyze(rng, "delta", small=True, seed="int", dmax=3)
            if k == "savedf":
                r["save"] = rng.choice(["ok", "import", "enospc", "memory"])
        elif k == "command":
            ana = rng.random() < 0.6
            r["call"] = gen_command(rng, ana)
            r["faults"] = [rng.choice([
                {"op": "open_r", "kind": "error", "errno": errno.EACCES, "file": rng.choice(["p.txt", "x.txt", "y.txt"])},
                {"op": "open_w", "kind": "error", "errno": errno.ENOSPC, "file": None},
                {"op": "write", "kind": "error", "errno": errno.ENOSPC, "at": rng.choice([0, 50, 400]), "file": None},
                {"op": "write", "kind": "interrupt", "at": rng.choice([0, 50, 400]), "file": None},
                {"op": "close", "kind": "error", "errno": errno.EIO, "file": None},
                {"op": "read", "kind": "error", "errno": errno.EIO, "nth": rng.randint(0, 5), "file": None},
                {"op": "read", "kind": "interrupt", "nth": rng.randint(0, 5), "file": None},
                {"op": "read", "kind": "memory", "nth": rng.randint(0, 5), "file": None}])] if rng.random() < 0.6 else []
            r["buf"] = rng.choice([64, 256, 8192])
            r["stdout"] = {"kind": "error", "errno": errno.EPIPE, "at": rng.choice([0, 100, 1000])} \
                if ana and rng.random() < 0.2 else None
        elif k == "params":
            r["problem"] = calls.gen_problem(rng, 2, rng.choice([6, 17, 40]), 0.0, 0.4, cli.FILE_DISTS)
            r["delim"] = rng.choice([" ", ",", "\t", ";"])
            r["buf"] = rng.choice([64, 256, 8192])
            r["faults"] = [{"op": rng.choice(["read", "read", "open_r"]), "kind": rng.choice(["error", "interrupt"]),
                            "errno": errno.EIO, "nth": rng.randint(0, 6), "file": None}] if rng.random() < 0.7 else []
            for f in r["faults"]:
                if f["op"] == "open_r":
                    f["kind"] = "error"
        else:
            r["call"] = calls.gen_analyze(rng, small=True, seed="int", heavy=0.05)
            if k == "analyze":
                r["out"] = rng.choice([None, None, "const", "nan", "inf", "huge", "short", "two", "column"])
                r["print"] = rng.random() < 0.35
            if k == "parallel":
                r["call"] = calls.gen_analyze(rng, rng.choice(["sobol", "sobol", "morris", "pawn", "delta", "dgsm"]),
                                              small=True, seed="int", dmax=3)
                r["what"] = rng.choice(["evaluate", "analyze", "sobol"])
                r["nprocs"] = rng.choice([1, 2, 3])
                r["pf"] = rng.choice([{}, {}, {"create": True}, {"interrupt_at": 1}, {"tasks": {"0": "raise_before"}},
                                      {"tasks": {"1": "memory"}}, {"tasks": {"0": "raise_after"}}])
            if k == "steps":
                r["bomb"] = rng.choice([None, None, "interrupt", "memory", "boom"])
                r["show"] = rng.choice([None, "str", "to_df", "plot", "heatmap"])
        if k not in ("command", "params", "parallel") and rng.random() < 0.5:
            r["line"] = [round(rng.random() ** rng.choice([0.5, 1, 2]), 5), rng.choice(list(EXC))]
        rounds.append(r)
    return {"rounds": rounds, "settings": gen_settings(rng), "world": common.gen_world(rng)}


def gen_command(rng, ana):
    if ana:
        c = calls.gen_analyze(rng, small=True, seed="int", heavy=0.03, dists=0.0, groups=0.2)
        c["seed"] = c["seed"] % 2**31
        return c
    c = calls.gen_sample(rng, small=True, seed="int", dists=0.0, groups=0.2)
    return c


def gen_settings(rng):
    return {"filters": [[rng.choice(["ignore", "default", "once", "always", "module"]),
                         rng.choice(["Warning", "UserWarning", "DeprecationWarning", "RuntimeWarning", "FutureWarning"])]
                        for _ in range(rng.randint(0, 3))],
            "format": rng.random() < 0.5, "show": rng.random() < 0.3,
            "err": {k: rng.choice(["ignore", "warn", "warn"]) for k in ("divide", "over", "under", "invalid")},
            "prec": rng.choice([8, 4, 3, 12]), "suppress": rng.random() < 0.4, "thr": rng.choice([1000, 5, 50]),
            "pd": rng.choice([6, 3, 10]), "width": rng.choice([80, 40, 200]), "rec": rng.choice([1000, 1500, 3000]),
            "sigint": rng.random() < 0.5, "log": rng.choice([10, 20, 30]), "umask": rng.choice([0o22, 0o77]),
            "env": str(rng.randrange(10**6)), "rand": rng.randrange(2**31)}


# ---------------------------------------------------------------- the process' settings
def my_format(message, category, filename, lineno, line=None):
    return "%s!%s\n" % (category.__name__, message)


def my_show(message, category, filename, lineno, file=None, line=None):
    pass


def my_handler(sig, frame):
    raise KeyboardInterrupt


def apply(s):
    import gc
    import logging
    import signal
    import numpy as np
    import pandas as pd
    warnings.resetwarnings()
    for a, c in s["filters"]:
        warnings.filterwarnings(a, category=getattr(builtins, c))
    warnings.formatwarning = my_format if s["format"] else _formatwarning
    warnings.showwarning = my_show if s["show"] else _showwarning
    np.seterr(**s["err"])
    np.set_printoptions(precision=s["prec"], suppress=s["suppress"], threshold=s["thr"])
    pd.set_option("display.precision", s["pd"])
    pd.set_option("display.width", s["width"])
    sys.setrecursionlimit(s["rec"])
    signal.signal(signal.SIGINT, my_handler if s["sigint"] else signal.default_int_handler)
    logging.getLogger().setLevel(s["log"])
    os.umask(s["umask"])
    os.environ["SIM_USER_VALUE"] = s["env"]
    random.seed(s["rand"])
    np.random.seed(s["rand"] % 2**32)
    gc.enable()


_formatwarning, _showwarning = warnings.formatwarning, warnings.showwarning
PD = ["display.precision", "display.width", "display.max_rows", "display.max_columns", "display.float_format",
      "mode.chained_assignment", "display.max_colwidth"]


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if not t.startswith("/proc/"):
            out[f] = t
    return out


def look():
    """The state of the process a library call has no business with."""
    import gc
    import logging
    import signal
    import threading
    import numpy as np
    import pandas as pd
    import matplotlib
    um = os.umask(0)
    os.umask(um)
    st = np.random.get_state()
    root = logging.getLogger()
    return {
        "warning filters": [repr(f) for f in warnings.filters],
        "warning format": warnings.formatwarning, "warning display": warnings.showwarning,
        "numpy error handling": np.geterr(), "numpy error callback": np.geterrcall(),
        "numpy print options": {k: v for k, v in np.get_printoptions().items()},
        "pandas options": {k: pd.get_option(k) for k in PD},
        "matplotlib settings": digest(sorted((k, repr(v)) for k, v in dict(matplotlib.rcParams).items())),
        "recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(),
        "environment": dict(os.environ), "umask": um,
        "signal handlers": {s: signal.getsignal(getattr(signal, s)) for s in ("SIGINT", "SIGTERM", "SIGALRM", "SIGCHLD", "SIGPIPE")},
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "import path": list(sys.path), "exception hook": [sys.excepthook, sys.displayhook, sys.unraisablehook],
        "threads": sorted(t.name for t in threading.enumerate()),
        "logging": [root.level, list(map(id, root.handlers)), logging.root.manager.disable],
        "garbage collection": [gc.isenabled(), gc.get_threshold()],
        "builtins": [id(builtins.print), id(builtins.open), id(builtins.input)],
        "python random state": digest(repr(random.getstate())),
        "numpy random state": digest(repr((st[0], st[1].tolist(), st[2:]))),
        "open files": fds(),
        "worker pools": len(common.leaked()),
        "figures": sys.modules["matplotlib.pyplot"].get_fignums() if "matplotlib.pyplot" in sys.modules else [],
    }


# ---------------------------------------------------------------- where interruptions may land
_no = {}


def no_strike(path):
    """Lines of a file at which an interruption would hit the cleanup itself: `with` lines,
    statements of finally and except blocks, the statement before a try with a finally,
    bodies of context managers."""
    if path is None:
        for root, _, fs in os.walk(env.salib_dir()):
            for f in fs:
                if f.endswith(".py"):
                    no_strike(os.path.join(root, f))
        return
    if path in _no:
        return _no[path]
    out = set()
    try:
        with env.real_open(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        tree = ast.Module([], [])

    def span(n):
        out.update(range(n.lineno, n.end_lineno + 1))
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            out.update(range(n.lineno, n.body[0].lineno))
        if isinstance(n, ast.Try):
            for x in n.finalbody + n.handlers:
                span(x)
            out.add(n.lineno)
        if isinstance(n, ast.FunctionDef) and (n.name in ("__enter__", "__exit__") or any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))):
            span(n)
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, x in enumerate(b):
                    if isinstance(x, ast.Try) and (x.finalbody or x.handlers):
                        for y in b[max(0, i - 3):i]:
                            span(y)
    _no[path] = out
    return out


class Strike:
    """Raise at the first line from the at-th on where no cleanup code is running."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.fired = at, exc, 0, None

    def run(self, fn):
        from ..threads import TOOL, _is_salib
        mon = sys.monitoring

        def line(code, no):
            if not _is_salib(code):
                return mon.DISABLE
            if code.co_name == "<module>":
                return None
            self.n += 1
            if self.at is not None and self.n >= self.at and not self.fired and self.n < self.at + 3000:
                f = sys._getframe(1)
                while f is not None:
                    if _is_salib(f.f_code) and (f.f_lineno in no_strike(f.f_code.co_filename)):
                        return None
                    f = f.f_back
                self.fired = "%s:%s:%d" % (code.co_filename.split("/SALib/")[-1], code.co_name, no)
                raise self.exc("injected")
            return None
        mon.use_tool_id(TOOL, "sim")
        mon.restart_events()
        mon.register_callback(TOOL, mon.events.LINE, line)
        mon.set_events(TOOL, mon.events.LINE)
        try:
            return fn()
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)


# ---------------------------------------------------------------- one call
def prepare(r):
    """Data made by SALib or the harness beforehand: not part of the observed call."""
    if r["k"] in ("sample", "params") or r["k"] == "command" and r["call"]["f"].startswith("sample."):
        return None
    return calls.make_data(r["call"])


def spoil(Y, how):
    """Outputs as a broken, saturated or idle model leaves them."""
    import numpy as np
    Y = Y.copy()
    if how == "const":
        Y[...] = 2.5
    elif how in ("nan", "inf"):
        Y[len(Y) // 3] = getattr(np, how)
    elif how == "huge":
        Y *= 1e200
    elif how == "short":
        Y = Y[:-1]
    elif how == "two":
        Y = np.where(Y > np.median(Y), 1.0, 0.0)
    elif how == "column":
        Y = Y[:, None]
    return Y


def action(r, data, d):
    """(function making the call, what it is called in reports)"""
    k = r["k"]
    c = r.get("call")
    if k == "sample":
        return lambda: calls.run_sample(c), c["f"]
    if k in ("analyze", "delta"):
        if r.get("out"):
            world.fault("outputs_" + r["out"])
            data = data[0], data[1], spoil(data[2], r["out"])
        if r.get("print"):
            c = dict(c, kw=dict(c["kw"], print_to_console=True))
        return lambda: calls.run_analyze(c, data), c["f"]
    if k == "savedf":
        from . import c16
        c2 = dict(c, kw=dict(c["kw"], bootstrap_savedf=os.path.join(d, "b.parquet")))

        def go():
            with c16.Disk(r["save"]):
                return calls.run_analyze(c2, data)
        return go, c["f"] + "+save:" + r["save"]
    if k == "steps":
        m = calls.Model(c["model"])

        def model(X):
            if r["bomb"]:
                world.fault("model_" + r["bomb"])
                raise {"interrupt": KeyboardInterrupt, "memory": MemoryError, "boom": common.Boom}[r["bomb"]]("injected")
            return m(X)

        def go():
            sp = common.spec(c["problem"])
            s = c["sample"]
            kw = dict(s["kw"])
            if "seed" in s:
                kw["seed"] = s["seed"]
            sp.sample(calls.sampler(s["f"].split(".")[1]).sample, **kw)
            sp.evaluate(model)
            sp.analyze(calls.analyzer(c["f"].split(".")[1]).analyze, **dict(c["kw"], seed=c["seed"]))
            if r["show"] == "str":
                str(sp)
            elif r["show"] == "to_df":
                sp.to_df()
            elif r["show"]:
                import matplotlib.pyplot as plt
                try:
                    getattr(sp, r["show"])()
                finally:
                    plt.close("all")
        return go, "steps:" + c["f"]
    if k == "parallel":
        p, X, Y = data

        def go():
            import numpy as np
            world.pool_faults = {"*": dict(r["pf"])} if r["pf"] else {}
            try:
                sp = common.spec(c["problem"])
                sp.set_samples(X.copy())
                if r["what"] == "evaluate":
                    sp.evaluate(calls.Model(c["model"]), nprocs=r["nprocs"])
                    return
                kw = dict(c["kw"], seed=c["seed"])
                f = calls.analyzer(c["f"].split(".")[1]).analyze
                if r["what"] == "analyze":
                    sp.set_results(np.stack([Y, Y * 2 + 1], axis=1))
                    sp.analyze(f, nprocs=r["nprocs"] + 1, **kw)
                else:
                    if c["f"] == "analyze.sobol":
                        kw.update(parallel=True, n_processors=r["nprocs"])
                    sp.set_results(Y.copy())
                    sp.analyze(f, **kw)
            finally:
                world.pool_faults = {}
        return go, "parallel:%s:%s" % (r["what"], c["f"])
    if k == "params":
        pf = os.path.join(d, "p.txt")
        cli.write_params(pf, r["problem"], r["delim"])

        def go():
            from SALib.util import read_param_file
            world.fs = env.FS(d, r["buf"], r["faults"])
            try:
                return read_param_file(pf, delimiter=r["delim"] if r["s"] % 2 else None)
            finally:
                world.fs = None
        return go, "read_param_file"
    import numpy as np
    pf, xf, yf, of = (os.path.join(d, n) for n in ("p.txt", "x.txt", "y.txt", "o.txt"))
    if data is None:
        cli.write_params(pf, c["problem"])
        argv = cli.sample_args(c, pf, of)[0]
    else:
        p, X, Y = data
        cli.write_params(pf, p)
        np.savetxt(xf, X)
        np.savetxt(yf, Y)
        argv = cli.analyze_args(c, pf, xf, yf)[0]

    def go():
        world.fs = env.FS(d, r["buf"], r["faults"])
        try:
            st = cli.run(argv, r["stdout"])
            return st[0]
        finally:
            world.fs = None
    return go, "salib %s %s" % (argv[0], argv[1])


SEEDLESS = ("numpy random state",)


def execute(plan):
    import gc
    w = dict(plan["world"], seed=plan["seed"])
    if "sched" in plan:
        w["sched"] = plan["sched"]
    hist, states = [], []
    home = os.getcwd()
    with activate(w), common.quiet(), common.Scratch() as d:
        wd = os.path.join(d, "wd")
        os.mkdir(wd)
        os.chdir(wd)
        try:
            for i, r in enumerate(plan["rounds"]):
                dd = os.path.join(d, "r%d" % i)
                os.mkdir(dd)
                try:
                    with warnings.catch_warnings():
                        data = prepare(r)
                except Exception:
                    continue
                for attempt in range(3):
                    go, name = action(r, data, dd)
                    lines = None
                    if r["line"]:
                        l = Strike()
                        try:
                            l.run(go)
                        except (Exception, KeyboardInterrupt):
                            pass
                        lines = l.n
                    apply(plan["settings"])
                    mods = set(sys.modules)
                    before = look()
                    st, struck = call(go, r, lines)
                    after = look()
                    bad = [k for k in before if before[k] != after[k]]
                    if struck and "worker pools" in bad:
                        bad.remove("worker pools")      # it landed before the pool had an owner
                    if bad == ["open files"]:
                        gc.collect()
                        after = look()
                        bad = [k for k in before if before[k] != after[k] and not (struck and k == "worker pools")]
                    new = {m for m in set(sys.modules) - mods if not m.startswith(("SALib", "sim"))}
                    if bad and new and attempt < 2:
                        world.probe("retried_after_import")
                        continue
                    break
                hist.append([name, st, struck])
                left = sorted(os.listdir(wd))
                if left:
                    raise Violation("files left in the working directory", "%s: %s" % (name, left), key="files:" + name)
                if bad:
                    k = bad[0]
                    raise Violation("process-wide %s changed by a call" % k, "%s ended %s (interrupted at %s): %s before, %s after" % (
                        name, st, struck, str(before[k])[:300], str(after[k])[:300]), key=k + ":" + name.split(":")[0])
                states.append(digest([name, st, struck]))
        finally:
            os.chdir(home)
    return {"states": states, "nontrivial": bool(hist), "digest": digest(hist), "sample": {"calls": hist}}


def call(go, r, lines):
    struck = None
    try:
        if r["line"] and lines:
            l = Strike(1 + min(lines - 1, int(r["line"][0] * lines)), EXC[r["line"][1]])
            try:
                x = l.run(go)
            finally:
                if l.fired:
                    struck = l.fired
                    world.fault("line_" + r["line"][1])
        else:
            x = go()
        return ("ok" if not isinstance(x, str) else x), struck
    except (Exception, KeyboardInterrupt, env.SimCrash) as e:
        return type(e).__name__, struck
