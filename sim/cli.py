"""Running SALib's command line (`SALib.scripts.salib.main`) inside the simulator."""
import io
import os
import sys

from . import calls, env
from .env import world

FILE_DISTS = ["unif", "norm", "lognorm", "logunif"]
FILE_BOUNDED = ["unif", "unif", "logunif"]


def write_params(path, p, delim=" ", comments=False, eol="\n", always=None):
    """Write a parameter file; returns the definition the file holds."""
    groups, dists = p.get("groups"), p.get("dists")
    level = 5 if dists else 4 if groups else 3
    if always:
        level = max(level, always)
    lines = []
    for i, n in enumerate(p["names"]):
        b = p["bounds"][i]
        f = [n, repr(float(b[0])), repr(float(b[1]))]
        if level >= 4:
            f.append(groups[i] if groups else "NA")
        if level >= 5:
            f.append(dists[i] if dists else "unif")
        lines.append(delim.join(f))
        if comments and i % 3 == 1:
            lines.append("#" + delim.join(f))
    with env.real_open(path, "w", newline="", encoding="utf-8") as f:
        f.write(eol.join(lines) + eol)
    return {"names": list(p["names"]), "bounds": [[float(b[0]), float(b[1])] for b in p["bounds"]],
            "num_vars": len(p["names"]), "groups": list(groups) if groups else None,
            "dists": list(dists) if dists else None}


def sample_args(c, paramfile, out, delim=None, precision=None, long=False):
    """argv for `salib sample ...` and the keyword arguments of the equivalent call."""
    name = c["f"].split(".")[1]
    kw = dict(c["kw"])
    n = kw.get("N", 8)
    if name == "ff":
        api = {}
    else:
        api = {"N": n}
    a = ["sample", name, "--samples" if long else "-n", str(n), "--paramfile" if long else "-p", paramfile,
         "--output" if long else "-o", out]
    if c.get("seed") is not None:
        a += ["--seed" if long else "-s", str(c["seed"])]
        api["seed"] = c["seed"]
    if delim is not None:
        a += ["--delimiter", delim]
    if precision is not None:
        a += ["--precision", str(precision)]
    if name in ("sobol", "saltelli"):
        if "calc_second_order" in kw:
            a += ["--max-order", "2" if kw["calc_second_order"] else "1"]
            api["calc_second_order"] = kw["calc_second_order"]
        if kw.get("skip_values") is not None:
            a += ["--skip-values", str(kw["skip_values"])]
            api["skip_values"] = kw["skip_values"]
        if name == "sobol" and "scramble" in kw:
            a += ["--scramble", "1" if kw["scramble"] else "0"]
            api["scramble"] = kw["scramble"]
    if name == "fast_sampler" and "M" in kw:
        a += ["-M", str(kw["M"])]
        api["M"] = kw["M"]
    if name == "finite_diff" and "delta" in kw:
        a += ["-d", repr(kw["delta"])]
        api["delta"] = kw["delta"]
    if name == "morris":
        if "num_levels" in kw:
            a += ["-l", str(kw["num_levels"])]
            api["num_levels"] = kw["num_levels"]
        if kw.get("optimal_trajectories"):
            a += ["-k", str(kw["optimal_trajectories"])]
            api["optimal_trajectories"] = kw["optimal_trajectories"]
        lo = kw.get("local_optimization", True)
        a += ["-lo", "True" if lo else "False"]
        api["local_optimization"] = lo
    return a, api


def analyze_args(c, paramfile, xfile, yfile, col=None, delim=None):
    """argv for `salib analyze ...` and the keyword arguments of the equivalent call."""
    name = c["f"].split(".")[1]
    kw = dict(c["kw"])
    a = ["analyze", name, "-p", paramfile, "-Y", yfile]
    api = {}
    if name in calls.NEEDS_X:
        a += ["-X", xfile]
    if col is not None:
        a += ["-c", str(col)]
    if delim is not None:
        a += ["--delimiter", delim]
    if c.get("seed") is not None:
        a += ["-s", str(c["seed"])]
        api["seed"] = c["seed"]

    def put(flag, key, fmt=str):
        if key in kw and kw[key] is not None:
            a.extend([flag, fmt(kw[key])])
            api[key] = kw[key]
    if name == "sobol":
        a += ["--max-order", "2" if kw.get("calc_second_order", True) else "1"]
        api["calc_second_order"] = kw.get("calc_second_order", True)
        put("-r", "num_resamples")
        if kw.get("parallel"):
            a += ["--parallel"]
            api["parallel"] = True
            put("--processors", "n_processors")
    elif name == "morris":
        put("-r", "num_resamples")
        put("-l", "num_levels")
        if kw.get("scaled"):
            a += ["--scaled", "True"]
            api["scaled"] = True
    elif name == "delta":
        put("-r", "num_resamples")
        put("-m", "method")
        put("--y_resamples", "y_resamples")
    elif name == "dgsm":
        put("-r", "num_resamples")
    elif name in ("fast", "rbd_fast"):
        put("-r", "num_resamples")
        put("-M", "M")
    elif name == "ff":
        a += ["--max-order", "2" if kw.get("second_order") else "1"]
        api["second_order"] = bool(kw.get("second_order"))
    elif name == "pawn":
        put("-S", "S")
    elif name == "rsa":
        put("-b", "bins")
        put("-t", "target")
    elif name == "hdmr":
        put("-mor", "maxorder")
        put("-mit", "maxiter")
        put("-m", "m")
        put("-K", "K")
        put("-R", "R")
    elif name == "enhanced_hdmr":
        put("-mor", "max_order")
        put("-por", "poly_order")
        put("-K", "bootstrap")
        put("-R", "subset")
        put("-mit", "max_iter")
        put("-ext", "extended_base")
        a += ["-print", "True"]
    if name not in ("discrepancy",):
        pass
    # options the command line has another default for
    if name == "delta" and "num_resamples" not in api:
        api["num_resamples"] = 10
    if name in ("dgsm", "morris") and "num_resamples" not in api:
        api["num_resamples"] = 1000
    return a, api


class Out(io.TextIOWrapper):
    def __init__(self, fault=None, buf=8192):
        self.sink = env.FaultyStdout(fault)
        super().__init__(io.BufferedWriter(self.sink, buf), "utf-8", newline="\n", write_through=False)
        try:
            self._CHUNK_SIZE = buf
        except Exception:
            pass


def run(argv, stdout_fault=None, buf=8192):
    """Run the command; returns (status, stdout text that reached its sink, exception).

    status: 'ok' (exit status 0), 'fail' (anything a shell would see as failure),
    'crash' (the process was killed).
    """
    from SALib.scripts import salib
    o, e, av = sys.stdout, sys.stderr, sys.argv
    out = Out(stdout_fault, buf)
    sys.stdout, sys.stderr, sys.argv = out, io.StringIO(), ["salib"] + list(argv)
    status, exc = "ok", None
    try:
        try:
            salib.main()
        except SystemExit as x:
            if x.code not in (None, 0):
                status, exc = "fail", x
        except env.SimCrash as x:
            return "crash", bytes(out.sink.data).decode("utf-8", "replace"), x
        except KeyboardInterrupt as x:
            status, exc = "fail", x
        except Exception as x:
            status, exc = "fail", x
        # what the interpreter does when it exits
        try:
            out.flush()
        except Exception as x:
            status, exc = "fail", x
    finally:
        sys.stdout, sys.stderr, sys.argv = o, e, av
        try:
            out.sink.fault = None
            text = bytes(out.sink.data).decode("utf-8", "replace")
            out.detach()
        except Exception:
            text = bytes(out.sink.data).decode("utf-8", "replace")
    return status, text, exc


def parse(path, delim):
    """Read a matrix back without SALib or numpy's reader."""
    with env.real_open(path, "rb") as f:
        t = f.read().decode("utf-8")
    rows = []
    for line in t.split("\n"):
        if line == "":
            continue
        rows.append([x for x in line.split(delim)])
    return rows, t
