"""The catalogue of SALib calls the simulations are made of.

A call is a JSON document; `run_call` executes it on the real code.  Problems, model
outputs and seeds are rebuilt afresh for every execution, so nothing is shared unless a
check shares it on purpose.
"""
import copy
import importlib

SAMPLERS = ["sobol", "saltelli", "latin", "fast_sampler", "finite_diff", "ff", "morris"]
ANALYZERS = ["sobol", "morris", "delta", "dgsm", "fast", "rbd_fast", "ff", "pawn", "rsa",
             "discrepancy", "hdmr", "enhanced_hdmr"]
RANDOM_ANALYZERS = ["sobol", "morris", "delta", "dgsm", "fast", "rbd_fast", "ff", "hdmr",
                    "enhanced_hdmr"]
NEEDS_X = {"morris", "delta", "dgsm", "rbd_fast", "ff", "pawn", "rsa", "discrepancy", "hdmr",
           "enhanced_hdmr"}
PAIR = {"sobol": ["sobol", "saltelli"], "morris": ["morris"], "delta": ["latin"],
        "dgsm": ["finite_diff"], "fast": ["fast_sampler"], "rbd_fast": ["latin", "sobol"],
        "ff": ["ff"], "pawn": ["latin", "sobol"], "rsa": ["latin", "sobol"],
        "discrepancy": ["latin", "sobol"], "hdmr": ["latin"], "enhanced_hdmr": ["latin"]}
HEAVY = {"hdmr", "enhanced_hdmr"}


def sampler(name):
    return importlib.import_module("SALib.sample." + name)


def analyzer(name):
    return importlib.import_module("SALib.analyze." + name)


# ---------------------------------------------------------------- generation
_DISTS = ["unif", "unif", "norm", "truncnorm", "triang", "lognorm", "logunif", "weibull"]


def _bound(rng, d):
    r = lambda a, b: round(rng.uniform(a, b), rng.choice([1, 3, 6]))
    if d == "norm":
        return [r(-5, 5), r(0.5, 3)]
    if d == "truncnorm":
        a = r(-4, 0)
        return [a, round(a + r(1, 6), 6), r(-1, 1), r(0.5, 2)]
    if d == "triang":
        a = r(0, 2)
        return [a, round(a + r(1, 4), 6), rng.choice([0.2, 0.5, 0.75])]
    if d == "lognorm":
        return [r(-1, 1), r(0.2, 0.8)]
    if d == "logunif":
        a = r(0.2, 2)
        return [a, round(a + r(1, 9), 6)]
    if d == "weibull":
        return [r(1, 3), r(0.5, 2)] + ([r(0, 1)] if rng.random() < 0.5 else [])
    if rng.random() < 0.1:
        return rng.choice([[0, 1], [0.0, 1.0], [-1, 1], [-3.14159265359, 3.14159265359]])
    a = r(-10, 10)
    return [a, round(a + r(0.5, 20), 6)]


BOUNDED = ["unif", "unif", "truncnorm", "triang", "logunif"]


def gen_problem(rng, dmin=2, dmax=6, groups=0.0, dists=0.3, kinds=None):
    D = rng.randint(dmin, dmax)
    p = {"num_vars": D, "names": ["%s%d" % (rng.choice("xyzPq"), i + 1) for i in range(D)]}
    ds = None
    if rng.random() < dists:
        ds = [rng.choice(kinds or _DISTS) for _ in range(D)]
        if all(d == "unif" for d in ds):
            ds = None
    if not ds and rng.random() < 0.25:
        # every parameter alike, as in most of the documented examples
        b = rng.choice([[0, 1], [0.0, 1.0], [0.0, 1.0], _bound(rng, "unif")])
        p["bounds"] = [list(b) for _ in range(D)]
    else:
        p["bounds"] = [_bound(rng, d) for d in (ds or ["unif"] * D)]
    if ds:
        p["dists"] = ds
    if rng.random() < 0.15:
        p["_bounds"] = rng.choice(["array", "tuples", "tuple"] if len(set(map(len, p["bounds"]))) == 1 else
                                  ["tuples", "tuple"])
    if D >= 3 and rng.random() < groups:
        ng = rng.randint(2, D - 1)
        g = list(range(ng)) + [rng.randrange(ng) for _ in range(D - ng)]
        rng.shuffle(g)
        names = ["G%s" % c for c in rng.sample("abcdefghijkmnpqrstuvwxyzABCDEF", ng)]
        p["groups"] = [names[i] for i in g]
    return p


def gen_seed(rng, kinds=True, ints_only=False, seqs=True):
    r = rng.random()
    if not seqs and r >= 0.7:
        r *= 0.7
    if ints_only or not kinds or r < 0.55:
        return rng.choice([0, 1, rng.randrange(2**31), rng.randrange(100), 2**31 - 1, 2**32 - 1])
    if r < 0.7:
        return {"gen": rng.randrange(2**31)}
    if r < 0.8:
        return {"ss": rng.randrange(2**40)}
    if r < 0.9:
        return rng.randrange(2**33, 2**62)
    return {"list": [rng.randrange(2**31) for _ in range(rng.randint(1, 4))]}


def make_seed(s):
    import numpy as np
    if isinstance(s, dict):
        if "gen" in s:
            return np.random.default_rng(s["gen"])
        if "ss" in s:
            return np.random.SeedSequence(s["ss"])
        return list(s["list"])
    return s


def gen_sample(rng, name=None, dmax=6, groups=0.4, seed="any", small=False, dists=0.3, big=True):
    name = name or rng.choice(SAMPLERS)
    # now and then many parameters or a long sample: sizes at which code may take other ways
    r = rng.random() * (2 if small else 1)
    big = ("wide" if r < 0.04 else "long" if r < 0.08 else None) if big else None
    dmin = 2
    if big == "wide":
        dmin, dmax = 9, 26
    g = groups if name in ("sobol", "saltelli", "morris", "latin") else 0.0
    if name == "ff":
        dists = 0.0
    # samplers that reach 0 or 1 need distributions with finite ends
    p = gen_problem(rng, dmin, dmax, g, dists, None if name in ("latin", "fast_sampler") else BOUNDED)
    kw = {}
    if name in ("sobol", "saltelli"):
        kw["N"] = rng.choice([4, 8, 16] if small else [4, 8, 16, 32, 64])
        kw["calc_second_order"] = rng.random() < 0.6
        if name == "sobol":
            kw["scramble"] = rng.random() < 0.85
            if rng.random() < 0.2:
                kw["skip_values"] = rng.choice([0, 16, 64])
        elif rng.random() < 0.3:
            kw["skip_values"] = rng.choice([0, 16, 64])
    elif name == "latin":
        kw["N"] = rng.randint(4, 30 if small else 120)
    elif name == "fast_sampler":
        kw["M"] = rng.choice([2, 3, 4])
        kw["N"] = 4 * kw["M"] ** 2 + rng.randint(1, 10 if small else 60)
    elif name == "finite_diff":
        kw["N"] = rng.randint(2, 10 if small else 40)
        if rng.random() < 0.5:
            kw["delta"] = rng.choice([0.01, 0.05, 0.001])
        if rng.random() < 0.3:
            kw["skip_values"] = rng.choice([256, 1024])
    elif name == "morris":
        kw["N"] = rng.randint(4, 12)
        kw["num_levels"] = rng.choice([4, 4, 6, 8])
        if rng.random() < 0.5:
            kw["optimal_trajectories"] = rng.randint(2, kw["N"] - 1)
            kw["local_optimization"] = rng.random() < 0.7
            if not kw["local_optimization"]:
                kw["N"] = min(kw["N"], 7)
                kw["optimal_trajectories"] = min(kw["optimal_trajectories"], kw["N"] - 1, 4)
    if big == "wide":
        if name in ("sobol", "saltelli"):
            kw["N"] = min(kw["N"], 16)
        elif name == "morris":
            kw.pop("optimal_trajectories", None)
            kw.pop("local_optimization", None)
    elif big == "long":
        if name in ("sobol", "saltelli"):
            kw["N"] = rng.choice([128, 256, 512, 1024])
        elif name == "morris":
            kw["N"] = rng.randint(40, 300)
            kw.pop("optimal_trajectories", None)
            kw.pop("local_optimization", None)
        elif name != "ff":
            kw["N"] = rng.choice([rng.randint(200, 1100), 1000, 1024, rng.randint(1100, 2500)])
    c = {"f": "sample." + name, "problem": p, "kw": kw}
    if name != "saltelli":
        if seed == "any":
            # scipy's Sobol' engine takes an integer or a Generator only
            c["seed"] = gen_seed(rng, seqs=name != "sobol")
        elif seed == "int":
            c["seed"] = gen_seed(rng, ints_only=True)
    return c


def gen_analyze(rng, name=None, dmax=5, groups=0.4, seed="any", heavy=0.15, small=False,
                light_hdmr=True, dists=0.2):
    if name is None:
        pool = list(ANALYZERS)
        if rng.random() > heavy:
            pool = [a for a in pool if a not in HEAVY]
        name = rng.choice(pool)
    # ff analyses pad on their own; groups matter to sobol and morris
    g = groups if name in ("sobol", "morris", "pawn", "rsa", "discrepancy") else 0.0
    if name == "discrepancy":
        dists = 0.0
    s = gen_sample(rng, rng.choice(PAIR[name]), dmax, g, "int", small, dists,
                   name not in ("delta", "discrepancy", "hdmr", "enhanced_hdmr"))
    kw = {}
    k = s["kw"]
    long = k.get("N", 0) > 150
    if name == "sobol":
        kw["calc_second_order"] = k["calc_second_order"]
        kw["num_resamples"] = rng.choice([3, 10, 25])
        kw["keep_resamples"] = rng.random() < 0.4
    elif name == "morris":
        kw["num_resamples"] = rng.choice([5, 20])
        kw["num_levels"] = k["num_levels"]
        kw["scaled"] = rng.random() < 0.3
    elif name == "delta":
        if s["f"] == "sample.latin":
            k["N"] = rng.randint(160, 220 if small else 400)
        else:
            k["N"] = 32
        kw["num_resamples"] = rng.choice([2, 4])
        if rng.random() < 0.4:
            kw["y_resamples"] = rng.randint(90, 120)
        kw["method"] = rng.choice(["all", "all", "delta", "sobol"])
    elif name in ("dgsm", "fast", "rbd_fast"):
        kw["num_resamples"] = rng.choice([3, 10, 25])
        if name == "fast":
            kw["M"] = k["M"]
        if name == "rbd_fast":
            kw["M"] = rng.choice([2, 3, 4])
            if s["f"] == "sample.latin" and not long:
                k["N"] = rng.randint(40, 60 if small else 140)
    elif name == "ff":
        kw["second_order"] = rng.random() < 0.5
    elif name == "pawn":
        kw["S"] = rng.choice([2, 3, 5])
        if s["f"] == "sample.latin" and not long:
            k["N"] = rng.randint(40, 60 if small else 140)
    elif name == "rsa":
        kw["bins"] = rng.choice([3, 5, 10])
        kw["target"] = rng.choice(["X", "Y"])
        if s["f"] == "sample.latin" and not long:
            k["N"] = rng.randint(40, 60 if small else 140)
    elif name == "discrepancy":
        kw["method"] = rng.choice(["WD", "CD", "MD", "L2-star"])
    elif name == "hdmr":
        k["N"] = 300 + rng.randint(0, 40)
        kw.update(maxorder=rng.choice([1, 2]), maxiter=5, m=2, K=rng.choice([1, 2]))
        if kw["K"] > 1:
            kw["R"] = 300
    elif name == "enhanced_hdmr":
        k["N"] = 300 + rng.randint(0, 40)
        kw.update(max_order=rng.choice([1, 2, 2]), poly_order=rng.choice([2, 3]),
                  bootstrap=rng.choice([1, 2]), max_iter=100, extended_base=rng.random() < 0.5)
        if kw["bootstrap"] > 1:
            kw["subset"] = 300
    if name in HEAVY:
        D = min(3, s["problem"]["num_vars"])
        p = s["problem"]
        for key in ("names", "bounds", "dists", "groups"):
            if key in p:
                p[key] = p[key][:D]
        if p.get("dists") and all(d == "unif" for d in p["dists"]):
            del p["dists"]
        p["num_vars"] = D
    if rng.random() < 0.25 and name in ("sobol", "morris", "delta", "dgsm", "fast", "rbd_fast"):
        kw["conf_level"] = rng.choice([0.9, 0.99, 0.5])
    c = {"f": "analyze." + name, "problem": s["problem"], "sample": s, "kw": kw,
         "model": gen_model(rng, 1)}
    if seed == "any":
        c["seed"] = gen_seed(rng, kinds=name in ("morris", "rbd_fast"))
    elif seed == "int":
        c["seed"] = gen_seed(rng, ints_only=True)
    return c


def gen_model(rng, outs=1):
    return {"outs": outs, "k": [[round(rng.uniform(-2, 2), 4) for _ in range(8)] for _ in range(outs)]}


# ---------------------------------------------------------------- execution
class Model:
    """Row-wise model: each output row depends on its input row only, bit for bit.

    Only elementwise + and * are used, so evaluating any split of the rows gives the same
    bits as evaluating them all at once.
    """

    def __init__(self, spec):
        self.spec = spec

    def __call__(self, X, a=0.0, b=1.0):
        import numpy as np
        X = np.asarray(X, dtype=float)
        form = self.spec.get("form")
        if form == "loop" and not len(X):
            return np.array([])
        if form == "nonempty" and not len(X):
            raise ValueError("model called without samples")
        cols = []
        for k in self.spec["k"]:
            y = np.zeros(X.shape[0])
            for j in range(X.shape[1]):
                y = y + X[:, j] * k[j % 8]
                y = y + X[:, j] * X[:, (j + 1) % X.shape[1]] * (k[(j + 3) % 8] * 0.3)
            cols.append(y * b + a)
        if self.spec.get("col2d") or len(cols) > 1:
            out = np.stack(cols, axis=1)
        else:
            out = cols[0]
        if form == "int":
            out = np.floor(out * 3).astype(int)
        elif form == "bool":
            out = out > 0
        elif form == "f4":
            out = out.astype(np.float32)
        elif form == "nan":
            # a model that fails for some samples
            out[cols[0] > 1.0] = np.nan
            out[cols[0] < -2.0] = np.inf
        elif form == "complex":
            out = out + 1j * out * 0.5
        elif form == "loop":
            # as a model written row by row gives it: ints in some rows, floats in others
            rows = [(int(v * 3) if v < 1.0 else float(v)) if np.ndim(v) == 0 else
                    [int(x * 3) if v[0] < 1.0 else float(x) for x in v] for v in out]
            out = np.array(rows)
        return out


def as_problem(p):
    p = copy.deepcopy(p)
    b = p["bounds"]
    form = p.pop("_bounds", None)
    if form == "array" and len(set(map(len, b))) == 1:
        import numpy as np
        p["bounds"] = np.array(b, dtype=float)
        return p
    if form:
        p["bounds"] = [tuple(x) for x in b] if form == "tuples" else tuple(tuple(x) for x in b)
        return p
    if type(b) is list and len(b) > 1 and all(type(x) is list and x == b[0] for x in b):
        p["bounds"] = [b[0]] * len(b)        # [[0, 1]] * D: one list object for all
    return p


def run_sample(c, problem=None, seed=None):
    kw = dict(c["kw"])
    if "seed" in c:
        kw["seed"] = make_seed(c["seed"])
    p = as_problem(c["problem"]) if problem is None else problem
    return sampler(c["f"].split(".")[1]).sample(p, **kw)


def make_data(c):
    """(problem as after sampling, X, Y) for an analysis call."""
    p = as_problem(c["problem"])
    X = run_sample(c["sample"], p)
    Y = Model(c["model"])(X)
    return p, X, Y


def run_analyze(c, data, problem=None, share=False):
    """data: (problem, X, Y); copies are passed unless share."""
    p, X, Y = data
    if problem is None:
        problem = as_problem(p)
    if not share:
        X, Y = X.copy(), Y.copy()
    kw = dict(c["kw"])
    if "seed" in c:
        kw["seed"] = make_seed(c["seed"])
    name = c["f"].split(".")[1]
    if name in NEEDS_X:
        return analyzer(name).analyze(problem, X, Y, **kw)
    return analyzer(name).analyze(problem, Y, **kw)


def run_call(c, data=None):
    if c["f"].startswith("sample."):
        return run_sample(c)
    return run_analyze(c, data if data is not None else make_data(c))


def outcome(fn, *a, **k):
    """('ok', plain value) or ('err', exception class name)."""
    try:
        return ("ok", plain(fn(*a, **k)))
    except Exception as e:
        return ("err", type(e).__name__)


DROP = {"RT"}       # wall-clock timings reported by HDMR


def plain(v, depth=0):
    import numpy as np
    import pandas as pd
    if isinstance(v, np.ma.MaskedArray):
        return {"masked": np.array(v.filled(np.nan)), "mask": np.ma.getmaskarray(v).copy()}
    if isinstance(v, np.ndarray):
        return v.copy() if v.dtype != object else [plain(x, depth + 1) for x in v.ravel()]
    if isinstance(v, dict):
        return {str(k): plain(x, depth + 1) for k, x in v.items() if k not in DROP}
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, pd.DataFrame):
        return {"df": plain({str(c): v[c].to_numpy() for c in v.columns}), "index": [str(i) for i in v.index]}
    if isinstance(v, (str, bytes, bool, int, float, type(None))):
        return v
    if isinstance(v, np.generic):
        return v.item()
    return "<%s>" % type(v).__name__


def tol(name):
    return 1e-6 if name.split(".")[-1] in HEAVY else 1e-9


ATOL = 1e-10    # rounding noise of sums over values of order 1 to 1000


def diff(a, b, rtol=1e-9, path=""):
    """None when equal (to rtol), else where and how they differ."""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            x, y = np.asarray(a), np.asarray(b)
        except Exception:
            return "%s: %r vs %r" % (path, type(a), type(b))
        if x.shape != y.shape:
            return "%s: shape %s vs %s" % (path, x.shape, y.shape)
        if x.dtype.kind not in "fiubc" or y.dtype.kind not in "fiubc":
            return None if x.tolist() == y.tolist() else "%s: %r vs %r" % (path, x.tolist()[:5], y.tolist()[:5])
        x, y = x.astype(float), y.astype(float)
        if x.size == 0:
            return None
        with np.errstate(all="ignore"):
            same = (x == y) | (np.isnan(x) & np.isnan(y))
            fin = np.isfinite(x) & np.isfinite(y)
            scale = np.max(np.abs(np.where(fin, y, 0.0)))
            close = fin & (np.abs(x - y) <= rtol * np.maximum(np.abs(x), np.abs(y)) + rtol * 0.1 * scale + ATOL)
        bad = ~(same | close)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return "%s%s: %r vs %r (%d of %d entries differ)" % (path, list(i), float(x[i]), float(y[i]),
                                                             int(bad.sum()), x.size)
        return None
    if isinstance(a, float) or isinstance(b, float):
        return diff(np.asarray(a, dtype=float) if isinstance(a, (int, float)) else np.asarray([0.0, 0.0]),
                    np.asarray(b, dtype=float) if isinstance(b, (int, float)) else np.asarray([0.0]), rtol, path)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d vs %d" % (path, len(a), len(b))
        if a and all(type(x) in (int, float) for x in a) and all(type(x) in (int, float) for x in b):
            return diff(np.array(a, dtype=float), np.array(b, dtype=float), rtol, path)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            if set(a) != set(b):
                return "%s: keys %s vs %s" % (path, sorted(a), sorted(b))
        for k in a:
            d = diff(a[k], b[k], rtol, "%s.%s" % (path, k))
            if d:
                return d
        return None
    if type(a) is not type(b) or a != b:
        return "%s: %r vs %r" % (path, a, b)
    return None


def finite_enough(v):
    """Does an outcome carry any finite number?  (non-triviality)"""
    import numpy as np
    if isinstance(v, np.ndarray):
        return bool(v.size) and v.dtype.kind in "fiu" and bool(np.isfinite(v.astype(float)).any())
    if isinstance(v, dict):
        return any(finite_enough(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(finite_enough(x) for x in v)
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def fp(v):
    """A short fingerprint of a plain value (for the determinism self-test)."""
    import hashlib
    import numpy as np
    h = hashlib.sha1()

    def go(x):
        if isinstance(x, np.ndarray):
            h.update(str((x.shape, x.dtype.kind)).encode())
            h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
        elif isinstance(x, dict):
            for k in sorted(x):
                h.update(str(k).encode())
                go(x[k])
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        else:
            h.update(repr(x).encode())
    go(v)
    return h.hexdigest()[:16]


# ---------------------------------------------------------------- almost the same call
def gen_near(rng, c):
    """A call that agrees with c in all but one respect: what a cache with too small a key
    would take for c."""
    v = copy.deepcopy(c)
    ana = c["f"].startswith("analyze.")
    hows = ["bound", "names", "kw", "seed", "groups", "dists"]
    if ana:
        hows = ["y_model", "y_half", "y_scale", "x_half", "x_half", "x_one", "x_swap", "y_one", "kw", "bound", "names"]
    how = rng.choice(hows)
    p, kw = v["problem"], v["kw"]
    r = rng.randrange(2**31)
    if how == "bound":
        i = rng.randrange(p["num_vars"])
        b = list(p["bounds"][i])
        b[1] = round(b[1] + 0.5, 6)
        p["bounds"][i] = b
    elif how == "names":
        i = rng.randrange(p["num_vars"])
        p["names"][i] = p["names"][i] + "_"
    elif how == "groups" and p.get("groups"):
        g = list(p["groups"])
        rng.shuffle(g)
        p["groups"] = g
    elif how == "dists" and p.get("dists"):
        ds = p["dists"]
        same = [i for i in range(len(ds)) if len(p["bounds"][i]) == 2 and 0 < p["bounds"][i][0] < p["bounds"][i][1]]
        if same:
            i = rng.choice(same)
            ds[i] = "unif" if ds[i] != "unif" else "logunif"
    elif how == "kw":
        ks = [k for k in kw if k not in ("N", "num_levels", "M", "calc_second_order", "skip_values", "K", "R",
                                         "bootstrap", "subset")]
        if not ana:
            ks = list(kw)
        if ks:
            k = rng.choice(sorted(ks))
            x = kw[k]
            if isinstance(x, bool):
                kw[k] = not x
            elif k == "conf_level":
                kw[k] = 0.8
            elif k == "delta":
                kw[k] = 0.02
            elif k == "N" and v["f"] in ("sample.sobol", "sample.saltelli"):
                kw[k] = x * 2
            elif k in ("N", "num_resamples", "bins", "S", "maxiter", "max_iter", "y_resamples", "M", "num_levels"):
                kw[k] = x + (2 if k == "num_levels" else 1)
            elif k == "skip_values":
                kw[k] = x + 16
            elif k == "method" and c["f"] == "analyze.delta":
                kw[k] = "all" if x != "all" else "delta"
            elif k == "method":
                kw[k] = "CD" if x != "CD" else "MD"
            elif k == "target":
                kw[k] = "X" if x == "Y" else "Y"
    elif how == "seed" and "seed" in v:
        v["seed"] = gen_seed(rng, ints_only=True)
    return {"call": v, "how": how, "r": r}


def near_data(near, data):
    """The data of the call `near`, made from those of the original."""
    import random as rnd
    p, X, Y = data
    X, Y = X.copy(), Y.copy()
    r, how, n = rnd.Random(near["r"]), near["how"], len(Y)
    if how == "y_model":
        Y = Model(gen_model(r, 1))(X)
    elif how == "y_scale":
        Y = Y * 3.0 + 1.0
    elif how == "y_half":
        for i in range(n):
            if r.random() < 0.5:
                Y[i] = Y[i] * 0.5 - 0.25
    elif how == "y_one":
        Y[r.randrange(n)] += 0.75
    elif how == "x_half":
        for i in range(0, len(X) - 1):
            if r.random() < 0.5:
                X[i], X[i + 1] = X[i + 1].copy(), X[i].copy()
    elif how == "x_one":
        i = r.randrange(len(X))
        X[i] = X[r.randrange(len(X))]
    elif how == "x_swap":
        X[:, [0, -1]] = X[:, [-1, 0]]
    q = as_problem(near["call"]["problem"])
    if how in ("bound", "names"):
        return q, X, Y
    return copy.deepcopy(p), X, Y
