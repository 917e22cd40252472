#!/usr/bin/env python3
"""Mutation survey: which small changes of SALib pass the stable tests, and what do the checks say?

usage: mutate.py gen OUT.jsonl N SEED      list N random mutants of the functions in scope
       mutate.py tests OUT.jsonl WORKERS   run the stable tests on each (adds "tests": killed/survived)
       mutate.py checks OUT.jsonl [wall]   run the relevant checks on the survivors
Not used by any registered check.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.environ.get("VERIF_DIR", "/verif")
SRC = "/repo/src/SALib/"
SCOPE = {
    "util/problem.py": (["set_samples", "set_results", "samples", "results", "analysis", "sample", "evaluate",
                         "evaluate_parallel", "evaluate_distributed", "analyze", "analyze_parallel", "_wrap_func",
                         "_collect_results", "_check_result_size", "__init__", "_method_creator"],
                        "C06 C01 C04 C02 C05 C07 C15 C17 C18"),
    "util/util_funcs.py": (["read_param_file", "handle_seed", "_check_groups"], "C14 C08 C12"),
    "util/__init__.py": (["scale_samples", "_scale_samples", "_nonuniform_scale_samples", "extract_group_names"],
                         "C15 C07 C08 C11"),
    "util/results.py": (None, "C12 C02 C06 C17"),
    "scripts/salib.py": (None, "C11 C12 C14"),
    "sample/common_args.py": (None, "C11 C08"),
    "analyze/common_args.py": (None, "C12 C09"),
    "analyze/sobol.py": (["analyze", "sobol_parallel", "create_task_list", "Si_list_to_dict", "cli_parse",
                          "cli_action", "create_Si_dict", "separate_output_values"], "C03 C12 C13 C09 C10 C02"),
    "analyze/delta.py": (["analyze", "cli_parse", "cli_action", "bias_reduced_delta", "sobol_first_conf",
                          "export_resamples", "_save", "*save*", "*resampl*"], "C16 C12 C09 C13 C18"),
}
for a in ("morris", "dgsm", "fast", "rbd_fast", "ff", "pawn", "rsa", "discrepancy", "hdmr", "enhanced_hdmr"):
    SCOPE["analyze/%s.py" % a] = (["analyze", "cli_parse", "cli_action", "_check*"], "C12 C13 C09 C15 C10")
for a in ("latin", "sobol", "saltelli", "ff", "finite_diff", "fast_sampler"):
    SCOPE["sample/%s.py" % a] = (["sample", "cli_parse", "cli_action", "_sample_groups", "extend_bounds",
                                  "generate_contrast"], "C11 C08 C15 C07 C10")
SCOPE["sample/morris/morris.py"] = (["sample", "cli_parse", "cli_action", "_sample_morris",
                                     "_compute_optimised_trajectories", "_check_group_membership"],
                                    "C11 C08 C15 C07 C10")


def functions(tree, names):
    import fnmatch
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if names is None or any(fnmatch.fnmatch(n.name, p) for p in names):
                yield n


def mutants_of(path):
    """(line, description, new source) for one file."""
    src = open(SRC + path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((n.lineno, "%s: %s -> %s" % (what, text(n)[:90], new[:90]), s))

    seen = set()
    for fn in functions(tree, SCOPE[path][0]):
        doc = fn.body[0] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(
            getattr(fn.body[0], "value", None), ast.Constant) else None
        skip = set(ast.walk(doc)) if doc else set()
        for n in ast.walk(fn):
            if n in skip or id(n) in seen:
                continue
            seen.add(id(n))
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
                      ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
                put(n, "%s %s %s" % (text(n.left), sw[type(n.ops[0])], text(n.comparators[0])), "compare")
            elif isinstance(n, ast.If):
                put(n.test, "not (%s)" % text(n.test), "negate")
                put(n.test, "False", "never")
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                put(n, str(n.value + 1), "const")
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                put(n, str(not n.value), "bool")
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg:
                        a, b = span(n)
                        ka, kb = span(k)
                        r = raw[a:b]
                        s1 = r[:ka - a].rstrip()
                        s2 = r[kb - a:]
                        if s1.endswith(b","):
                            s1 = s1[:-1]
                        elif s2.lstrip().startswith(b","):
                            s2 = s2.lstrip()[1:]
                        put(n, (s1 + s2).decode(), "drop keyword " + k.arg)
                if len(n.args) >= 2:
                    t = text(n)
                    a0, a1 = text(n.args[0]), text(n.args[1])
                    rest = [text(x) for x in n.args[2:]] + [
                        (k.arg + "=" if k.arg else "**") + text(k.value) for k in n.keywords]
                    put(n, "%s(%s)" % (text(n.func), ", ".join([a1, a0] + rest)), "swap args")
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",) and not n.args:
                    put(n, text(n.func.value), "drop copy")
            elif isinstance(n, ast.BinOp):
                sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.FloorDiv: "/", ast.Mod: "*"}
                if type(n.op) in sw:
                    put(n, "%s %s %s" % (text(n.left), sw[type(n.op)], text(n.right)), "operator")
            elif isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                put(n, op.join(text(v) for v in n.values), "boolean")
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and n is not doc:
                put(n, "pass", "delete")
    return out


def gen(out, n, seed):
    allm = []
    for path in SCOPE:
        for line, what, src in mutants_of(path):
            allm.append((path, line, what, src))
    rng = random.Random(seed)
    rng.shuffle(allm)
    # spread over the files rather than over their lengths
    per = {}
    pick = []
    cap = max(3, n // 12)
    for m in allm:
        c = cap * 3 if m[0] == "util/problem.py" else cap
        if per.get(m[0], 0) < c:
            per[m[0]] = per.get(m[0], 0) + 1
            pick.append(m)
    pick = pick[:n]
    with open(out, "w") as f:
        for i, (path, line, what, src) in enumerate(pick):
            f.write(json.dumps({"id": i, "path": path, "line": line, "what": what, "src": src}) + "\n")
    print(len(allm), "mutants, picked", len(pick), per)


def load(p):
    return [json.loads(l) for l in open(p)]


def save(p, ms):
    with open(p + ".tmp", "w") as f:
        for m in ms:
            f.write(json.dumps(m) + "\n")
    os.replace(p + ".tmp", p)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", MPLCONFIGDIR="/opt/venv/mplconfig", LANG="C.UTF-8",
           PATH="/opt/venv/bin:" + os.environ["PATH"])


def copy_repo(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)


def run_tests(d, unstable):
    e = dict(ENV, PYTHONPATH=d + "/src")
    t = " or ".join(unstable)
    for extra in (["--ignore-glob=*/test_cli*.py", "--ignore-glob=*test_regression*"], ["tests/test_regression.py"],
                  ["CLI"]):
        args = ["tests"] + extra
        if extra == ["CLI"]:
            args = [os.path.join("tests", f) for f in os.listdir(d + "/tests") if f.startswith("test_cli")]
        elif extra[0].startswith("tests"):
            args = extra
        cmd = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=150"] + args
        for u in unstable:
            cmd += ["--deselect", u]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return "killed: timeout"
        if r.returncode not in (0,):
            return "killed: " + " ".join(r.stdout.strip().splitlines()[-2:])[:160]
    return "survived"


def tests(path, workers):
    import queue
    import threading
    ms = load(path)
    dirs = queue.Queue()
    for i in range(workers):
        d = "/tmp/w/m%d" % i
        copy_repo(d)
        dirs.put(d)
    lock = threading.Lock()
    unstable = ["tests/test_regression.py::test_regression_delta_svm"]

    def one(m):
        if "tests" in m:
            return
        d = dirs.get()
        try:
            f = d + "/src/SALib/" + m["path"]
            old = open(f).read()
            open(f, "w").write(m["src"])
            m["tests"] = run_tests(d, unstable)
            open(f, "w").write(old)
            subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."])
        finally:
            dirs.put(d)
        with lock:
            save(path, ms)
            print(m["id"], m["path"], m["line"], m["what"], "|", m["tests"], flush=True)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, ms))
    while not dirs.empty():
        shutil.rmtree(dirs.get(), ignore_errors=True)


def checks(path, wall):
    ms = load(path)
    d = "/tmp/w/mc"
    copy_repo(d)
    for m in ms:
        if m.get("tests") != "survived" or "checks" in m:
            continue
        f = d + "/src/SALib/" + m["path"]
        old = open(f).read()
        open(f, "w").write(m["src"])
        res = {}
        for p in SCOPE[m["path"]][1].split():
            e = dict(ENV, SIM_REPO_SRC=d + "/src", VERIF_SEED="1", VERIF_TIER="quick", SIM_WALL=str(wall))
            r = subprocess.run(["/opt/venv/bin/python", V + "/check.py", p, "quick"], cwd=V, env=e,
                               capture_output=True, text=True)
            res[p] = r.returncode
            if r.returncode == 1:
                m["why"] = [l for l in r.stdout.splitlines() if l.startswith("violation kind")][:1]
                break
            if r.returncode == 2:
                m["why"] = (r.stdout + r.stderr)[-300:]
        open(f, "w").write(old)
        m["checks"] = res
        save(path, ms)
        print(m["id"], m["path"], m["line"], m["what"], "|", res, str(m.get("why", ""))[:200], flush=True)
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen":
        gen(a[2], int(a[3]), int(a[4]))
    elif a[1] == "tests":
        tests(a[2], int(a[3]))
    else:
        checks(a[2], float(a[3]) if len(a) > 3 else 15.0)
