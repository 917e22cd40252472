import json
import os
import sys


def main(a):
    from . import core, env
    seed = a[2] if len(a) > 2 else "1"
    shard = int(a[1]) % 8
    e = core.shard_env(seed, shard)
    if os.environ.get("PYTHONHASHSEED") != e["PYTHONHASHSEED"]:
        e["SIM_DEBUG"] = "1"
        os.execvpe(core.PY, [core.PY, os.path.join(core.HERE, "check.py"), "debug", *a], e)
    env.install(ptqdm=os.environ["SIM_PTQDM"] == "1")
    mod = core.load(a[0])
    if hasattr(mod, "setup"):
        mod.setup()
    plan = core.gen_plan(mod, a[0], seed, int(a[1]), os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(plan, indent=1, default=str))
    o = core.run_plan(mod, plan)
    for k, v in o.items():
        print(k, ":", v)
    if hasattr(mod, "teardown"):
        mod.teardown()
    return 0
