#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] | replay FILE | selftest [runs] | plan <property> <idx>"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(a):
    from sim import core
    if a[0] == "_shard":
        core.shard_main(a[1], a[2], a[3], int(a[4]), int(a[5]), int(a[6]), float(a[7]), a[8])
        return 0
    if a[0] == "_selfshard":
        from sim import selftest
        selftest.one(a[1], a[2], a[3], [int(i) for i in a[4].split(",")], a[5])
        return 0
    if a[0] == "_minimise":
        core.minimise_main(a[1])
        return 0
    if a[0] == "_replay":
        return core.replay_main(a[1])
    if a[0] == "replay":
        return core.replay(a[1])
    if a[0] == "_peer":
        from sim import fresh
        fresh.peer_main()
        return 0
    if a[0] == "selftest":
        from sim import selftest
        return selftest.main(a[1:])
    if a[0] == "debug":          # debug PROP IDX [SEED]: one run, in this process' fork, verbose
        from sim import debug
        return debug.main(a[1:])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    return core.check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
