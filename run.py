#!/usr/bin/env python3-vt
"""run.py <property> [quick|thorough]  |  run.py --replay FILE  |  run.py --all [tier]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")


def main(argv):
    import build
    try:
        server = build.build()
    except build.BuildError as e:
        sys.stderr.write("BUILD FAILED\n%s\n" % e)
        return 3
    import core
    from props import PROPS
    if argv and argv[0] == "--replay":
        return core.replay_file(PROPS, argv[1], server)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if argv[0] == "--all":
        worst = 0
        for pid in sorted(PROPS):
            worst = max(worst, core.run_prop(PROPS[pid], tier, seed, server))
        return worst
    return core.run_prop(PROPS[argv[0]], tier, seed, server)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
