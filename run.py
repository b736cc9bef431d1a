#!/usr/bin/env python3
"""Driver of the checks.

    run.py ID              run the check of one property (tier: VERIF_TIER, seed: VERIF_SEED)
    run.py --replay FILE   run one recorded case again
    run.py --build         build everything the checks need

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: the check could not give an answer.
"""
import os, sys, time, json, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vrun, specs


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        sys.exit(vrun.replay(a[1]))
    if a[:1] == ["--build"]:
        vrun.build_all()
        sys.exit(0)
    if len(a) != 1 or a[0] not in specs.SPECS:
        print(__doc__)
        print("properties:", " ".join(specs.SPECS))
        sys.exit(2)
    try:
        sys.exit(vrun.check(a[0]))
    except vrun.CheckError as e:
        print("CHECK ERROR:", e)
        sys.exit(3)


main()
