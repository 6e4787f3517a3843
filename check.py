#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X]"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import engine

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--setup", action="store_true", help="only build the tree and the drivers")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--replay")
ap.add_argument("--scale", type=float, default=1.0)
a = ap.parse_args()
sys.stdout.reconfigure(line_buffering=True)
if a.setup:
    from vf import build
    import glob
    for f in sorted(glob.glob(os.path.join(build.ROOT, "drivers", "*.cpp"))):
        print(build.driver(os.path.basename(f)[:-4]))
    print(build.fuzzer())
    sys.exit(0)
if not a.property:
    ap.error("which property?")
sys.exit(engine.main(a.property, a.tier, a.seed, a.replay, a.scale))
