#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]   |   run.py setup   |   run.py all"""
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(40000)
import ir
from common import run_check


def registry():
    reg = {}
    for f in sorted(glob.glob(os.path.join(HERE, "checks", "*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        for k, v in getattr(m, "CHECKS", {}).items():
            reg[k] = v
    return reg


def main():
    what = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if what == "setup":
        ir.build_extractor()
        db = ir.load()
        print("extractor built, program loaded: %d functions, %d classes" % (len(db.functions), len(db.records)))
        return 0
    reg = registry()
    if what == "all":
        bad = 0
        for k in sorted(reg):
            r = run_check(k, reg[k][0], reg[k][1], tier)
            bad = max(bad, r)
        return bad
    return run_check(what, reg[what][0], reg[what][1], tier)


if __name__ == "__main__":
    sys.exit(main())
