#!/usr/bin/env python3
"""run.py <property id> <quick|thorough>: decide one property from /repo's source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from sa.report import run
    mod = importlib.import_module(f"checks.{pid.lower()}")
    return run(pid, tier, mod.check)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
