#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import runner
    c = runner.Check(pid, tier)
    mod = importlib.import_module(pid.lower())
    r = mod.main(c)
    if r is None:
        c.run()
        r = c.finish()
    sys.exit(r)


if __name__ == "__main__":
    main()
