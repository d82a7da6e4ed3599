#!/usr/bin/env python3
"""check.py <property id>  -- decide one property on the current source of /repo.
exit 0: held; exit 1 + VIOLATION line: broken; anything else: the analysis itself is broken."""
import sys, os
if os.environ.get("PYTHONHASHSEED") != "0":     # the order of sets, and so the whole run, is reproducible
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from nzsa import runner
if __name__ == "__main__":
    sys.exit(runner.main(HERE, sys.argv[1:]))
