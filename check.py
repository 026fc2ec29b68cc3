#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
import report  # noqa: E402

if __name__ == "__main__":
    sys.exit(report.main(sys.argv[1]))
