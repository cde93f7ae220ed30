#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: static decision of one property on /repo's current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa import harness  # noqa: E402


def run_one(pid):
    mod = importlib.import_module("checks." + pid.lower())
    return harness.main(pid, mod.run, mod.EXPLANATION, getattr(mod, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    sys.exit(run_one(sys.argv[1]))
