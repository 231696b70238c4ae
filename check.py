#!/usr/bin/env python3
"""Runs the static check of one property: check.py PROPERTY-ID"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    from lib.pyfront import AnalysisBroken
    mod = importlib.import_module("checks." + pid.lower())
    try:
        return mod.run().finish()
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 3
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}: internal error")
        return 4


if __name__ == "__main__":
    sys.exit(main())
