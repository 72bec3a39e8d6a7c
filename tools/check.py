#!/usr/bin/env python3
"""check.py <property> : decides one property; see DESIGN.md"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks

def main():
    pid = sys.argv[1]
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            os.environ["VERIF_TIER"] = sys.argv[i + 1]
        if a == "--seed":
            os.environ["VERIF_SEED"] = sys.argv[i + 1]
    try:
        rc = checks.run(pid)
    except vlib.CheckError as e:
        print("ERROR", e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return rc

sys.exit(main())
