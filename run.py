#!/usr/bin/env python3
"""python3 run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]   (VERIF_TIER / VERIF_SEED are honoured)"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import check
if __name__ == "__main__":
    pid = sys.argv[1]
    mod = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, "checks"))) if f.lower().startswith(pid.lower() + "_")][0]
    sys.exit(check.main(importlib.import_module(mod).CHECK, sys.argv[2:]))
