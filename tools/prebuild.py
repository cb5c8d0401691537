#!/usr/bin/env python3
"""Warm up: compile every adapter once and check that TLC starts."""
import importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
import mbv
done = set()
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    if f.startswith("c") and f.endswith(".py"):
        for p in importlib.import_module(f[:-3]).CHECK.parts:
            k = (p.harness, p.variant, p.flags)
            if k not in done:
                done.add(k)
                try:
                    mbv.build(*k)
                except mbv.CheckError as e:
                    print("prebuild:", str(e)[:500])
print(len(done), "adapters built")
