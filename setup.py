#!/usr/bin/env python3
"""setup_cmd: builds the extractor and the conformance harnesses (the checks rebuild them when /repo changes)."""
import os, subprocess, sys
sys.argv = ["check.py", "--property", "NONE"]
import importlib.util
V = os.path.dirname(os.path.abspath(__file__))
os.environ["VERIF_SETUP"] = "1"
spec = importlib.util.spec_from_file_location("check", os.path.join(V, "check.py"))
c = importlib.util.module_from_spec(spec)
spec.loader.exec_module(c)
print(c.build_vx())
for h in ("harness", "harness_x", "harness_d"):
    if os.path.isdir(os.path.join(V, h)):
        print(c.build_harness(h))
print(c.expand_derives())
