#!/usr/bin/env python3
"""warms the Go build cache and checks the tools the checks need"""
import os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib"]
import work, rt
d = work.scratch()
rt.build_fixture(d)
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
print("setup ok")
