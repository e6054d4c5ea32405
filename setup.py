#!/usr/bin/env python3
"""Builds the IR dumper and warms the compile cache."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import frontend as fe
fe.ensure_irdump()
for c in ("commons", "client", "server", "wire"):
    fe.dump_paths(c)
print("ok")
