#!/usr/bin/env python3
import sys, os, importlib
sys.dont_write_bytecode = True
d = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(d, "engine"), os.path.join(d, "rules")]
import report
pid = sys.argv[1]
report.main(pid, lambda: importlib.import_module(pid.lower()).run())
