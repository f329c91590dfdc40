#!/usr/bin/env python3
"""Builds every driver once and runs the known-answer tests of the reference implementations."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import build
from vlib.oracle import selftest
selftest.run(); build.shim(); build.shim("clockshim")
bad = 0
for f in build.F:
    try: print("built", build.build(f), flush=True)
    except Exception as e: print("NOT built", f, str(e)[-500:], flush=True); bad = 1
names = list(build.config_sets())
for f in (build.configs, build.rust_configs):
    try: f(names); print("built", f.__name__, flush=True)
    except Exception as e: print("NOT built", f.__name__, str(e)[-500:], flush=True); bad = 1
sys.exit(bad)
