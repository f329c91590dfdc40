#!/usr/bin/env python3
"""python3 run.py C01 ... : run the monitors of the given properties (VERIF_SEED, VERIF_TIER).
python3 run.py --replay FILE : re-execute a recorded violation and print the replies."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, core
from vlib.props import PROPS
def one(pid):
    mod, fn, level, rule, assume, kw = PROPS[pid]
    run = core.Run(pid, level, rule, assume, **kw)
    try:
        from vlib.oracle import selftest
        selftest.run()
        getattr(importlib.import_module("vlib.mon." + mod), fn)(run)
    except build.BuildError as e: run.errors.append(str(e))
    except Exception: run.errors.append(traceback.format_exc())
    return run.finish()
def replay(p):
    v = json.load(open(p)); print(v["what"]); d = core.Driver(v.get("driver", "?"), v.get("env"))
    for l in v.get("log", []):
        try: r = d.call(*l.split("\t"))
        except Exception as e: print(">", l[:2000], "\n  ", e); break
        print(">", l[:2000], "\n  ", repr(r)[:2000])
if __name__ == "__main__":
    if sys.argv[1:2] == ["--replay"]: sys.exit(replay(sys.argv[2]))
    rc = 0
    for p in sys.argv[1:] or sorted(PROPS): rc = max(rc, one(p))
    sys.exit(rc)
