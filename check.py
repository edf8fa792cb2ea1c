#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay variant:family:case]"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vf
def main():
    pid = sys.argv[1]
    mod = importlib.import_module("p_" + pid.lower())
    c = vf.Check(pid, getattr(mod, "LEVEL", "exploration"))
    try:
        rule = mod.run(c)
        rc = c.finish(rule)
    except vf.BuildError as e:
        print("ERROR: cannot build the check against the current tree:", e); c.cleanup(); rc = 2
    except vf.Enough:
        rc = c.finish("stopped early: what ran did not terminate")
    except Exception:
        traceback.print_exc()
        if c.viols: rc = c.finish("stopped early by an error of the check, after violations")
        else: c.cleanup(); rc = 2
    sys.exit(rc)
main()
