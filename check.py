#!/usr/bin/env python3
"""Entry point of every check: check.py <property id>. See DESIGN.md."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import common


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module("p_" + pid.lower())
        chk = common.Check(pid, mod.TECHNIQUE)
        mod.check(chk)
        return chk.finish()
    except common.CheckError as e:
        print("ERROR property=%s %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
