#!/usr/bin/env python3
"""run.py <property> <quick|thorough>   exit 0 held, 1 violation, 2 machinery failed"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import importlib
import vlib


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    import props
    fn, level = props.CHECKS[pid]
    chk = vlib.Check(pid, level, tier)
    try:
        fn(chk)
        rc = chk.finish()
    except vlib.ToolError as e:
        print("TOOL FAILURE: %s" % e)
        chk.work.cleanup()
        rc = 2
    except Exception:
        traceback.print_exc()
        chk.work.cleanup()
        rc = 2
    sys.exit(rc)


main()
