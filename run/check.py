#!/usr/bin/env python3
"""python3 run/check.py C01 : runs the check of one property (see DESIGN.md)."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kit, plans


def main():
    pid = sys.argv[1]
    try:
        if pid == "--setup":
            print("harness: " + kit.build())
            return
        run = kit.Run(pid)
        assumptions = plans.PLANS[pid](run) or []
        sys.exit(run.finish(assumptions=assumptions))
    except kit.CheckError as e:
        print("ERROR in check %s: %s" % (pid, e))
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
