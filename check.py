#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough    decide one property for /repo's working tree
check.py setup                       build the harness"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib


def main():
    if sys.argv[1] == "setup":
        for f in ("",):
            vlib.build(f)
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    run = vlib.Run(prop, tier)
    try:
        if prop[0] == "E":
            import engine_checks as m
        elif prop[0] in "CG":
            import codec_checks as m
        elif prop[0] in "SQ":
            import unit_checks as m
        elif prop[0] == "X":
            import quic_checks as m
        elif prop[0] == "B":
            import blocking_checks as m
        elif prop[0] == "T":
            import tokio_checks as m
        elif prop[0] in "FL":
            import wrap_checks as m
        m.check(run)
    except vlib.ToolError as e:
        print("ERROR", e)
        if not run.violations:
            return 2
    except Exception:
        traceback.print_exc()
        if not run.violations:
            return 2
    rc = run.finish()
    return rc


sys.exit(main())
