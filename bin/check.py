#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  -- decides one property."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "--tier" in sys.argv:
    os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
import vlib
import plan


def main():
    prop = sys.argv[1]
    R = vlib.Run(prop)
    try:
        R.build()
        level, assumptions = plan.PLAN[prop](R)
        rc = R.finish(level, assumptions)
    except vlib.ToolError as e:
        print("CHECK ERROR:", e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        R.close()
    sys.exit(rc)


main()
