#!/usr/bin/env python3
"""python3 run.py ID: decides property ID (VERIF_SEED, VERIF_TIER=quick|thorough).
python3 run.py setup: builds everything.  python3 run.py replay FILE: runs one recorded plan again."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbv import checks, core


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "setup":
            return checks.setup()
        if sys.argv[1] == "replay":
            return checks.replay(sys.argv[2])
        return checks.check(sys.argv[1])
    except core.ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
