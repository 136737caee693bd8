#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Check, CheckError, parallel
import checks

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        getattr(checks, prop)(c)
        if c.thorough:
            parallel(*[lambda m=m, f=f: c.refuted(m, f) for m, f in checks.WRONG.get(prop, [])])
        return c.finish()
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    sys.exit(rc)
